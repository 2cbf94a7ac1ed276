// Small helpers shared by the drivers: JSON-lines in, ndjson trace out.
#pragma once
#include <nlohmann/json.hpp>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
typedef nlohmann::ordered_json J;

static inline std::vector<std::string> utf8chars(const std::string& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        size_t n = 1;
        unsigned char c = s[i];
        if (c >= 0xF0) n = 4; else if (c >= 0xE0) n = 3; else if (c >= 0xC0) n = 2;
        r.push_back(s.substr(i, n));
        i += n;
    }
    return r;
}

// Strings that are not valid UTF-8 cannot be put into JSON: show them escaped.
static inline std::string safe(const std::string& s) {
    try { J(s).dump(); return s; }
    catch (...) {
        std::string r = "\\invalid:"; char b[4];
        for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
        return r;
    }
}

struct Trace {
    std::ofstream out;
    explicit Trace(const char* path) : out(path) { }
    void emit(const J& e) { out << e.dump() << "\n"; out.flush(); }
};
