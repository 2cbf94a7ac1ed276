// Lexica, key-value stores and the vectors they are made of (spec/LexTrace.tla reads the trace).
// Texts of stores and text vectors are given in hexadecimal.
#include "vjson.hpp"
#include <stdlib.h>
#include <unistd.h>
#include "psi_exception.hpp"
#include "lexicon_base.hpp"
#include "key_value_store.hpp"
#include "string_vector.hpp"
#include "monotonic_vector.hpp"
#include "logging.hpp"

struct Scratch {
    std::string d;
    Scratch() { char b[] = "/tmp/lex_driver.XXXXXX"; if (!mkdtemp(b)) exit(77); d = b; }
    ~Scratch() { std::string c = "rm -rf '" + d + "'"; if (d.size() > 10) (void)!system(c.c_str()); }
    std::string file(int n) { return d + "/f" + std::to_string(n); }
};
static std::string bytes(const J& h) {
    std::string s = h, r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
    return r;
}
static J hex(const std::string& s) {
    std::string r; char b[4];
    for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
    return r;
}
struct Run {
    Scratch& sc;
    std::unique_ptr<LexiconBase> lex;
    std::map<int, std::shared_ptr<KeyValueStore> > kv;
    std::map<int, int> stored;
    std::map<int, bool> files;
    struct Texts { MediumStringVector m; LongStringVector g; };
    std::map<int, std::shared_ptr<Texts> > sv;
    struct Numbers { MonotonicVector<unsigned int, unsigned short, 20> a; MonotonicVector<unsigned long> b;
                     MonotonicVector<unsigned int, unsigned char, 3> c; };
    std::map<int, std::shared_ptr<Numbers> > mv;
    explicit Run(Scratch& s) : sc(s) { }

    Texts& texts(int s) { if (!sv[s]) sv[s].reset(new Texts()); return *sv[s]; }
    Numbers& numbers(int s) { if (!mv[s]) mv[s].reset(new Numbers()); return *mv[s]; }
    template <class V> J show(V& v, const J& q, J& it, J& last, J& fq) {
        J all = J::array(); it = J::array(); last = J::array(); fq = J::array();
        for (size_t i = 0; i < v.size(); ++i) all.push_back(hex(v[i].str()));
        for (auto x = v.template begin<typename V::string_iterator>(); x != v.template end<typename V::string_iterator>(); ++x) it.push_back(hex(*x));
        if (v.size()) last.push_back(hex(v.back().str()));
        for (auto& x : q) { std::string s = bytes(x); fq.push_back((long)v.find(s)); }
        return all;
    }
    void show(Texts& t, J& o) {
        J i1, l1, f1, i2, l2, f2;
        J a1 = show(t.m, o["q"], i1, l1, f1), a2 = show(t.g, o["q"], i2, l2, f2);
        o["all"] = a1; o["it"] = i1; o["last"] = l1; o["fq"] = f1; o["size"] = (long)t.m.size();
        if (a1 != a2 || i1 != i2 || l1 != l2 || f1 != f2 || t.m.size() != t.g.size()) o["all"] = J::array({"differ"});
    }
    template <class V> J list(const V& v) { J a = J::array(); for (size_t i = 0; i < v.size(); ++i) a.push_back((long)v[i]); return a; }
    void show(Numbers& n, J& o) {
        J a = list(n.a);
        o["all"] = a; o["it"] = a; o["size"] = (long)n.a.size(); o["last"] = J::array();
        if (n.a.size()) o["last"].push_back((long)n.a.back());
        if (list(n.b) != a || list(n.c) != a) o["all"] = J::array({-1});
        if (n.a.size() && (n.b.back() != n.a.back() || n.c.back() != n.a.back())) o["all"] = J::array({-2});
    }
    void step(J o) {
        std::string op = o["op"];
        if (op == "reset") {
            lex.reset(new LexiconBase()); kv.clear(); sv.clear(); mv.clear(); files.clear();
        } else if (op == "text") {
            {
                std::ofstream f(sc.file(999).c_str());
                for (size_t i = 0; i < o["lines"].size(); ++i)
                    f << o["lines"][i].get<std::string>() << (i + 1 < o["lines"].size() || o["nl"].get<bool>() ? "\n" : "");
            }
            o["r"] = "ok";
            try { lex->readPlainText(sc.file(999)); }
            catch (PsiException&) { o["r"] = "error"; }
        } else if (op == "ask") {
            o["none"] = lex->isEmpty();
            o["res"] = J::array();
            if (!lex->isEmpty()) for (auto& k : o["ks"]) {
                J r = J::array();
                for (auto& x : lex->getRecords(k)) r.push_back(safe(x));
                o["res"].push_back(r);
            }
        } else if (op == "savelex") {
            if (!lex->isEmpty()) { lex->saveBinary(sc.file(o["f"])); files[o["f"].get<int>()] = true; stored[o["f"].get<int>()] = 1; }
        } else if (op == "loadlex") {
            if (files[o["f"].get<int>()]) lex->loadBinary(sc.file(o["f"]));
        } else if (op == "build") {
            KeyValueStore::Builder b;
            for (auto& e : o["es"]) b.add(bytes(e[0]), bytes(e[1]));
            kv[o["s"].get<int>()].reset(b.build());
        } else if (op == "get") {
            o["res"] = J::array();
            int s = o["s"];
            if (kv[s]) for (auto& k : o["ks"]) {
                auto v = kv[s]->get(bytes(k));
                J r = J::array();
                if (v) r.push_back(hex(*v));
                o["res"].push_back(r);
            } else kv.erase(s);
        } else if (op == "save") {
            int f = o["f"]; bool all = true;
            for (auto& s : o["ss"]) if (!kv[s.get<int>()]) { all = false; kv.erase(s.get<int>()); }
            if (all) {
                if (o["ss"].size() == 1) kv[o["ss"][0].get<int>()]->save(sc.file(f));
                else {
                    std::FILE* p = std::fopen(sc.file(f).c_str(), "w");
                    std::fputs("head", p);
                    for (auto& s : o["ss"]) { kv[s.get<int>()]->save(p); std::fputs("--", p); }
                    std::fclose(p);
                }
                files[f] = true; stored[f] = o["ss"].size();
            }
        } else if (op == "load") {
            int f = o["f"], s = o["s"];
            if (files[f]) {
                if (stored[f] == 1) { kv[s].reset(new KeyValueStore()); kv[s]->load(sc.file(f)); }
                else {
                    std::FILE* p = std::fopen(sc.file(f).c_str(), "r");
                    std::fseek(p, 4, SEEK_SET);
                    for (int i = 0; i < stored[f]; ++i) {
                        kv[s + i].reset(new KeyValueStore()); kv[s + i]->load(p);
                        std::fseek(p, 2, SEEK_CUR);
                    }
                    std::fclose(p);
                }
            }
        } else if (op == "texts") {
            Texts& t = texts(o["s"]);
            for (auto& v : o["vs"]) { std::string s = bytes(v); t.m.push_back(s); t.g.push_back(s); }
            show(t, o);
        } else if (op == "retexts") {
            Texts& t = texts(o["s"]);
            std::FILE* p = std::fopen(sc.file(998).c_str(), "w");
            std::fputs("x", p); t.m.save(p); t.g.save(p); std::fclose(p);
            std::shared_ptr<Texts> n(new Texts());
            p = std::fopen(sc.file(998).c_str(), "r"); std::fgetc(p); n->m.load(p); n->g.load(p); std::fclose(p);
            sv[o["to"].get<int>()] = n;
            show(*n, o);
        } else if (op == "numbers") {
            Numbers& n = numbers(o["s"]);
            for (auto& v : o["vs"]) { unsigned long x = v.get<long>(); n.a.push_back(x); n.b.push_back(x); n.c.push_back(x); }
            show(n, o);
        } else if (op == "renumbers") {
            Numbers& t = numbers(o["s"]);
            std::FILE* p = std::fopen(sc.file(998).c_str(), "w");
            t.a.save(p); t.b.save(p); t.c.save(p); std::fclose(p);
            std::shared_ptr<Numbers> n(new Numbers());
            p = std::fopen(sc.file(998).c_str(), "r"); n->a.load(p); n->b.load(p); n->c.load(p); std::fclose(p);
            mv[o["to"].get<int>()] = n;
            show(*n, o);
        }
        tr->emit(o);
    }
    Trace* tr;
};
int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    (void)!freopen("/dev/null", "w", stderr);     // the hashing library reports its progress there
    std::ifstream in(argv[1]);
    Trace tr(argv[2]);
    Scratch sc;
    Run run(sc);
    run.tr = &tr;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        alarm(20);
        run.step(J::parse(line));
    }
    return 0;
}
