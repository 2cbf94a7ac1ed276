// Steps the real server parts through a script: the request parser (spec/HttpTrace.tla), the page
// server with its includes (spec/SiteTrace.tla), sessions and stored files (spec/SessionTrace.tla),
// the object cache (spec/CacheTrace.tla) and submitted forms (spec/FormTrace.tla).
// Every file it touches lies under the scratch directory created below its working directory.
#include "vjson.hpp"
#include "request_parser.hpp"
#include "request_handler.hpp"
#include "request.hpp"
#include "reply.hpp"
#include "psi_server.hpp"
#include "psi_request_handler.hpp"
#include "session_manager.hpp"
#include "file_storage.hpp"
#include "guid_generator.hpp"
#include "object_cache.hpp"
#include <boost/filesystem.hpp>
#include <boost/bind.hpp>
#include <boost/thread.hpp>
#include <atomic>
#include <thread>
#include <memory>
#include <set>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <cstring>
#include <cstdlib>
namespace fs = boost::filesystem;
using namespace http::server3;

static std::string S(const J& a) { std::string r; for (auto& x : a) r += char(x.get<int>()); return r; }
static J A(const std::string& s) { J r = J::array(); for (unsigned char c : s) r.push_back(int(c)); return r; }

// ---- object cache
static int loads;
struct LoadFailed { };
static std::set<std::string> broken;
struct Thing {
    std::string path; int number;
    explicit Thing(const fs::path& p) : path(p.string()), number(++loads) { if (broken.count(path)) throw LoadFailed(); }
};

// ---- server
static PsiServer* psi;
static std::string root;
static std::map<std::string, std::string> texts;      // generators of the includes
struct Gen { std::string code; char* operator()() { return const_cast<char*>(texts[code].c_str()); } };
static std::string who;
static char* whoami() { who = psi->session() ? psi->session()->getId() : ""; return const_cast<char*>(who.c_str()); }
struct Act { std::string to; char* operator()(PsiServer*) { return const_cast<char*>(to.c_str()); } };
// the action "pause" lets another request run while it is being handled
static std::atomic<int> pausing(0);
static char* pause_action(PsiServer*) {
    int k = ++pausing;
    for (int i = 0; i < 60 && pausing.load() < k + 1 && pausing.load() < 2; i++) boost::this_thread::sleep(boost::posix_time::milliseconds(1));
    return const_cast<char*>("/who.html");
}

static void wipe(const std::string& d) { fs::remove_all(d); fs::create_directories(d); }
static void put(const std::string& p, const std::string& c) {
    fs::create_directories(fs::path(p).parent_path());
    std::ofstream o(p.c_str(), std::ios::binary); o.write(c.data(), c.size());
}
static std::string slurp(const std::string& p) {
    std::ifstream i(p.c_str(), std::ios::binary); std::string r; char b[4096];
    while (i.read(b, sizeof b).gcount() > 0) r.append(b, i.gcount());
    return r;
}
static J headers(const std::vector<header>& hs) {
    J r = J::array();
    for (auto& h : hs) r.push_back(J{{"n", A(h.name)}, {"v", A(h.value)}});
    return r;
}
static J answer(reply& rep) {
    // what goes over the wire, taken apart again
    std::string w;
    for (auto& b : rep.to_buffers()) w.append(boost::asio::buffer_cast<const char*>(b), boost::asio::buffer_size(b));
    return A(w);
}
static J parts(const std::string& w) {          // a reply as the client sees it
    J o; size_t e = w.find("\r\n\r\n"), p = w.find("\r\n");
    if (e == std::string::npos) { o["line"] = safe(w); o["hs"] = J::array(); o["body"] = J::array(); return o; }
    o["line"] = safe(w.substr(0, p));
    J hs = J::array();
    while (p < e) {
        size_t q = w.find("\r\n", p + 2); std::string l = w.substr(p + 2, q - p - 2); size_t c = l.find(": ");
        std::string n = l.substr(0, c), v = c == std::string::npos ? "" : l.substr(c + 2);
        hs.push_back(J{{"n", safe(n)}, {"v", safe(v)}, {"b", A(v)}});
        p = q;
    }
    o["hs"] = hs; o["body"] = A(w.substr(e + 4));
    return o;
}
static std::string wire(const J& chunks, unsigned short port) {
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, (sockaddr*)&a, sizeof a)) { perror("connect"); exit(77); }
    std::string r; char b[65536];
    for (auto& c : chunks) {
        pollfd p = {fd, POLLIN, 0};
        if (poll(&p, 1, 0) > 0) break;             // already answered
        std::string s = S(c);
        size_t n = 0;
        while (n < s.size()) { ssize_t k = send(fd, s.data() + n, s.size() - n, MSG_NOSIGNAL); if (k <= 0) break; n += k; }
        if (&c != &chunks.back()) poll(&p, 1, 2);
    }
    shutdown(fd, SHUT_WR);
    for (;;) { pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 20000) <= 0) { r += "NO ANSWER"; break; } ssize_t k = recv(fd, b, sizeof b, 0); if (k <= 0) break; r.append(b, k); }
    close(fd);
    return r;
}

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    Trace tr(argv[2]);
    SET_LOGGING_LEVEL("FATAL");
    root = fs::absolute(std::string(argv[2]) + ".scratch").string();
    wipe(root + "/site");
    struct Cleanup { ~Cleanup() { fs::remove_all(root); } } cleanup;
    request req; std::string verdict;
    std::unique_ptr<request_parser> fresh;
    psi = new PsiServer("127.0.0.1", "0", "3", root + "/site");
    request_handler base(root + "/site");
    unsigned short port = psi->server_.acceptor_.local_endpoint().port();
    boost::thread runner(boost::bind(&http::server3::server::run, &psi->server_));
    psi->registerIncludeCode("who", whoami);
    psi->registerActionCode("pause", pause_action);
    std::vector<std::string> ids;                  // session identifiers in order of appearance
    std::vector<std::unique_ptr<FileStorage> > stores;
    std::string line;
    int rooms = 0;
    std::string room;
    std::vector<boost::shared_ptr<Thing> > things;

    auto cookie = [&](const std::string& c) {       // %1 stands for the identifier of the first session, ...
        std::string r;
        for (size_t i = 0; i < c.size(); i++)
            if (c[i] == '%' && i + 1 < c.size() && isdigit(c[i + 1])) { size_t k = c[++i] - '0'; r += k >= 1 && k <= ids.size() ? ids[k - 1] : "nosuchsession"; }
            else r += c[i];
        return r;
    };
    auto sessions = [&]() {
        J r = J::array();
        auto& m = SessionManager::Instance()->sessions_;
        for (auto& kv : m) if (std::find(ids.begin(), ids.end(), kv.first) == ids.end()) ids.push_back(kv.first);
        for (auto& id : ids) {
            auto it = m.find(id);
            J d = J::array();
            if (it != m.end()) for (auto& kv : it->second.data) d.push_back(J{{"k", A(kv.first)}, {"v", A(kv.second)}});
            r.push_back(J{{"id", A(id)}, {"own", it != m.end() && it->second.getId() == id}, {"data", d}});
        }
        return r;
    };
    auto make = [&](const J& o) {
        request q;
        q.method = o.value("method", std::string("GET"));
        q.uri = S(o["uri"]); q.http_version_major = 1; q.http_version_minor = 1;
        if (o.contains("cookie") && o["cookie"].is_string()) { header h; h.name = "Cookie"; h.value = cookie(o["cookie"]); q.headers.push_back(h); }
        if (o.contains("ctype")) { header h; h.name = "Content-Type"; h.value = S(o["ctype"]); q.headers.push_back(h); }
        if (o.contains("body")) q.post_data = S(o["body"]);
        return q;
    };
    auto cookieOf = [&](const request& q) { for (auto& h : q.headers) if (h.name == "Cookie") return h.value; return std::string(); };

    while (std::getline(in, line)) {
        J op = J::parse(line);
        std::string o = op["op"];
        // ---- request parser
        if (o == "new") { fresh.reset(new request_parser()); req = request(); verdict = "more"; }
        else if (o == "again") { fresh->reset(); req = request(); verdict = "more"; }
        else if (o == "feed") {
            std::string b = S(op["b"]);
            // the piece lies in its own block of memory: reading beyond it is noticed by a sanitizer
            std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size());
            char* end = p.get();
            if (verdict == "more") {                 // nothing is fed after the verdict
                boost::tribool r;
                boost::tie(r, end) = fresh->parse(req, p.get(), p.get() + b.size());
                verdict = r ? "ok" : !r ? "bad" : "more";
            }
            op["res"] = verdict;
            op["used"] = int(end - p.get());
            op["req"] = J{{"m", A(req.method)}, {"u", A(req.uri)}, {"maj", req.http_version_major}, {"min", req.http_version_minor},
                          {"hs", headers(req.headers)}, {"body", A(req.post_data)}};
        }
        // ---- pages
        else if (o == "site") {
            wipe(root + "/site");
            put(root + "/secret.html", "secret"); put(root + "/sitemap/x.html", "secret too");
            for (auto& f : op["files"]) put(root + "/site/" + S(f["p"]), S(f["c"]));
            for (auto& d : op["dirs"]) fs::create_directories(root + "/site/" + S(d));
            for (auto& kv : op["gens"]) { std::string c = S(kv["code"]); texts[c] = S(kv["text"]); psi->includes_.erase(c); Gen g; g.code = c; psi->registerIncludeCode(c.c_str(), g); }
            for (auto& kv : op["acts"]) { std::string c = S(kv["code"]); psi->actions_.erase(c); Act a; a.to = S(kv["to"]); psi->registerActionCode(c.c_str(), a); }
        }
        else if (o == "get") {
            request q = make(op); reply rep;
            if (op["h"] == "base") base.handle_request(q, rep);
            else psi->psi_request_handler_.handle_request(q, rep);
            std::string w; J a = answer(rep); w = S(a);
            op["out"] = parts(w);
        }
        else if (o == "wire") {
            std::string w = wire(op["chunks"], port);
            op["silent"] = w.empty();
            op["out"] = parts(w);
        }
        // ---- sessions and forms
        else if (o == "sessions") {
            ids.clear(); SessionManager::Instance()->sessions_.clear();
            wipe(root + "/site"); put(root + "/site/who.html", "[<!--#psis who -->]");
        }
        else if (o == "req") {
            size_t had = ids.size();
            request q = make(op); reply rep;
            op["sent"] = A(cookieOf(q));
            op["post"] = q.method == "POST";
            psi->psi_request_handler_.handle_request(q, rep);
            op["out"] = parts(S(answer(rep)));
            op["st"] = sessions();
        }
        else if (o == "wreq") {
            std::string w = wire(op["chunks"], port);
            op["silent"] = w.empty();
            op["out"] = parts(w);
            op["st"] = sessions();
        }
        else if (o == "two") {
            request q[2]; reply rep[2];
            for (int i = 0; i < 2; i++) q[i] = make(op["r"][i]);
            J sent = J::array({A(cookieOf(q[0])), A(cookieOf(q[1]))});
            pausing = 0;
            boost::thread t1([&]() { psi->psi_request_handler_.handle_request(q[0], rep[0]); });
            boost::thread t2([&]() { psi->psi_request_handler_.handle_request(q[1], rep[1]); });
            t1.join(); t2.join();
            op["sents"] = sent;
            op["posts"] = J::array({q[0].method == "POST", q[1].method == "POST"});
            op["outs"] = J::array({parts(S(answer(rep[0]))), parts(S(answer(rep[1])))});
            op["st"] = sessions();
        }
        else if (o == "data") {
            std::string id = ids.at(op["s"].get<int>() - 1);
            Session* s = SessionManager::Instance()->getSession(id);
            std::string k = S(op["k"]), h = op["how"];
            J r = J::array();
            if (h == "set") s->setData(k, S(op["v"]));
            else if (h == "clear") s->clearData(k);
            else if (h == "default") r = A(s->getDataOrSetIfNotExists(k, S(op["v"])));
            else if (h == "get") r = A(s->getData(k));
            op["r"] = r;
            op["is"] = s->isData(k);
            op["known"] = SessionManager::Instance()->isSession(id);
            op["st"] = sessions();
        }
        else if (o == "guids") {
            GUIDGenerator g(op["len"], op["date"]);
            std::set<std::string> all; size_t mn = 9999;
            for (int i = 0; i < op["n"].get<int>(); i++) { std::string x = g.getGUID(); all.insert(x); mn = std::min(mn, x.size()); }
            op["distinct"] = all.size(); op["shortest"] = mn;
        }
        // ---- stored files
        else if (o == "room") { stores.clear(); room = root + "/room" + std::to_string(++rooms); wipe(room); }
        else if (o == "storage") stores.emplace_back(new FileStorage(room));
        else if (o == "store") {
            FileStorage& s = *stores.at(op["i"].get<int>() - 1);
            std::string c = S(op["c"]), e = S(op["ext"]), h = op["how"];
            op["path"] = A(h == "auto" ? s.storeFile(c) : h == "sum" ? s.storeFileByMD5(c, e) : s.storeFile(c, e));
            J all = J::array();
            for (fs::recursive_directory_iterator i(room), end; i != end; ++i)
                if (fs::is_regular_file(i->path())) all.push_back(J{{"p", A(i->path().string().substr(room.size()))}, {"c", A(slurp(i->path().string()))}});
            op["all"] = all;
        }
        // ---- object cache
        else if (o == "cache") { loads = 0; broken.clear(); things.clear(); ObjectCache::getInstance().clear(); }
        else if (o == "break") { if (op["b"]) broken.insert(op["p"].get<std::string>()); else broken.erase(op["p"].get<std::string>()); }
        else if (o == "load") {
            try {
                boost::shared_ptr<Thing> t = ObjectCache::getInstance().getObject<Thing>(fs::path(op["p"].get<std::string>()));
                if (op["keep"]) things.push_back(t);
                op["got"] = J{{"path", t->path}, {"number", t->number}};
            } catch (LoadFailed&) { op["got"] = J{{"path", ""}, {"number", 0}}; }
            op["loads"] = loads;
            J kept = J::array(); for (auto& t : things) kept.push_back(J{{"path", t->path}, {"number", t->number}});
            op["kept"] = kept;
        }
        else if (o == "clear") ObjectCache::getInstance().clear();
        else { std::cout << "unknown " << o; return 77; }
        tr.emit(op);
    }
    psi->server_.stop();
    runner.join();
    return 0;
}
