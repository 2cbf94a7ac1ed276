// Documents of lattice_driver.cpp written in the native format, read back and written again.  Besides both
// documents the trace has the rows of the files, split and unescaped here (spec/PsiTrace.tla reads the trace).
#include "lattice_common.hpp"
#include "psi_lattice_writer.hpp"
#include "psi_lattice_reader.hpp"
#include <boost/program_options.hpp>
#include <boost/algorithm/string.hpp>
#include <set>
struct Run;
static void psi(Run& run, const std::string& o, J& op);
#define MORE_OPS psi
#include "lattice_driver.cpp"

namespace po = boost::program_options;
struct BadRow : std::runtime_error { BadRow(const std::string& s) : std::runtime_error(s) { } };

static J charsOf(const std::string& s) {
    J r = J::array();
    for (auto& c : utf8chars(s)) r.push_back(J::array({safe(c), (int)c.size()}));
    return r;
}
static std::string plain(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '_') r += ' ';
        else if (s[i] == '\\' && i + 1 < s.size()) {
            char c = s[++i];
            r += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c;
        } else r += s[i];
    }
    return r;
}
// parts of s between separators that are not inside (...), <...> or $...$
static std::vector<std::string> parts(const std::string& s, char sep) {
    std::vector<std::string> r(1);
    int depth = 0; bool dollar = false;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == '$') dollar = !dollar;
        else if (!dollar && (c == '(' || c == '<')) ++depth;
        else if (!dollar && (c == ')' || c == '>')) --depth;
        if (c == sep && !depth && !dollar) r.push_back(""); else r.back() += c;
    }
    return r;
}
static J words(const std::string& s) { J r = J::array(); std::vector<std::string> xs; boost::algorithm::split(xs, s, [](char ch) { return ch == ','; }); for (auto& x : xs) r.push_back(safe(plain(x))); return r; }
static int number(const std::string& s) {
    size_t n = 0; int r = 0;
    try { r = std::stoi(s, &n); } catch (std::exception&) { throw BadRow(s); }
    if (n != s.size()) throw BadRow(s);
    return r;
}
static J row(const std::string& line) {
    std::vector<std::string> f;
    std::istringstream in(line);
    std::string w;
    while (in >> w) f.push_back(w);
    if (f.size() != 6 && f.size() != 7) throw BadRow(line);
    J r;
    r["n"] = number(f[0]);
    r["s"] = f[1][0] == '@' ? -1 - number(f[1].substr(1)) : number(f[1]);
    if (f[2][0] == '*') r["t"] = f[2][1] == '@' ? -1 - number(f[2].substr(2)) : number(f[2].substr(1));
    else r["t"] = r["s"].get<int>() + number(f[2]);
    r["text"] = charsOf(plain(f[3]));
    r["g"] = words(f[4]);
    r["x"] = f.size() == 7 ? safe(plain(f[5])) : "";
    std::string a = f.back();
    r["a"] = J::array(); r["w"] = 0; r["dflt"] = true; r["p"] = J::array();
    if (f[4] == "symbol" && a == "'" + f[3]) { r["c"] = safe(plain(a)); return r; }
    size_t i = a.find_first_of(",[<");
    r["c"] = safe(plain(a.substr(0, i)));
    a = i == std::string::npos ? "" : a.substr(i);
    if (a[0] == '<') {
        i = a.find('>'); if (i == std::string::npos) throw BadRow(line);
        r["w"] = LatticeView::score(std::stod(a.substr(1, i - 1))); a = a.substr(i + 1);
    }
    if (a[0] == ',') {
        i = a.find('[');
        std::string av = a.substr(1, i == std::string::npos ? i : i - 1);
        a = i == std::string::npos ? "" : a.substr(i);
        std::vector<std::string> xs; boost::algorithm::split(xs, av, [](char ch) { return ch == ','; });
        for (auto& x : xs) {
            i = x.find('='); if (i == std::string::npos) throw BadRow(line);
            r["a"].push_back(J::array({safe(plain(x.substr(0, i))), safe(plain(x.substr(i + 1)))}));
        }
        std::vector<std::pair<std::string, std::string> > kv;
        for (auto& x : r["a"]) kv.push_back(std::make_pair(x[0].get<std::string>(), x[1].get<std::string>()));
        std::sort(kv.begin(), kv.end());
        r["a"] = J::array();
        for (auto& x : kv) r["a"].push_back(J::array({x.first, x.second}));
    }
    if (a.empty()) return r;
    if (a[0] != '[' || a[a.size() - 1] != ']') throw BadRow(line);
    r["dflt"] = false;
    for (auto& p : parts(a.substr(1, a.size() - 2), ',')) {
        J o; o["l"] = J::array(); o["q"] = J::array(); o["g"] = J::array(); o["w"] = J::array();
        std::string s = p, tail;
        bool dollar = false;
        for (i = 0; i < s.size(); ++i) {
            if (s[i] == '$') dollar = !dollar;
            if (!dollar && (s[i] == '(' || s[i] == '<')) break;
        }
        tail = s.substr(i); s = s.substr(0, i);
        if (!s.empty()) for (auto& k : parts(s, '-')) {
            size_t d = k.find('$');
            std::string num = k.substr(0, d);
            o["l"].push_back(num.empty() ? 0 : number(num));
            o["q"].push_back(d == std::string::npos ? "" : safe(plain(k.substr(d + 1, k.size() - d - 2))));
        }
        if (tail[0] == '(') { i = tail.find(')'); o["g"] = words(tail.substr(1, i - 1)); tail = tail.substr(i + 1); }
        if (tail[0] == '<') {
            i = tail.find('>');
            o["w"] = J::array({LatticeView::score(std::stod(tail.substr(1, i - 1)))}); tail = tail.substr(i + 1);
        }
        if (!tail.empty()) throw BadRow(line);
        r["p"].push_back(o);
    }
    return r;
}
static J rowsOf(const std::string& file, bool header) {
    J r = J::array();
    std::istringstream in(file);
    std::string line;
    if (header) { std::getline(in, line); if (line.substr(0, 2) != "##") throw BadRow(line); }
    while (std::getline(in, line)) r.push_back(row(line));
    return r;
}

struct Doc {
    AnnotationItemManager aim; Lattice lat;
    Doc() : lat(aim) { }
};
static int looseOf(Lattice& l) { return l.countAllVertices() - 1 - (int)utf8chars(l.getAllText()).size(); }

static J shown(Lattice& lat, int nl) {
    LatticeView v(lat, nl);
    J r = J::array();
    for (auto e : v.edges) {
        J o = v.edge(e);
        for (const char* k : {"b", "e", "n", "y", "d"}) o.erase(k);
        size_t j = 0;
        for (auto& p : lat.getEdgePartitions(e)) {
            J q = J::array();
            Lattice::Partition::Iterator pi(lat, p);
            while (pi.hasNext()) {
                zvalue z = pi.nextUsage().getRole();
                q.push_back(NULLP(z) ? "" : safe(lat.getAnnotationItemManager().zvalueToString(z)));
            }
            o["p"][j]["q"] = q; o["p"][j].erase("r"); o["p"][j].erase("h");
            ++j;
        }
        r.push_back(o);
    }
    return r;
}
// derivations going round in circles cannot be written at all
static bool circular(LatticeView& v) {
    size_t n = v.edges.size();
    std::vector<std::vector<int> > to(n);
    for (size_t i = 0; i < n; ++i)
        for (auto& p : v.l.getEdgePartitions(v.edges[i])) {
            Lattice::Partition::Iterator pi(v.l, p);
            while (pi.hasNext()) to[i].push_back(v.ref(pi.next()) - 1);
        }
    std::vector<int> state(n, 0);
    std::function<bool(int)> visit = [&](int i) {
        if (i < 0) return true;
        if (state[i] == 1) return true;
        if (state[i] == 2) return false;
        state[i] = 1;
        for (int k : to[i]) if (visit(k)) return true;
        state[i] = 2;
        return false;
    };
    for (size_t i = 0; i < n; ++i) if (visit(i)) return true;
    return false;
}
static std::string written(Lattice& lat, bool header) {
    PsiLatticeWriter::Factory f;
    po::options_description d = f.optionsHandled();
    po::variables_map vm;
    std::vector<std::string> args;
    if (!header) args.push_back("--no-header");
    po::store(po::command_line_parser(args).options(d).run(), vm);
    po::notify(vm);
    std::unique_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(vm));
    std::ostringstream s;
    w->writeLattice(lat, s);
    return s.str();
}
static void readInto(Lattice& lat, const std::string& s) {
    PsiLatticeReader::Factory f;
    po::variables_map vm;
    std::unique_ptr<LatticeReader<std::istream> > r(f.createLatticeReader(vm));
    std::istringstream in(s);
    r->readIntoLattice(in, lat);
}

static void psi(Run& run, const std::string& o, J& op) {
    Lattice& lat = *run.lat;
    if (o == "radd") {      // an annotation with derivations whose parts have roles
        Lattice::EdgeSequence::Builder b(lat);
        size_t i = 0;
        J roles = op["roles"];
        for (auto& x : op["seq"]) {
            Lattice::EdgeDescriptor e = run.edge(x);
            std::string role = roles.empty() ? "" : roles[i++ % roles.size()].get<std::string>();
            if (role.empty() || lat.getEdgeLayerTags(e) == lat.getSymbolTag()) b.addEdge(e);
            else b.addEdge(e, lat.getAnnotationItemManager().stringToZvalue(role));
        }
        AnnotationItem it(op["c"].get<std::string>(), StringFrag(op["x"].get<std::string>()));
        for (auto& kv : op["a"]) run.aim->setValue(it, kv[0].get<std::string>(), kv[1].get<std::string>());
        lat.addEdge(op["s"], op["t"], it, run.tags(op["g"]), b.build(), op["w"].get<double>() / 1000);
        return;
    }
    if (o != "psi") return;
    if (circular(*run.view)) { op["op"] = "nop"; return; }
    bool header = op["header"];
    op["doc"] = shown(lat, run.nLoose);
    op["ch"] = charsOf(lat.getAllText());
    op["rows"] = J::array(); op["doc2"] = J::array(); op["ch2"] = J::array(); op["rows2"] = J::array(); op["same"] = false;
    std::string s1 = written(lat, header);
    op["file"] = safe(s1);
    op["rows"] = rowsOf(s1, header);
    Doc d2, d3;
    readInto(d2.lat, s1);
    op["ch2"] = charsOf(d2.lat.getAllText());
    op["doc2"] = shown(d2.lat, looseOf(d2.lat));
    std::string s2 = written(d2.lat, header);
    op["rows2"] = rowsOf(s2, header);
    readInto(d3.lat, s2);
    op["same"] = written(d3.lat, header) == s2;
    op["same1"] = s1 == s2;
}
