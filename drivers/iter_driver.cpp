// Documents of lattice_driver.cpp written out by the iterating writer: as events, and through the simple
// and the JSON writer created from their command-line options (spec/IterTrace.tla reads the trace).
#include "lattice_common.hpp"
#include "simple_lattice_writer.hpp"
#include "json_lattice_writer.hpp"
#include <boost/program_options.hpp>
struct Run;
static void write(Run& run, const std::string& o, J& op);
#define MORE_OPS write
#include "lattice_driver.cpp"

namespace po = boost::program_options;

struct Recorder : LatticeWriterOutputIterator {
    Lattice& l; J ev = J::array();
    explicit Recorder(Lattice& lat) : l(lat) { }
    void say(const char* k, const std::string& v) { J e; e["k"] = k; e["v"] = v; ev.push_back(e); }
    virtual void doPutElement(const AnnotationItem& it) {
        J v; v["c"] = safe(it.getCategory()); v["x"] = safe(it.getText());
        v["a"] = J::array();
        for (auto& kv : l.getAnnotationItemManager().getAVMap(it))
            v["a"].push_back(J::array({safe(kv.first), safe(kv.second)}));
        J e; e["k"] = "put"; e["v"] = v; ev.push_back(e);
    }
    virtual void doOpenAlternative() { say("alt", ""); }
    virtual void doCloseAlternative() { say("endalt", ""); }
    virtual void doOpenGroup(const std::string& g) { say("open", g); }
    virtual void doCloseGroup(const std::string& g) { say("close", g); }
    virtual void doFlush() { say("flush", ""); }
};

static J tree(const J& j) {
    J r;
    if (j.is_string()) { r["s"] = j; return r; }
    if (j.is_array()) { r["l"] = J::array(); for (auto& x : j) r["l"].push_back(tree(x)); return r; }
    if (j.is_object()) {
        J o;
        for (auto it = j.begin(); it != j.end(); ++it) {
            if (it.key() == "values" && it.value().is_object()) {
                std::vector<std::pair<std::string, J> > vs;
                o["values"] = J::array();
                for (auto v = it.value().begin(); v != it.value().end(); ++v)
                    vs.push_back(std::make_pair(v.key(), v.value().is_string() ? J(v.value()) : J("?")));
                std::sort(vs.begin(), vs.end());
                for (auto& v : vs) o["values"].push_back(J::array({v.first, v.second}));
            } else o[it.key()] = it.value().is_string() ? it.value() : J("?");
        }
        r["o"] = o; return r;
    }
    r["other"] = j.dump(); return r;
}

template <class F> static std::string written(Lattice& lat, std::vector<std::string> args) {
    F f;
    po::options_description d = f.optionsHandled();
    po::variables_map vm;
    po::store(po::command_line_parser(args).options(d).run(), vm);
    po::notify(vm);
    std::unique_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(vm));
    std::ostringstream s;
    w->writeLattice(lat, s);
    return s.str();
}

static void write(Run& run, const std::string& o, J& op) {
    if (o != "write") return;
    Lattice& lat = *run.lat;
    J order = J::array();
    Lattice::VertexIterator vi(lat);
    while (vi.hasNext()) order.push_back(vi.next());
    op["order"] = order;
    op["fst"] = lat.getFirstVertex();
    std::vector<std::string> groups, fb = op["fb"];
    for (auto& g : op["spec"]) groups.push_back(g[0]);
    op["ev"] = J::array(); op["out"] = ""; op["tree"] = J::array(); op["valid"] = false;
    Recorder rec(lat);
    LatticeIterWriter w(lat, rec, op["linear"], op["noalts"], op["blank"], op["tags"], groups, fb);
    w.run();
    op["ev"] = rec.ev;
    op["out"] = safe(written<SimpleLatticeWriter::Factory>(lat, op["targs"]));
    if (groups.size() <= 1) {
        std::string js = written<JSONLatticeWriter::Factory>(lat, op["jargs"]);
        J j = J::parse(js, nullptr, false);
        if (j.is_discarded() || !j.is_array()) op["tree"] = safe(js);
        else { op["valid"] = true; op["tree"] = tree(j)["l"]; }
    }
}
