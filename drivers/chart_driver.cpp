// The chart parser on small lattices (spec/ParseTrace.tla reads the trace): a plain context-free combinator, and the
// whole Gobio annotator with a grammar file.
#include "lattice_common.hpp"
#include <stdlib.h>
#include <unistd.h>
#include "annotation_item_manager.hpp"
#include "agenda.hpp"
#include "agenda_parser.tpl"
#include "av_ai_converter.hpp"
#include "chart.tpl"
#include "limit_checker.hpp"
#include "registrar.tpl"
#include "simple_cfg_combinator.tpl"
#include "gobio.hpp"
#include "logging.hpp"

struct Scratch {
    std::string d;
    Scratch() { char b[] = "/tmp/chart_driver.XXXXXX"; if (!mkdtemp(b)) exit(77); d = b; }
    ~Scratch() { std::string c = "rm -rf '" + d + "'"; if (d.size() > 10) (void)!system(c.c_str()); }
    std::string put(const std::string& s) { std::string f = d + "/rules.g"; std::ofstream(f.c_str()) << s; return f; }
};

typedef Lattice::EdgeDescriptor Edge;
typedef simple_cfg_rule<std::string> Rule;
typedef simple_cfg_combinator<std::string, Rule> Combinator;
typedef chart<std::string, Lattice::Score, std::string, Rule, simple_marked_edges_index> Chart;
typedef fifo_agenda<Edge> Fifo;
typedef priority_agenda<Chart> Priority;
template <class A> struct P {
    typedef agenda_parser<std::string, Lattice::Score, std::string, Rule, Combinator, A, simple_marked_edges_index> type;
};

static void fill(Lattice& lat, J& o) {
    lat.appendStringWithSymbols(o["text"].get<std::string>());
    for (auto& e : o["leaves"]) {
        AnnotationItem it(e["c"].get<std::string>(), StringFrag(e["x"].get<std::string>()));
        for (auto& av : e["a"])
            lat.getAnnotationItemManager().setValue(it, av[0].get<std::string>(), av[1].get<std::string>());
        std::list<std::string> g;
        for (auto& x : e["g"]) g.push_back(x);
        lat.addEdge(e["s"].get<int>(), e["t"].get<int>(), it, lat.getLayerTagManager().createTagCollection(g),
                    Lattice::EdgeSequence(), e["w"].get<double>());
    }
}

static void step(J& o, Scratch& sc) {
    AnnotationItemManager m;
    Lattice lat(m, "");
    o["r"] = "ok";
    try {
        fill(lat, o);
        int limit = o["limit"];
        if (o["op"] == "cfg") {
            registrar<std::string> reg;
            AV_AI_Converter conv(m, reg, reg);
            LimitChecker lc;
            if (limit >= 0) lc.setAbsoluteLimit(limit);
            Combinator comb;
            for (auto& r : o["rules"]) {
                Rule rule(r["l"].get<std::string>(), r["w"].get<double>());
                if (r["r"].size() == 1) comb.add_unary_rule(r["r"][0].get<std::string>(), rule);
                else comb.add_binary_rule(r["r"][0].get<std::string>(), r["r"][1].get<std::string>(), rule);
            }
            Chart ch(lat, conv, "form", lc);
            if (o["agenda"] == "fifo") { Fifo a; P<Fifo>::type p(ch, comb, a); p.run(); }
            else { Priority a(ch); P<Priority>::type p(ch, comb, a); p.run(); }
        } else {
            std::string f = sc.put(o["file"].get<std::string>());
            Gobio g("xx", f, "parse-terminal", limit);
            g.parse(lat);
        }
    } catch (std::exception& e) { o["r"] = "error"; o["msg"] = safe(e.what()); }
    LatticeView v(lat, 0);
    J es = J::array();
    v.refresh();
    for (auto e : v.edges) {
        J x = v.edge(e);
        x.erase("b"); x.erase("e"); x.erase("n"); x.erase("y"); x.erase("d");
        es.push_back(x);
    }
    o["es"] = es;
}

static void lim(J& o) {
    LimitChecker lc;
    if (o["abs"].get<int>() >= 0) lc.setAbsoluteLimit(o["abs"]);
    size_t k = 0;
    J r = J::array();
    for (auto& q : o["q"]) {
        for (; k < q["after"].get<size_t>(); ++k) {
            int n = o["specs"][k]["n"], l = o["specs"][k]["l"];
            if (l < 0) lc.addUnlimitedSpec(n); else lc.addLimitSpec(n, l);
        }
        r.push_back(lc.isAllowed(q["n"], q["v"]));
    }
    o["r"] = r;
}

int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    std::ifstream in(argv[1]);
    Trace trace(argv[2]);
    Scratch sc;
    for (std::string line; std::getline(in, line);) {
        J e = J::parse(line);
        alarm(60);
        if (e["op"] == "lim") lim(e); else step(e, sc);
        trace.emit(e);
    }
    return 0;
}
