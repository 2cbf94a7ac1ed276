// Steps a real Lattice through a script of operations and records, after every operation,
// the operation, its outcome and the projected state (spec/LatticeTrace.tla reads the trace).
#include "lattice_common.hpp"
#include <memory>

static const char* excName(const std::exception& e) {
    if (dynamic_cast<const LoopEdgeException*>(&e)) return "loop";
    if (dynamic_cast<const ReversedEdgeException*>(&e)) return "reversed";
    if (dynamic_cast<const EdgeSelfReferenceException*>(&e)) return "self";
    if (dynamic_cast<const NoEdgeException*>(&e)) return "noedge";
    if (dynamic_cast<const NoVertexException*>(&e)) return "novertex";
    if (dynamic_cast<const WrongVertexException*>(&e)) return "wrongvertex";
    return "other";
}

struct Run {
    std::unique_ptr<AnnotationItemManager> aim;
    std::unique_ptr<Lattice> lat;
    std::unique_ptr<LatticeView> view;
    int nLoose = 0;
    Trace& tr;
    explicit Run(Trace& t) : tr(t) { }

    std::list<std::string> strs(const J& a) { std::list<std::string> r; for (auto& x : a) r.push_back(x); return r; }
    LayerTagCollection tags(const J& a) { return lat->getLayerTagManager().createTagCollection(strs(a)); }
    LayerTagMask mask(const J& m) {
        LayerTagManager& ltm = lat->getLayerTagManager();
        if (m["k"] == "any") return ltm.anyTag();
        if (m["k"] == "none") return ltm.getAlternativeMask(std::vector<LayerTagCollection>());
        std::list<std::list<std::string> > alts;
        for (auto& a : m["a"]) alts.push_back(strs(a));
        return ltm.getAlternativeMaskFromTagNames(alts);
    }
    Lattice::EdgeDescriptor edge(int n) { return view->edges.at(n % view->edges.size()); }
    J refs(Lattice::InOutEdgesIterator it) {
        J r = J::array();
        while (it.hasNext()) r.push_back(view->ref(it.next()));
        return r;
    }
    void shape(J& op) {
        // make references valid: modulo the number of edges at this moment
        size_t n = view->edges.size();
        if (op.count("e")) { if (!n) { op["op"] = "nop"; } else op["e"] = (int)(op["e"].get<int>() % n); }
        if (op.count("seq")) {
            J s = J::array();
            if (n) for (auto& x : op["seq"]) s.push_back((int)(x.get<int>() % n));
            // a chain: a contiguous sequence of edges starting at vertex s, picked by the given numbers
            op["seq"] = s;
        }
        if (op.count("chain") && n) {
            // seq := a path of edges from op.s to op.t choosing the (k mod out-degree)-th edge
            J s = J::array();
            int v = op["s"], t = op["t"];
            bool ok = true;
            for (auto& k : op["chain"]) {
                if (v == t) break;
                std::vector<int> cand;
                for (size_t i = 0; i < n; ++i)
                    if (lat->getEdgeSource(view->edges[i]) == v) cand.push_back(i);
                if (cand.empty()) { ok = false; break; }
                int c = cand[k.get<int>() % cand.size()];
                s.push_back(c);
                v = lat->getEdgeTarget(view->edges[c]);
            }
            if (op.value("snap", false) && s.size()) { op["t"] = v; }
            op["seq"] = s;
            (void)ok;
        }
    }
    void step(J op) {
        std::string o = op["op"];
        if (o == "reset") {
            view.reset(); lat.reset(); aim.reset();
            aim.reset(new AnnotationItemManager());
            lat.reset(new Lattice(*aim, op["text"].get<std::string>()));
            nLoose = 0;
            if (op["sym"]) lat->addSymbols(lat->getFirstVertex(), lat->getLastVertex());
            view.reset(new LatticeView(*lat, nLoose));
            op["st"] = view->state();
            op["r"] = "ok";
            tr.emit(op);
            return;
        }
        view->nLoose = nLoose;
        view->refresh();
        shape(op);
        o = op["op"];
        J res = "ok";
        Lattice::EdgeDescriptor ret; bool haveRet = false;
        if (op.count("seq")) { J s1 = J::array(); for (auto& x : op["seq"]) s1.push_back(x.get<int>() + 1); op["q"] = s1; }
        if (o == "origin") {        // derivations that go round in circles have no origin to ask for
            auto p = lat->getParent(edge(op["e"]));
            for (size_t k = 0; p; ++k) {
                if (k > view->edges.size()) { o = "nop"; op["op"] = "nop"; break; }
                p = lat->getParent(*p);
            }
        }
        if (op.count("e")) op["e1"] = op["e"].get<int>() + 1;
        if (o == "cins" || o == "cers" || o == "crep") {
            J cs = J::array();
            for (auto& c : utf8chars(op.value("x", std::string()))) cs.push_back(c);
            op["cx"] = cs;
        }
        try {
            if (o == "append") {
                if (op["sym"]) lat->appendStringWithSymbols(op["text"]); else lat->appendString(op["text"]);
                J cs = J::array();
                for (auto& c : utf8chars(op["text"])) cs.push_back(J::array({c, (int)c.size()}));
                op["ch"] = cs;
            } else if (o == "symbols") {
                lat->addSymbols(op["s"], op["t"]);
            } else if (o == "loose") {
                op["v"] = lat->addLooseVertex(); ++nLoose;
            } else if (o == "add" || o == "part") {
                Lattice::EdgeSequence::Builder b(*lat);
                for (auto& x : op["seq"]) b.addEdge(edge(x));
                if (o == "add") {
                    AnnotationItem it(op["c"].get<std::string>(), StringFrag(op["x"].get<std::string>()));
                    for (auto& kv : op["a"]) aim->setValue(it, kv[0].get<std::string>(), kv[1].get<std::string>());
                    ret = lat->addEdge(op["s"], op["t"], it, tags(op["g"]), b.build(),
                        op["w"].get<double>(), op["rule"], op["h"]);
                } else {
                    ret = lat->addPartitionToEdge(edge(op["e"]), tags(op["g"]), b.build(),
                        op["w"].get<double>(), op["rule"], op["h"]);
                }
                haveRet = true;
            } else if (o == "discard") {
                lat->discard(edge(op["e"]));
            } else if (o == "cins") {
                lat->correctionInsert(op["s"], op["x"]);
            } else if (o == "cers") {
                lat->correctionErase(op["s"], op["t"]);
            } else if (o == "crep") {
                lat->correctionReplace(op["s"], op["t"], op["x"]);
            } else if (o == "out") {
                op["res"] = refs(lat->outEdges(op["v"], mask(op["m"])));
            } else if (o == "in") {
                op["res"] = refs(lat->inEdges(op["v"], mask(op["m"])));
            } else if (o == "firstout") {
                op["res"] = 0; op["res"] = view->ref(lat->firstOutEdge(op["v"], mask(op["m"])));
            } else if (o == "firstin") {
                op["res"] = 0; op["res"] = view->ref(lat->firstInEdge(op["v"], mask(op["m"])));
            } else if (o == "bysource") {
                J r = J::array(); Lattice::EdgesSortedBySourceIterator it = lat->edgesSortedBySource(mask(op["m"]));
                while (it.hasNext()) r.push_back(view->ref(it.next()));
                op["res"] = r;
            } else if (o == "bytarget") {
                J r = J::array(); Lattice::EdgesSortedByTargetIterator it = lat->edgesSortedByTarget(mask(op["m"]));
                while (it.hasNext()) r.push_back(view->ref(it.next()));
                op["res"] = r;
            } else if (o == "vertices") {
                J r = J::array(); Lattice::VertexIterator it(*lat, op["skip"].get<bool>());
                while (it.hasNext()) r.push_back(it.next());
                op["res"] = r;
                op["first"] = lat->getFirstVertex();
                op["last"] = lat->getLastVertex();
            } else if (o == "path" || o == "pathskip") {
                int v = op["v"];
                Lattice::EdgeSequence sq = o == "path" ? lat->getPath(v, mask(op["m"])) : lat->getPathSkippingBlanks(v, mask(op["m"]));
                J r = J::array();
                Lattice::EdgeSequence::Iterator it(*lat, sq);
                while (it.hasNext()) r.push_back(view->ref(it.next()));
                op["res"] = r; op["end"] = v;
                op["size"] = sq.size(*lat);
                J nth = J::array();
                for (size_t i = 0; i < r.size(); ++i) nth.push_back(view->ref(sq.nthEdge(*lat, i)));
                op["nth"] = nth;
                op["fst"] = r.empty() ? 0 : view->ref(sq.firstEdge(*lat));
                op["lst"] = r.empty() ? 0 : view->ref(sq.lastEdge(*lat));
                op["stx"] = safe(lat->getSequenceText(sq));
            } else if (o == "parent") {
                auto p = lat->getParent(edge(op["e"]), mask(op["m"]));
                op["res"] = p ? view->ref(*p) : 0;
            } else if (o == "children") {
                J r = J::array();
                for (auto c : lat->getChildren(edge(op["e"]), mask(op["m"]))) r.push_back(view->ref(c));
                op["res"] = r;
            } else if (o == "origin") {
                auto p = lat->getEdgeOrigin(op["tag"], edge(op["e"]));
                op["res"] = p ? view->ref(*p) : 0;
                auto le = lat->getEdgeLemma(edge(op["e"]));
                op["lemma"] = le ? J::array({safe(*le)}) : J::array();
            } else if (o == "count") {
                op["res"] = lat->countEdges(op["s"], op["t"]);
            } else {
#ifdef MORE_OPS
                MORE_OPS(*this, o, op);
#endif
            }
        } catch (std::exception& e) {
            res = excName(e);
        }
        op["r"] = res;
        // corrections create loose vertices of their own: recover how many exist now
        if (o == "cins" || o == "crep") {
            int total = lat->countAllVertices() - 1 - (int)utf8chars(lat->getAllText()).size();
            nLoose = total; view->nLoose = total;
        }
        view->nLoose = nLoose;
        J st = view->state();
        if (haveRet && res == "ok") op["ret"] = view->ref(ret); else op["ret"] = 0;
        op["st"] = st;
        op.erase("seq"); op.erase("chain"); op.erase("snap"); op.erase("e");
        tr.emit(op);
    }
};

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    Trace tr(argv[2]);
    Run run(tr);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        alarm(20);
        run.step(J::parse(line));
    }
    return 0;
}
