// Projection of a Lattice to the abstract state of spec/Lattice.tla, through the public API only.
#pragma once
#include "vjson.hpp"
#include "lattice.hpp"
#include <limits>

struct LatticeView {
    Lattice& l;
    std::vector<Lattice::EdgeDescriptor> edges;   // all edges, in projection order
    int nLoose;
    LatticeView(Lattice& lat, int nl) : l(lat), nLoose(nl) { refresh(); }

    std::vector<int> vertices() {
        std::vector<int> vs;
        size_t pos = 0;
        for (auto& c : utf8chars(l.getAllText())) { vs.push_back(pos); pos += c.size(); }
        vs.push_back(pos);
        for (int i = 1; i <= nLoose; ++i) vs.push_back(-i);
        return vs;
    }
    void refresh() {
        edges.clear();
        for (int v : vertices()) {
            Lattice::InOutEdgesIterator it = l.allOutEdges(v);
            while (it.hasNext()) edges.push_back(it.next());
        }
    }
    // 1-based position in the listing; 0 when the edge is not listed
    int ref(Lattice::EdgeDescriptor e) {
        for (size_t i = 0; i < edges.size(); ++i) if (edges[i] == e) return i + 1;
        return 0;
    }
    static long long score(double s) {
        if (s < -1e9) return -1000000000LL;
        if (s > 1e9) return 1000000000LL;
        return (long long)(s * 1000 + (s < 0 ? -0.5 : 0.5)) ;
    }
    J tags(const LayerTagCollection& t) {
        J r = J::array();
        for (auto& s : l.getLayerTagManager().getTagNames(t)) r.push_back(s);
        return r;
    }
    J avs(const AnnotationItem& it) {
        J r = J::array();
        for (auto& kv : l.getAnnotationItemManager().getAVMap(it))
            r.push_back(J::array({safe(kv.first), safe(kv.second)}));
        return r;
    }
    J edge(Lattice::EdgeDescriptor e) {
        J o;
        o["s"] = l.getEdgeSource(e);
        o["t"] = l.getEdgeTarget(e);
        AnnotationItem it = l.getEdgeAnnotationItem(e);
        o["c"] = safe(it.getCategory());
        o["x"] = safe(it.getText());
        o["a"] = avs(it);
        o["g"] = tags(l.getEdgeLayerTags(e));
        o["w"] = score(l.getEdgeScore(e));
        J ps = J::array();
        for (auto& p : l.getEdgePartitions(e)) {
            J po;
            po["g"] = tags(p.getTagList());
            J ls = J::array();
            Lattice::Partition::Iterator pi(l, p);
            while (pi.hasNext()) ls.push_back(ref(pi.next()));
            po["l"] = ls;
            po["w"] = score(p.getScore());
            po["r"] = p.getRuleId();
            po["h"] = p.getTreeChoice();
            ps.push_back(po);
        }
        o["p"] = ps;
        if (!l.isLooseVertex(l.getEdgeSource(e)) && !l.isLooseVertex(l.getEdgeTarget(e))) {
            o["b"] = l.getEdgeBeginIndex(e);
            o["e"] = l.getEdgeEndIndex(e);
            o["n"] = l.getEdgeLength(e);
            o["y"] = safe(l.getEdgeText(e));
        } else { o["b"] = -1; o["e"] = -1; o["n"] = -1; o["y"] = "@"; }
        o["d"] = l.isDiscarded(e);
        return o;
    }
    J state() {
        refresh();
        J o;
        J cs = J::array();
        for (auto& c : utf8chars(l.getAllText())) cs.push_back(J::array({safe(c), (int)c.size()}));
        o["ch"] = cs;
        o["nv"] = l.countAllVertices();
        o["nl"] = nLoose;
        J es = J::array();
        for (auto e : edges) es.push_back(edge(e));
        o["es"] = es;
        return o;
    }
};
