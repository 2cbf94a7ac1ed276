import sys; sys.path.insert(0,'/tmp')
from mkseed import mkseed
H='''#include "lattice.hpp"
#include <cstdio>
#include <string>
#include <list>
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)
typedef Lattice::EdgeDescriptor E;
static LayerTagCollection T(Lattice& l, const char* a, const char* b = 0) {
    std::list<std::string> x; if (*a) x.push_back(a); if (b) x.push_back(b);
    return l.getLayerTagManager().createTagCollection(x); }
static LayerTagMask M(Lattice& l, const char* a) { return l.getLayerTagManager().getMask(a); }
static int n(Lattice::InOutEdgesIterator it) { int k = 0; while (it.hasNext()) { it.next(); ++k; } return k; }
int main() {
    AnnotationItemManager aim;
'''
mkseed("P02-merge-first-plane","P02",[("common/lattice.cpp","""        if (layerTagManager_.areInTheSamePlane(tags, getEdgeLayerTags(edge))) {
            isoplanarEdge = edge;""","""        if (
            layerTagManager_.areInTheSamePlane(tags, getEdgeLayerTags(edge))
            || (sequence.size(*this) > 1 && (insertResult.first)->second.size() > 1)
        ) {
            isoplanarEdge = edge;""")],H+'''
    Lattice l(aim, "ab"); l.addSymbols(l.getFirstVertex(), l.getLastVertex());
    AnnotationItem it("T", StringFrag("ab"));
    E a = l.firstOutEdge(0, l.getLayerTagManager().anyTag()), b = l.firstOutEdge(1, l.getLayerTagManager().anyTag());
    l.addEdge(0, 2, it, T(l, "!x"));
    l.addEdge(0, 2, it, T(l, "!y"));
    Lattice::EdgeSequence::Builder sb(l); sb.addEdge(a); sb.addEdge(b);
    l.addEdge(0, 2, it, T(l, "token"), sb.build());   // no plane: a third annotation
    NEED(n(l.outEdges(0, M(l, "!x"))) == 1);
    NEED(n(l.outEdges(0, M(l, "token"))) == 1);
    NEED(n(l.outEdges(0, l.getLayerTagManager().anyTag())) == 4);
    return 0; }
''',"the same label in two planes and then once more, in no plane, with a derivation of two or more parts","annotations of different planes are merged")
mkseed("P02-score-on-new-tags","P02",[("common/lattice.cpp","""            if (score > oldScore) {
                graph_[edge.descriptor].score = score;""","""            if (score > oldScore && (oldScore != 0.0 || tags != oldTags || !sequence.empty())) {
                graph_[edge.descriptor].score = score;""")],H+'''
    Lattice l(aim, "ab");
    AnnotationItem it("T", StringFrag("ab"));
    E e = l.addEdge(0, 2, it, T(l, "token"));
    l.addEdge(0, 2, it, T(l, "token"), Lattice::EdgeSequence(), 3.0);
    NEED(l.getEdgeScore(e) == 3.0);
    return 0; }
''',"re-adding an annotation whose score is still 0 with a better score, the same tags and no constituents","the score of a merged annotation is not the best of its derivations")
mkseed("P05-parent-last-partition","P05",[("common/lattice.cpp","""        while (partitionIter.hasNext()) {
            EdgeDescriptor parent = partitionIter.next();

            if (matches(getEdgeLayerTags(parent), mask))
                return boost::optional<EdgeDescriptor>(parent);
        }
    }
""","""        boost::optional<EdgeDescriptor> found;
        while (partitionIter.hasNext()) {
            EdgeDescriptor parent = partitionIter.next();

            if (matches(getEdgeLayerTags(parent), mask) && (!found || partitions.size() > 1))
                found = boost::optional<EdgeDescriptor>(parent);
        }
        if (found)
            return found;
    }
""")],H+'''
    Lattice l(aim, "ab"); l.addSymbols(l.getFirstVertex(), l.getLastVertex());
    AnnotationItem it("T", StringFrag("ab"));
    E a = l.addEdge(0, 1, AnnotationItem("A", StringFrag("a")), T(l, "token"));
    E b = l.addEdge(1, 2, AnnotationItem("B", StringFrag("b")), T(l, "token"));
    Lattice::EdgeSequence::Builder sb(l); sb.addEdge(a); sb.addEdge(b);
    E e = l.addEdge(0, 2, it, T(l, "form"), sb.build());
    NEED(*l.getParent(e, M(l, "token")) == a);
    Lattice::EdgeSequence::Builder sb2(l); sb2.addEdge(b);
    l.addPartitionToEdge(e, T(l, "form"), sb2.build());
    NEED(*l.getParent(e, M(l, "token")) == a);
    return 0; }
''',"an annotation with two derivations the first of which has two matching constituents","getParent returns the last instead of the first matching constituent")
mkseed("P06-loose-depth","P06",[("common/lattice.cpp","""        index = f_(boost::source(edge, lattice_.graph_));
        if (index > maxIndex) {
            maxIndex = index;
        }""","""        index = lattice_.graph_[boost::source(edge, lattice_.graph_)].index;
        if (index > maxIndex) {
            maxIndex = index;
        }""")],H+'''
    Lattice l(aim, "abc"); l.addSymbols(l.getFirstVertex(), l.getLastVertex());
    Lattice::VertexDescriptor u = l.addLooseVertex(), v = l.addLooseVertex();
    l.addEdge(2, u, AnnotationItem("X"), T(l, "token"));
    l.addEdge(u, v, AnnotationItem("X"), T(l, "token"));
    l.addEdge(v, 3, AnnotationItem("X"), T(l, "token"));
    l.addEdge(1, 2, AnnotationItem("X"), T(l, "token"));
    l.addEdge(0, 1, AnnotationItem("X"), T(l, "token"));
    Lattice::VertexIterator it(l); int pu = -1, pv = -1, p2 = -1, i = 0;
    while (it.hasNext()) { int x = it.next(); if (x == u) pu = i; if (x == v) pv = i; if (x == 2) p2 = i; ++i; }
    NEED(i == 6); NEED(p2 < pu); NEED(pu < pv);
    return 0; }
''',"a chain of two or more extra points hanging off a later boundary","an extra point is enumerated before the points leading to it")
