#!/usr/bin/env python3
"""Planted bugs in the writers."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
PRE = r'''
#include <cstdio>
#include <string>
#include <sstream>
#include <vector>
#include "lattice.hpp"
#include "simple_lattice_writer_stream_output_iterator.hpp"
#include "lattice_iter_writer.hpp"
#include "json_lattice_writer_output_iterator.hpp"
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
static void tag(Lattice& l, int s, int t, const char* g, const char* x) {
    l.addEdge(s, t, AnnotationItem("c", StringFrag(x)), l.getLayerTagManager().createTagCollectionFromList(split(g)));
}
'''
PRE = PRE.replace("createTagCollectionFromList(split(g))", "createTagCollection(names(g))").replace("static void tag", r'''static std::list<std::string> names(const char* g) {
    std::list<std::string> r; std::istringstream is(g); std::string w; while (is >> w) r.push_back(w); return r;
}
static void tag''')
PRE += r'''
typedef std::vector<std::string> V;
static std::string text(Lattice& l, V groups, V fb, bool blank = false) {
    std::ostringstream o;
    SimpleLatticeWriterStreamOutputIterator it(o, "|", ",");
    for (size_t i = 0; i < groups.size(); ++i) it.setSeparator(groups[i], "/");
    LatticeIterWriter w(l, it, false, false, blank, "t", groups, fb);
    w.run();
    return o.str();
}
'''
INCS = "-I$R/formats/simple -I$R/formats/json-simple"
LIBS = " ".join(["$R/formats/simple/simple_lattice_writer_stream_output_iterator.cpp", "$R/formats/json-simple/json_lattice_writer_output.cpp",
        "$R/formats/json-simple/json_lattice_writer_output_iterator.cpp"])
mkseed("P09-stale-fallback", "P09", [
 ("common/lattice_iter_writer.cpp", """            // remove edges from other fallback queues
            while (fallbackLevel""", """            // remove edges from other fallback queues
            if (fallbackLevel""")], PRE + r'''
int main() {
    AnnotationItemManager m; Lattice l(m, "abc");
    tag(l, 0, 1, "t", "A"); tag(l, 0, 1, "h", "stale"); tag(l, 1, 2, "h", "B"); tag(l, 2, 3, "t", "C");
    V fb; fb.push_back("f"); fb.push_back("h");
    NEED(text(l, V(), fb) == "A,B,C");
    return 0; }
''', "two fall-back layers; a place with an annotation of the layer written and one of the second fall-back layer, followed by a place with that only",
 "an annotation of the fall-back layer is written at a later place than its own", incs=INCS, libs=LIBS)
mkseed("P09-discarded-group", "P09", [
 ("common/lattice_iter_writer.cpp", """            if (lattice_.isDiscarded(edge)) {
                continue;
            }

            LayerTagCollection tagCollection = lattice_.getEdgeLayerTags(edge);
""", """            LayerTagCollection tagCollection = lattice_.getEdgeLayerTags(edge);
            if (lattice_.isDiscarded(edge) && matches(tagCollection, basicTagMask_)) {
                continue;
            }

""")], PRE + r'''
int main() {
    AnnotationItemManager m; Lattice l(m, "abc");
    tag(l, 0, 1, "t", "A"); tag(l, 1, 2, "t", "B"); tag(l, 2, 3, "t", "C");
    tag(l, 0, 3, "g", "S"); tag(l, 1, 3, "g", "T");
    NEED(text(l, V(1, "g"), V()) == "A,B,C");
    AnnotationItemManager m2; Lattice l2(m2, "abc");
    tag(l2, 0, 1, "t", "A"); tag(l2, 1, 2, "t", "B"); tag(l2, 2, 3, "t", "C");
    tag(l2, 0, 2, "g", "S"); tag(l2, 1, 2, "g", "U"); tag(l2, 2, 3, "g", "W");
    for (Lattice::InOutEdgesIterator i = l2.outEdges(0, l2.getLayerTagManager().getMask("g")); i.hasNext(); ) {
        Lattice::EdgeDescriptor e = i.next();
        if (l2.getEdgeTarget(e) == 2) { l2.discard(e); break; }
    }
    NEED(text(l2, V(1, "g"), V()) == "B/C");
    return 0; }
''', "a discarded annotation of a layer of groups (or of a fall-back layer) starting where another one does", "a discarded annotation opens a group", incs=INCS, libs=LIBS)
mkseed("P09-one-word-group", "P09", [
 ("formats/json-simple/json_lattice_writer_output_iterator.cpp", """doCloseGroup(const std::string& /*group*/) {
    outputWrapper_.closeSubArray();""", """doCloseGroup(const std::string& /*group*/) {
    outputWrapper_.closeSubArrayWithFlattenOneElement();""")], PRE + r'''
int main() {
    AnnotationItemManager m; Lattice l(m, "abc");
    tag(l, 0, 1, "t", "A"); tag(l, 1, 2, "t", "B"); tag(l, 2, 3, "t", "C");
    tag(l, 0, 2, "g", "S"); tag(l, 2, 3, "g", "T");
    std::ostringstream o;
    { JSONLatticeWriterOutputIterator it(o, false); LatticeIterWriter w(l, it, false, false, false, "t", V(1, "g"), V()); w.run(); }
    NEED(o.str() == "[[\"A\",\"B\"],[\"C\"]]");
    return 0; }
''', "a group with a single place, written as JSON", "a one-element group is written as a bare string instead of a list", incs=INCS, libs=LIBS)
