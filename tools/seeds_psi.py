#!/usr/bin/env python3
"""Planted bugs in the native format's writer and reader."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
W, R = "formats/psi/psi_writer/", "formats/psi/psi_reader/"
INCS = "-I$R/" + W + " -I$R/" + R
LIBS = "$R/" + W + "psi_lattice_writer.cpp $R/" + R + "psi_lattice_reader.cpp"
PRE = r'''
#include <cstdio>
#include <sstream>
#include <set>
#include <boost/program_options.hpp>
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "psi_lattice_writer.hpp"
#include "psi_lattice_reader.hpp"
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
typedef Lattice::EdgeDescriptor Edge;
struct Doc {
    AnnotationItemManager aim; Lattice lat;
    Doc() : lat(aim) { }
    Doc(const std::string& w) : lat(aim) { lat.appendStringWithSymbols(w); }
    LayerTagCollection tags(const char* t) { return lat.getLayerTagManager().createSingletonTagCollection(t); }
    Edge add(Lattice::VertexDescriptor s, Lattice::VertexDescriptor t, const char* c, const char* tag, double score = 0.0, const char* text = "") {
        return lat.addEdge(s, t, AnnotationItem(c, StringFrag(text)), tags(tag), Lattice::EdgeSequence(), score);
    }
    std::string write() {
        std::ostringstream out;
        boost::program_options::variables_map vm;
        PsiLatticeWriter::Factory f;
        boost::shared_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(vm));
        w->writeLattice(lat, out);
        return out.str();
    }
    void read(const std::string& s) {
        std::istringstream in(s);
        boost::program_options::variables_map vm;
        PsiLatticeReader::Factory f;
        boost::shared_ptr<LatticeReader<std::istream> > r(f.createLatticeReader(vm));
        r->readIntoLattice(in, lat);
    }
    std::vector<Edge> layer(const char* tag) {
        std::vector<Edge> r;
        Lattice::EdgesSortedByTargetIterator it = lat.edgesSortedByTarget(lat.getLayerTagManager().getMask(tag));
        while (it.hasNext()) r.push_back(it.next());
        return r;
    }
};
'''
mkseed("P08-points-backwards", "P08", [
 (R + "psi_lattice_reader.cpp", "                        = looseVertices.find(item.length);\n", "                        = item.beginningLoose && item.length < item.beginning\n                            ? looseVertices.end() : looseVertices.find(item.length);\n")],
 PRE + r"""
int main() {
    Doc d("ab"), e;
    Lattice::VertexDescriptor v = d.lat.addLooseVertex(), w = d.lat.addLooseVertex();
    d.add(0, v, "C", "x"); d.add(0, w, "A", "x"); d.add(w, v, "B", "x"); d.add(v, 2, "D", "x");
    e.read(d.write());
    std::map<std::string, Edge> m;
    for (auto f : e.layer("x")) m[e.lat.getAnnotationCategory(f)] = f;
    NEED(m.size() == 4);
    NEED(e.lat.getEdgeTarget(m["A"]) == e.lat.getEdgeSource(m["B"]));
    NEED(e.lat.getEdgeTarget(m["B"]) == e.lat.getEdgeTarget(m["C"]));
    NEED(e.lat.getEdgeTarget(m["C"]) == e.lat.getEdgeSource(m["D"]));
    return 0;
}
""", "An annotation from a later extra branch point to one made earlier that is the end or beginning of others too.",
 "The annotation ends at a fresh branch point and not at the one it ended at.", incs=INCS, libs=LIBS)
mkseed("P08-quoted-already", "P08", [
 ("common/utt_like_quoter.cpp", "        case '\\\\' : result += \"\\\\\\\\\"; break;\n        default:\n            size_t j = additionalQuotations_.length();\n            while (j) {\n                if (str[i] == additionalQuotations_[j-1]) {\n                    result += \"\\\\\";\n",
  "        case '\\\\' :\n            result += '\\\\';\n            if (i + 1 == str.length() || (str[i + 1] != '_' && str[i + 1] != '*')) result += '\\\\';\n            break;\n        default:\n            size_t j = additionalQuotations_.length();\n            while (j) {\n                if (str[i] == additionalQuotations_[j-1]) {\n                    result += \"\\\\\";\n")],
 PRE + r"""
int main() {
    Doc d("a\\_b"), e;
    d.add(0, 4, "A", "x", 0.0, "u\\*v");
    e.read(d.write());
    NEED(e.lat.getAllText() == "a\\_b");
    NEED(e.layer("x").size() == 1 && e.lat.getAnnotationText(e.layer("x")[0]) == "u\\*v");
    return 0;
}
""", "A text with a backslash followed at once by an underscore or an asterisk.",
 "The backslash is taken for one that quotes the character already and is not quoted itself.", incs=INCS, libs=LIBS)
mkseed("P08-empty-attribute", "P08", [
 (R + "psi_lattice_reader.cpp", "                    if (parse(avPairBegin, avPairEnd, avPairGrammar, avPairItem)) {\n",
  "                    if (parse(avPairBegin, avPairEnd, avPairGrammar, avPairItem) && !avPairItem.val.empty()) {\n")],
 PRE + r"""
int main() {
    Doc d("ab"), e;
    AnnotationItem it("A", StringFrag("t"));
    d.aim.setValue(it, "k", ""); d.aim.setValue(it, "m", "v");
    d.lat.addEdge(0, 2, it, d.tags("x"));
    e.read(d.write());
    NEED(e.layer("x").size() == 1);
    std::list<std::pair<std::string, std::string> > v = e.aim.getValues(e.lat.getEdgeAnnotationItem(e.layer("x")[0]));
    NEED(v.size() == 2);
    return 0;
}
""", "An annotation with an attribute the value of which is empty.", "The attribute is lost when the file is read.", incs=INCS, libs=LIBS)
mkseed("P08-score-rounded", "P08", [
 (W + "psi_lattice_writer.cpp", "        aiSs << \"<\" << score << \">\";\n", "        aiSs << \"<\" << std::setprecision(4) << score << \">\";\n")],
 PRE + r"""
int main() {
    Doc d("ab"), e;
    d.add(0, 1, "A", "x", 12.375); d.add(1, 2, "B", "x", 1.5);
    e.read(d.write());
    NEED(e.layer("x").size() == 2);
    NEED(e.lat.getEdgeScore(e.layer("x")[0]) == 12.375);
    NEED(e.lat.getEdgeScore(e.layer("x")[1]) == 1.5);
    return 0;
}
""", "An annotation the score of which has more than four digits.", "The score of an annotation is written rounded to four digits.", incs=INCS, libs=LIBS)
