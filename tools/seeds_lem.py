#!/usr/bin/env python3
"""Planted bugs in the dictionary lemmatizer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
LA = "tools/lemmatizers/lamerlemma/"
INCS = "-I$R/" + LA + " -I$R/tools/datastructures/psi_query"
LIBS = " ".join("$R/" + LA + f for f in ("lamerlemma.cpp", "dictionary.cpp", "utility_functions.cpp")) + \
       " $R/tools/datastructures/psi_query/fsa_multi_store.cpp -L$R/build/utf8case -lutf8case -lboost_iostreams -lz"
PRE = r'''
#include <cstdio>
#include <fstream>
#include <set>
#include <boost/program_options.hpp>
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "lemmatizer_annotator.hpp"
#include "lamerlemma.hpp"
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
namespace po = boost::program_options;
struct Doc {
    AnnotationItemManager aim; Lattice lat; Lattice::EdgeDescriptor tok;
    Doc(const std::string& w) : lat(aim, w) {
        tok = lat.addEdge(0, w.size(), AnnotationItem("T", StringFrag(w)), lat.getLayerTagManager().createTagCollectionFromListWithLangCode({"token"}, "x"));
    }
    void run(const std::string& dict) {
        { std::ofstream f("dict"); f << dict; }
        LemmatizerAnnotator<LamerLemma>::Factory f;
        std::vector<std::string> args = {"--lang", "x", "--plain-text-lexicon", "dict"};
        po::options_description d = f.optionsHandled();
        po::variables_map vm;
        po::store(po::command_line_parser(args).options(d).run(), vm);
        po::notify(vm);
        boost::shared_ptr<Annotator> a(f.createAnnotator(vm));
        a->annotate(lat);
    }
    std::vector<Lattice::EdgeDescriptor> layer(const std::string& tag) {
        std::vector<Lattice::EdgeDescriptor> r;
        Lattice::InOutEdgesIterator it = lat.outEdges(0, lat.getLayerTagManager().getMask(tag));
        while (it.hasNext()) r.push_back(it.next());
        return r;
    }
};
'''
mkseed("P24-second-reading-from-first", "P24", [
 ("common/lemmatizer_annotator.hpp", "                seqBuilder.addEdge(lastCorrection_);\n", "                seqBuilder.addEdge(lastNormalization_);\n")],
 PRE + r'''
int main() {
    Doc d("KOT");
    d.run("KOT\tkot\tsubst\nKot\tkota\tsubst\n");
    std::vector<Lattice::EdgeDescriptor> n = d.layer("normalization");
    NEED(n.size() == 2);
    for (auto e : n) { boost::optional<Lattice::EdgeDescriptor> p = d.lat.getParent(e); NEED(p && *p == d.tok); }
    return 0;
}
''', "A token found in the dictionary both as written and with small letters.",
 "The second normalized form is derived from the first one and not from the token.", incs=INCS, libs=LIBS, rpath="-Wl,-rpath,$R/build/utf8case 2>/dev/null")
mkseed("P24-features-carried-over", "P24", [
 (LA + "lamerlemma.cpp", "                TagMap &tagMap = lemmaPair.second;\n", "                TagMap &tagMap = lemmaPair.second;\n                FeatureMap posFeatureMap;\n"),
 (LA + "lamerlemma.cpp", "                    FeatureMap posFeatureMap = tagPair.second.first;\n                    std::string pos = posFeatureMap[\"pos\"];\n",
  "                    BOOST_FOREACH(FeatureMap::value_type feature, tagPair.second.first)\n                        posFeatureMap[feature.first] = feature.second;\n"
  "                    std::string pos = posFeatureMap[\"pos\"];\n")],
 PRE + r'''
int main() {
    Doc d("kot");
    d.run("kot\tkot\tadj,k=v\nkot\tkot\tsubst\nkot\tkot\tverb,m=w\n");
    std::vector<Lattice::EdgeDescriptor> n = d.layer("lexeme");
    NEED(n.size() == 3);
    for (auto e : n) {
        AnnotationItem it = d.lat.getEdgeAnnotationItem(e);
        std::string k, m;
        for (auto& kv : d.aim.getAVMap(it)) { if (kv.first == "k") k = kv.second; if (kv.first == "m") m = kv.second; }
        NEED((k == "v") == (it.getCategory() == "adj"));
        NEED((m == "w") == (it.getCategory() == "verb"));
    }
    return 0;
}
''', "A form with several lexemes of the same lemma, an earlier one (in the order of the features) with a feature the later one has not.",
 "A lexeme gets features of another lexeme of the same lemma.", incs=INCS, libs=LIBS, rpath="-Wl,-rpath,$R/build/utf8case 2>/dev/null")
mkseed("P24-no-form-without-details", "P24", [
 (LA + "utility_functions.cpp", "        lemmaMap[lemma][tag].second.push_back(FeatureMap());\n\n        if (fields.size() == 3) {\n",
  "        if (fields.size() == 3) {\n            lemmaMap[lemma][tag].second.push_back(FeatureMap());\n")],
 PRE + r'''
int main() {
    Doc d("kot");
    d.run("kot\tkot\tsubst\nkot\tkot\tsubst\tcase=nom\nkot\tkot\tadj\n");
    NEED(d.layer("lexeme").size() == 2);
    NEED(d.layer("form").size() == 3);
    return 0;
}
''', "A line of the dictionary that gives features of the lexeme but no details of the form.",
 "The reading of the word that such a line describes is missing among the forms.", incs=INCS, libs=LIBS, rpath="-Wl,-rpath,$R/build/utf8case 2>/dev/null")
mkseed("P24-shortest-record", "P24", [
 ("tools/datastructures/psi_query/fsa_multi_store.hpp", "            if (key_ == record.substr(0, key_.size()))\n", "            if (record.compare(0, key_.size() - 1, key_, 0, key_.size() - 1) == 0 && record.size() > key_.size() + 2)\n")],
 PRE + r'''
int main() {
    Doc d("kot");
    d.run("kot\tkot\nkot\tkoty\n");
    std::set<std::string> l;
    for (auto e : d.layer("lemma")) l.insert(d.lat.getAnnotationText(e));
    NEED(l == (std::set<std::string>{"kot", "koty"}));
    return 0;
}
''', "A line of the dictionary with a form and a lemma that is a part of it, and nothing else.",
 "Records of two characters are taken together with the form they belong to: the lemma found is not the one put in.", incs=INCS, libs=LIBS, rpath="-Wl,-rpath,$R/build/utf8case 2>/dev/null")
