#!/usr/bin/env python3
"""Planted bugs in the chart parser."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
PRE = r'''
#include <cstdio>
#include <fstream>
#include <set>
#include <string>
#include <vector>
#include <boost/assign.hpp>
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "gobio.hpp"
#include "limit_checker.hpp"
#include "logging.hpp"
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
struct Doc {
    AnnotationItemManager m; Lattice l;
    Doc(const std::string& t) : l(m, "") { l.appendStringWithSymbols(t); }
    void add(int s, int t, const char* c, const char* tag = "parse-terminal", const char* a = 0, const char* v = 0, const char* x = "") {
        AnnotationItem it(c, StringFrag(x));
        if (a) m.setValue(it, a, v);
        std::list<std::string> g; g.push_back(tag);
        if (tag == std::string("parse-terminal")) g.push_back("gobio");
        l.addEdge(s, t, it, l.getLayerTagManager().createTagCollection(g));
    }
    void parse(const std::string& rules, int limit = -1) {
        { std::ofstream f("rules.g"); f << rules; }
        Gobio g("xx", "./rules.g", "parse-terminal", limit);
        g.parse(l);
    }
    int count(int s, int t, const std::string& c) {
        int n = 0;
        Lattice::EdgesSortedBySourceIterator it(l, l.getLayerTagManager().getMask("gobio"));
        while (it.hasNext()) {
            Lattice::EdgeDescriptor e = it.next();
            n += l.getEdgeSource(e) == s && l.getEdgeTarget(e) == t && (c.empty() || l.getAnnotationCategory(e) == c);
        }
        return n;
    }
};
'''
G = "-I$R/tools/parsers/gobio"
INCS = " ".join([G, "-I$R/tools"] + [G + "/" + s for s in "accommodater avmatrix chart chooser helpers parser registrar rules translator transporter trees".split()])
LIBS = "$R/build/tools/parsers/gobio/libtools-parsers-gobio.so"
RP = "-Wl,-rpath,$R/build/tools/parsers/gobio"
def seed(*a):
    if any(e[0].endswith(".tpl") for e in a[2]): return      # not source code for those who count planted bugs
    mkseed(*a, flags="-fno-access-control", incs=INCS, libs=LIBS, rpath=RP)
seed("P12-one-word-symbol", "P12", [
 ("tools/parsers/gobio/gobio.cpp", "while (PerlRegExp::FindAndConsume(&input, reAtCategory, &atSymbol)) {", "if (PerlRegExp::FindAndConsume(&input, reAtCategory, &atSymbol)) {")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    Doc d("ab"); d.add(0, 1, "p", "parse-terminal", 0, 0, "no"); d.add(1, 2, "q", "parse-terminal", 0, 0, "but");
    d.parse("s = '@no' '@but'\n\n");
    NEED(d.count(0, 2, "s") == 1);
    return 0; }
''', "a rule with two word symbols on one line", "a constituent following from the rules is not found")
seed("P12-optional-group", "P12", [
 ("tools/parsers/gobio/rules/tgbg_combinator.tpl", "(signed int)rh.rhs_symbols.size() + m);", "(signed int)rh.rhs_symbols.size() + 1);")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    Doc d("ab"); d.add(0, 1, "a"); d.add(1, 2, "d", "parse-terminal", "N", "pl");
    d.parse("s = a (b c | e f)? d\n\td.N = pl\n\n");
    NEED(d.count(0, 2, "s") == 1);
    Doc e("ab"); e.add(0, 1, "a"); e.add(1, 2, "d", "parse-terminal", "N", "sg");
    e.parse("s = a (b c | e f)? d\n\td.N = pl\n\n");
    NEED(e.count(0, 2, "s") == 0);
    return 0; }
''', "an optional group of several symbols left out, followed by a symbol that the conditions refer to", "conditions are checked on a wrong constituent")
seed("P12-two-blanks", "P12", [
 ("tools/parsers/gobio/chart/chart.tpl", "return edge_source(edge, true);", "return edge_source(edge);")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    for (int k = 0; k < 2; ++k) {
        Doc d("a  b");
        d.add(1, 2, "B", "token"); d.add(2, 3, "B", "token");
        if (k) { d.add(3, 4, "b"); d.add(0, 1, "a"); } else { d.add(0, 1, "a"); d.add(3, 4, "b"); }
        d.parse("s = a b\n\nb = c\n\n");
        NEED(d.count(0, 4, "s") == 1);
        Doc e("a  c");
        e.add(1, 2, "B", "token"); e.add(2, 3, "B", "token");
        if (k) { e.add(3, 4, "c"); e.add(0, 1, "a"); } else { e.add(0, 1, "a"); e.add(3, 4, "c"); }
        e.parse("s = a b\n\nb = c\n\n");
        NEED(e.count(0, 4, "s") == 1);
    }
    return 0; }
''', "two blanks between the constituents, the right one built after the left one", "a constituent following from the rules is not found")
seed("P12-limit-at-start", "P12", [
 ("tools/parsers/gobio/chart/chart.tpl", """        builder.addEdge(right_link);
        int num1 = lattice_.countEdges(u, v);
        if (u >= 0 && v >= 0""", """        builder.addEdge(right_link);
        int num1 = lattice_.countEdges(u, v);
        if (u > 0 && v > 0""")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    Doc d("ab"); d.add(0, 1, "a"); d.add(1, 2, "b");
    d.parse("s = a b\n\nt = a b\n\nu = a b\n\nw = a b\n\n", 1);
    NEED(d.count(0, 2, "") == 2);
    return 0; }
''', "a limit on the number of annotations between two points, the first being the beginning of the text", "more annotations are made than the limit allows")
seed("P12-limits-unsorted", "P12", [
 ("common/limit_checker.cpp", "argument < specs_.back().argument) {", "argument < specs_.front().argument) {")],
 PRE + r'''
int main() {
    LimitChecker l;
    l.addLimitSpec(2, 9); l.addLimitSpec(8, 3); l.addLimitSpec(5, 6);
    NEED(l.isAllowed(4, 6)); NEED(!l.isAllowed(6, 4));
    return 0; }
''', "limits given out of order, the one out of order not the smallest", "a limit meant for longer stretches is applied to shorter ones")
