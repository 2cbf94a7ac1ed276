#!/usr/bin/env python3
"""Planted bugs in the tokenizer and the segmenter."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
PRE = r'''
#include <cstdio>
#include <fstream>
#include <string>
#include <vector>
#include "string_helpers.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "tp_tokenizer.hpp"
#include "tp_token_cutter.hpp"
#include "srx_segmenter.hpp"
#include "logging.hpp"
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\n", #c); return 1; } } while (0)
static std::string put(const std::string& name, const std::string& s) { std::ofstream(name.c_str()) << s; return "./" + name; }
static std::string srx(const std::string& rules) {
    return put("rules.srx", "<?xml version=\"1.0\"?>\n<!DOCTYPE srx PUBLIC \"-//SRX//DTD SRX//EN\" \"srx.dtd\">\n<srx version=\"1.0\">\n"
        "<header segmentsubflows=\"yes\"><formathandle type=\"start\" include=\"no\"/></header>\n<body>\n<languagerules>\n"
        "<languagerule languagerulename=\"Default\">\n" + rules + "</languagerule>\n</languagerules>\n<maprules>\n"
        "<maprule maprulename=\"Default\">\n<languagemap languagepattern=\".*\" languagerulename=\"Default\"></languagemap>\n"
        "</maprule>\n</maprules>\n</body>\n</srx>\n");
}
static std::string rule(bool brk, const std::string& b, const std::string& a) {
    return std::string("<rule break=\"") + (brk ? "yes" : "no") + "\">\n<beforebreak>" + b + "</beforebreak>\n<afterbreak>" + a + "</afterbreak>\n</rule>\n";
}
static std::string tokens(const std::string& rules, const std::string& text, size_t hard = 0, size_t soft = 0) {
    TPBasicTokenizerRuleSet rs;
    rs.load(put("rules.rgx", rules));
    TpTokenCutter cut("xx", rs, hard, soft);
    std::string r;
    size_t pos = 0;
    while (pos != std::string::npos && pos < text.length()) r += cut.cutOff(text, pos).getText() + "|";
    return r;
}
static std::string segments(const std::string& file, const std::string& a, const std::string& b = "") {
    std::string lang = "en";
    SrxSegmenter seg(lang, file, 0, 0, true);
    AnnotationItemManager m; Lattice l(m, "");
    l.appendStringWithSymbols(a + b);
    std::list<std::string> g; g.push_back("text"); g.push_back(LayerTagManager::getLanguageTag(lang));
    l.addEdge(0, a.size(), AnnotationItem("TEXT", StringFrag(a)), l.getLayerTagManager().createTagCollection(g));
    if (!b.empty()) l.addEdge(a.size(), a.size() + b.size(), AnnotationItem("TEXT", StringFrag(b)), l.getLayerTagManager().createTagCollection(g));
    seg.annotate(l);
    std::string r;
    Lattice::EdgesSortedBySourceIterator it(l, l.getLayerTagManager().getMask("segment"));
    while (it.hasNext()) r += l.getAnnotationText(it.next()) + "|";
    return r;
}
'''
INCS = "-I$R/tools/tokenizers/tp -I$R/tools/segmenters/srx"
LIBS = ("$R/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp $R/tools/tokenizers/tp/tp_token_cutter.cpp "
        "$R/tools/segmenters/srx/srx_segmenter.cpp $R/tools/segmenters/srx/srx_rules.cpp")
mkseed("P07-soft-over-hard", "P07", [
 ("common/cutter.hpp", """            cutPoint = (std::min)(softLimitCutPoint, hardLimitCutPoint);""",
  """            cutPoint = (softLimitCutPoint < positionInText + segmentLength ? softLimitCutPoint : hardLimitCutPoint);""")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    NEED(tokens("@rule main_regex/main_regex := .\n@rule all/T := [a-z\\ ]+\n", "abcdefghijklm nop", 6, 5) == "abcdef|ghijkl|m nop|");
    return 0; }
''', "both limits; a piece over the hard limit whose first blank after the soft limit lies beyond the hard limit", "a piece exceeds the hard limit", incs=INCS, libs=LIBS)
mkseed("P07-stale-exceptions", "P07", [
 ("tools/segmenters/srx/srx_segmenter.cpp", """        BOOST_FOREACH(RuleApplication& ruleApplication, nonBreakingRuleApplications_) {
            ruleApplication = RuleApplication();
        }""", """        BOOST_FOREACH(RuleApplication& ruleApplication, nonBreakingRuleApplications_) {
            ruleApplication.breakingPosition = std::string::npos;
        }""")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    std::string f = srx(rule(false, "Mr\\.", "\\s") + rule(true, "\\.", "\\s"));
    NEED(segments(f, "Mr. A came. He ", "or Mr. B. No") == "Mr. A came.| He |or Mr. B.| No|");
    return 0; }
''', "two annotated text fragments; an exception rule that was tried in the first one up to some place and is needed earlier in the second",
 "an exception rule is not applied in the following text fragment", incs=INCS, libs=LIBS)
mkseed("P07-last-rule-wins", "P07", [
 ("tools/segmenters/srx/srx_segmenter.cpp", """ruleBreakPoint < nearestBreakPoint)""", """ruleBreakPoint <= nearestBreakPoint)""")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    std::string f = srx(rule(true, "!\\.", "\\s") + rule(false, "\\.", "\\s[a-z]") + rule(true, "\\.", "\\s"));
    NEED(segments(f, "Aa!. bb. cc. Dd. E") == "Aa!.| bb. cc.| Dd.| E|");
    return 0; }
''', "two breaking rules with an exception between them, all three applicable at one place", "an exception listed after a breaking rule overrides it", incs=INCS, libs=LIBS)
mkseed("P07-short-definition", "P07", [
 ("tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp", "if (buffer.find(def->first, pos) == pos && def->first.length() > len) {",
  "if (buffer.compare(pos, def->first.length(), def->first) == 0 && len == 0) {")],
 PRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    NEED(tokens("@def letter [a-z]\n@def letters [a-zA-Z]\n@rule main_regex/main_regex := .\n@rule all/T := letters+\n", "abCd1ef") == "abCd|1|ef|");
    return 0; }
''', "a definition whose name begins another definition's name", "the shorter definition is substituted inside the longer name", incs=INCS, libs=LIBS)
