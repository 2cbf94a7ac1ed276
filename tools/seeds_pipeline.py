"""Planted bugs in pipelines, aliases, annotation converters, automata (re-creates seeded/<id>)."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
NEED = '''#include <cstdio>
#include <string>
#include <list>
#include <vector>
#include <set>
#include <map>
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
FW = NEED + '''
#include <boost/foreach.hpp>
#include <boost/program_options.hpp>
#include "annotator_promise.hpp"
#include "language_dependent_annotator_factory.hpp"
#include "framework/auto_completer.hpp"
#include "framework/main_factories_keeper.hpp"
#include "logging.hpp"
namespace po = boost::program_options;
MainFactoriesKeeper::MainFactoriesKeeper() { }
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(std::string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(std::string n) { return keeper_.getProcessorFactory(n); }
std::vector<std::string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
typedef std::list<std::string> Strs;
static Strs L(const char* a = 0, const char* b = 0) { Strs r; if (a) r.push_back(a); if (b) r.push_back(b); return r; }
struct FA : Annotator { LatticeWorker* doCreateLatticeWorker(Lattice&) { return 0; } std::string doInfo() { return ""; } };
template<class Base> struct Fake : Base {
    std::string name; Strs req, prov; double q, t; bool fails;
    Fake(const char* n, Strs r, Strs p, double q_ = 0, double t_ = 0, bool f = false) : name(n), req(r), prov(p), q(q_), t(t_), fails(f) { }
    Annotator* doCreateAnnotator(const po::variables_map&) { if (fails) throw PsiException("no " + name); return new FA; }
    std::list<Strs> doRequiredLayerTags() { std::list<Strs> r; BOOST_FOREACH(std::string x, req) r.push_back(L(x.c_str())); return r; }
    std::list<Strs> doOptionalLayerTags() { return std::list<Strs>(); }
    Strs doProvidedLayerTags() { return prov; }
    double doGetQualityScore(const po::variables_map&) const { return q; }
    double doGetEstimatedTime(const po::variables_map&) const { return t; }
    boost::filesystem::path doGetFile() const { return "f.cpp"; }
    std::string doGetName() const { return name; }
    Strs doGetAliases() { return Strs(); }
};
struct Plain : Fake<AnnotatorFactory> {
    Plain(const char* n, Strs r, Strs p, double q = 0, double t = 0, bool f = false) : Fake<AnnotatorFactory>(n, r, p, q, t, f) { }
    po::options_description doOptionsHandled() { return po::options_description("o"); }
    LanguagesHandling doLanguagesHandling(const po::variables_map&) const { return LANGUAGE_INDEPENDENT; }
    Strs doLanguagesHandled(const po::variables_map&) const { return Strs(); }
};
struct Dep : Fake<LanguageDependentAnnotatorFactory> {
    Strs langs;
    Dep(const char* n, Strs r, Strs p, Strs l) : Fake<LanguageDependentAnnotatorFactory>(n, r, p), langs(l) { }
    void doAddLanguageIndependentOptionsHandled(po::options_description&) { }
    Strs doAllLanguagesHandled() const { return langs; }
};
static void take(ProcessorFactory* f) { MainFactoriesKeeper::getInstance().keeper_.takeProcessorFactory(f); }
static ProcessorPromiseAlternative alt(const char* n) {
    AnnotatorFactory* f = dynamic_cast<AnnotatorFactory*>(&MainFactoriesKeeper::getInstance().getProcessorFactory(n));
    po::variables_map o; std::vector<std::string> a;
    po::store(po::command_line_parser(a).options(f->optionsHandled()).run(), o); po::notify(o);
    return ProcessorPromiseAlternative(new std::list<ProcessorPromiseSharedPtr>(1, ProcessorPromiseSharedPtr(new AnnotatorPromise(f, o))));
}
static std::string complete(ProcessorPromiseAlternativeSequence s, Strs langs) {
    AutoCompleter c(s, langs);
    boost::optional<ProcessorPromiseSequence> r = c.complete();
    if (!r) return "none";
    std::string t;
    BOOST_FOREACH(ProcessorPromiseSharedPtr x, *r) t += (t.empty() ? "" : " ") + x->getName();
    return t;
}
int main() {
    SET_LOGGING_LEVEL("FATAL");
'''
FWK = dict(flags="-fno-access-control", libs="$R/framework/aliaser.cpp $R/framework/factories_keeper.cpp $R/framework/auto_completer.cpp -I$R/framework")
mkseed("P10-restart-at-last-language", "P10", [
 ("framework/auto_completer.cpp", """                    if (firstTime) {
                        firstTime = false;
                        restartPosition = iter;
                        --restartPosition;
                    }
""", """                    restartPosition = iter;
                    --restartPosition;
"""), ("framework/auto_completer.cpp", """                bool firstTime = true;

""", "")], FW + '''
    take(new Plain("tok", L(), L("token")));
    take(new Dep("lem", L("token"), L("lexeme"), L("en", "pl")));
    ProcessorPromiseAlternativeSequence s; s.push_back(alt("lem"));
    NEED(complete(s, L("pl")) == "tok lem");
    NEED(complete(s, L("en", "pl")) == "tok lem lem");
    return 0; }
''', "a processor that depends on the language, with a requirement, completed for at least two languages",
 "the requirements of the processor of the first language are met only by a processor that follows it", **FWK)
mkseed("P10-time-of-first-best", "P10", [
 ("framework/auto_completer.cpp", """        bestQualityScore_ = seqScore;
        bestEstimatedTime_ = seqTime;
        bestFound_ = promiseSequence;
""", """        if (!bestQualityScore_ || seqScore == *bestQualityScore_)
            bestEstimatedTime_ = seqTime;
        bestQualityScore_ = seqScore;
        bestFound_ = promiseSequence;
""")], FW + '''
    take(new Plain("a1", L(), L("token"), 0, 1));
    take(new Plain("a2", L(), L("token"), 5, 9));
    take(new Plain("a3", L(), L("token"), 5, 4));
    take(new Plain("p", L("token"), L("form")));
    ProcessorPromiseAlternativeSequence s; s.push_back(alt("p"));
    NEED(complete(s, L("pl")) == "a3 p");
    return 0; }
''', "three candidates: a fast one of low quality before two of the best quality of which the first is the slower one",
 "of two completions of the best quality the slower one is returned", **FWK)
mkseed("P11-void-after-alias", "P11", [
 ("framework/aliaser.cpp", """void Aliaser::addVoidAlias(const std::string& alias) {
    if (!isAlias(alias))
        createVoidAlias_(alias);
}""", """void Aliaser::addVoidAlias(const std::string& alias) {
    createVoidAlias_(alias);
}"""), ("framework/aliaser.cpp", """    aliasDestinations_.insert(
        std::pair<std::string, std::set<std::string> >(
            name,
            std::set<std::string>()));
}

void Aliaser::find""", """    aliasDestinations_[name] = std::set<std::string>();
}

void Aliaser::find""")], NEED + '''
#include "framework/aliaser.hpp"
#include "logging.hpp"
int main() {
    SET_LOGGING_LEVEL("FATAL");
    Aliaser a;
    a.addVoidAlias("tagger"); a.addAlias("tagger", "metagger");
    NEED(a.getAllDestinations("tagger").size() == 1);
    Aliaser b;
    b.addAlias("tagger", "metagger"); b.addVoidAlias("tagger");
    NEED(b.getAllDestinations("tagger").size() == 1);
    NEED(b.getAllDestinations("tagger").count("metagger") == 1);
    return 0; }
''', "an alias declared without a destination after one with a destination has been added", "the destinations added before are lost: the answer depends on the order of declarations",
 libs="$R/framework/aliaser.cpp -I$R/framework")
CONV = NEED + '''
#include "lattice.hpp"
#include "annotator_factory.hpp"
#include "HDR"
#include "logging.hpp"
#include <boost/program_options.hpp>
#include <memory>
namespace po = boost::program_options;
typedef Lattice::EdgeDescriptor E;
static LayerTagCollection T(Lattice& l, const char* a, const char* b = 0) {
    std::list<std::string> x; x.push_back(a); if (b) x.push_back(b);
    return l.getLayerTagManager().createTagCollection(x); }
static int n(Lattice& l, int v, const char* tag) {
    Lattice::InOutEdgesIterator it = l.outEdges(v, l.getLayerTagManager().getMask(tag)); int k = 0; while (it.hasNext()) { it.next(); ++k; } return k; }
template<class F> static void run(Lattice& l, const std::vector<std::string>& args) {
    F f; po::options_description d = f.optionsHandled(); po::variables_map vm;
    po::store(po::command_line_parser(args).options(d).run(), vm); po::notify(vm);
    std::unique_ptr<Annotator> a(f.createAnnotator(vm)); a->annotate(l);
}
static AnnotationItem item(AnnotationItemManager& m, const char* c, const char* t, const char* a = 0, const char* v = 0) {
    AnnotationItem i(c, StringFrag(t)); if (a) m.setValue(i, a, v); return i; }
int main() {
    SET_LOGGING_LEVEL("FATAL");
    AnnotationItemManager aim;
    Lattice l(aim, "ab"); l.addSymbols(l.getFirstVertex(), l.getLastVertex());
    std::vector<std::string> args;
'''
mkseed("P13-unsatisfied-sticks", "P13", [
 ("tools/converters/selector/selector.cpp", """            std::list<Lattice::EdgeSpec> edgesInSequence;
            bool allConditionsInSequenceSatisfied = true;

""", """            std::list<Lattice::EdgeSpec> edgesInSequence;

"""), ("tools/converters/selector/selector.cpp", """        Lattice::VertexDescriptor fallbackTarget = lattice_.getEdgeTarget(fallbackEdge);

""", """        Lattice::VertexDescriptor fallbackTarget = lattice_.getEdgeTarget(fallbackEdge);
        bool allConditionsInSequenceSatisfied = true;

""")], CONV.replace("HDR", "tools/converters/selector/selector.hpp") + '''
    E a = l.firstOutEdge(0, l.getLayerTagManager().anyTag());
    l.addEdge(0, 2, item(aim, "T", "ab"), T(l, "token"));
    l.addEdge(0, 2, item(aim, "X", "x1", "condition", "nosuch"), T(l, "conditional"));
    l.addEdge(0, 2, item(aim, "X", "x2", "condition", "*"), T(l, "conditional"));
    run<Selector::Factory>(l, args);
    NEED(n(l, 0, "selected") == 1);
    E e = l.firstOutEdge(0, l.getLayerTagManager().getMask("selected"));
    NEED(l.getAnnotationText(e) == "x2");
    return 0; }
''', "two conditional readings of one place, the first with a condition that fails and the second with one that holds",
 "the reading whose condition holds is not selected (the fall-back one is)", libs="$R/tools/converters/selector/selector.cpp", incs="-I$R/tools/converters/selector")
mkseed("P13-one-match-is-enough", "P13", [
 ("tools/converters/joiner/joiner.cpp", """    Lattice::EdgesSortedBySourceIterator leftIter(lattice_, leftMask);

""", """    Lattice::EdgesSortedBySourceIterator leftIter(lattice_, leftMask);

    bool foundRightEdge = false;

"""), ("tools/converters/joiner/joiner.cpp", """        bool foundRightEdge = false;

        if (parent) {
            std::vector<Lattice::EdgeDescriptor> rightEdges =
                lattice_.getChildren(*parent, rightMask);
""", """        if (parent) {
            std::vector<Lattice::EdgeDescriptor> rightEdges =
                lattice_.getChildren(*parent, rightMask);

            foundRightEdge = foundRightEdge && rightEdges.size() != 1;
""")], CONV.replace("HDR", "tools/converters/joiner/joiner.hpp") + '''
    for (int v = 0; v < 2; ++v) {
        E s = l.firstOutEdge(v, l.getLayerTagManager().anyTag());
        Lattice::EdgeSequence::Builder b(l); b.addEdge(s);
        E t = l.addEdge(v, v + 1, item(aim, "T", "t"), T(l, "token"), b.build());
        Lattice::EdgeSequence::Builder c(l); c.addEdge(t);
        l.addEdge(v, v + 1, item(aim, "L", "l"), T(l, "lemma", "!x"), c.build());
        if (v == 0) l.addEdge(v, v + 1, item(aim, "R", "r"), T(l, "form", "!x"), c.build());
    }
    const char* a[] = {"--lang", "x", "--left-mask", "lemma", "--right-mask", "form", "--out-tags", "joined,!y"};
    args.assign(a, a + 8);
    run<Joiner::Factory>(l, args);
    NEED(n(l, 0, "joined") == 1);
    NEED(n(l, 1, "joined") == 1);
    return 0; }
''', "an outer join in which a left reading with a partner precedes one without",
 "left readings without a partner that follow one with a partner are left out", libs="$R/tools/converters/joiner/joiner.cpp", incs="-I$R/tools/converters/joiner")
FSA = NEED + '''
#include <iostream>
#include <algorithm>
#include <iterator>
#include "logging.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_algorithms.hpp"
using namespace fsa;
template<class F> bool in(F& f, const char* w) { std::string s(w); return f.in(s.begin(), s.end()); }
int main() {
    SET_LOGGING_LEVEL("FATAL");
'''
FI = dict(incs="-I$R/tools/datastructures/psi_query")
mkseed("P19-closure-forward-only", "P19", [
 ("tools/datastructures/psi_query/fsa_ndfsa_impl.hpp", """                closure.insert(ait->getDest());
                queue.push_back(ait->getDest());
""", """                closure.insert(ait->getDest());
                if (ait->getDest() > s || p + 1 == m_states.size())
                    queue.push_back(ait->getDest());
""")], FSA + '''
    NDFSA<> a;                      // 1 -eps-> 0 -eps-> 2 -a-> 3
    for (int i = 0; i < 4; ++i) a.addState();
    a.setStartState(1); a.setEndState(3);
    a.addArc(1, Arc<>(EPS, 0)); a.addArc(0, Arc<>(EPS, 2)); a.addArc(2, Arc<>('a', 3));
    epsRemove(a);
    NEED(in(a, "a")); NEED(!in(a, ""));
    return 0; }
''', "a chain of empty moves whose first leads from a state to one created before it (and the state is not the last one)",
 "words accepted only along that chain are lost when empty moves are removed", **FI)
mkseed("P19-one-sided-equivalence", "P19", [
 ("tools/datastructures/psi_query/fsa_algorithms.hpp", "        if (es1 != es2) {\n", "        if (es1 && !es2) {\n"),
 ("tools/datastructures/psi_query/fsa_algorithms.hpp", "        boost::hash_combine(seed, fsa_.isEndState(s));\n", ""),
], FSA + '''
    const char* w[] = {"a", "aab", "ab", "b", "bb", "bbb"};
    for (unsigned m = 1; m < 64; ++m) {
        std::vector<std::string> ws;
        for (int i = 0; i < 6; ++i) if (m >> i & 1) ws.push_back(w[i]);
        DFSA<> d; minimize_incremental(d, ws.begin(), ws.end());
        for (int i = 0; i < 6; ++i) NEED(in(d, w[i]) == bool(m >> i & 1));
    }
    return 0; }
''', "incremental minimization of words where a state that is not final has the same moves as a registered final one",
 "the minimized automaton accepts words that are not in the list", **FI)
mkseed("P18-integer-prefix", "P18", [
 ("common/annotation_item_manager.cpp", "    if (valSs >> intVal && valSs.eof()) {\n", "    if (valSs >> std::ws >> intVal && (valSs >> std::ws).eof()) {\n")], NEED + '''
#include "annotation_item_manager.hpp"
int main() {
    AnnotationItemManager m; AnnotationItem i("X", StringFrag("x"));
    m.setValue(i, "a", std::string("7"));
    NEED(m.getValueAsString(i, "a") == "7");
    m.setValue(i, "a", std::string("7 ")); NEED(m.getValueAsString(i, "a") == "7 ");
    m.setValue(i, "a", std::string("7x")); NEED(m.getValueAsString(i, "a") == "7x");
    return 0; }
''', "an attribute value that is a number followed by white space", "the value read back has lost its white space (and equals the value without it)")
mkseed("P18-list-until-count", "P18", [
 ("common/annotation_item_manager.cpp", """    std::list< std::pair<std::string, zvalue> > result;
    for (
        size_t i = 0;
        i < m_.size();
        ++i
    ) {
        if (annotationItem.attributes_[i]) {""", """    std::list< std::pair<std::string, zvalue> > result;
    const size_t count = annotationItem.attributes_.count();
    for (
        size_t i = 0;
        i < m_.size() && (result.size() < count);
        ++i
    ) {
        if (annotationItem.attributes_[i] && i < 64) {""")], NEED + '''
#include "annotation_item_manager.hpp"
#include "logging.hpp"
int main() {
    AnnotationItemManager m; AnnotationItem i("X", StringFrag("x")), j("X", StringFrag("x"));
    for (int k = 0; k < 70; ++k) {
        std::string n = "a" + std::to_string(k);
        m.setValue(i, n, std::string("v"));
    }
    m.addValues(j, i);
    NEED(i == j && m.getValues(j).size() == 70);
    return 0; }
''', "a document with more than 64 attribute names", "copying attributes from one annotation to another leaves out those named last")
