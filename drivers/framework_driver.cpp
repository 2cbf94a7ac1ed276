// Runs scripts against the real AutoCompleter, FactoriesKeeper and Aliaser with made-up processors.
// The keeper of the toolkit's own processors (framework/main_factories_keeper.cpp) is replaced here by
// one that can be filled anew for each episode.
#include "vjson.hpp"
#include <set>
#include <stdexcept>
#include <boost/foreach.hpp>
#include <boost/program_options.hpp>
#include "logging.hpp"
#include "annotator_promise.hpp"
#include "non_annotator_promise.hpp"
#include "language_dependent_annotator_factory.hpp"
#include "framework/auto_completer.hpp"
#include "framework/main_factories_keeper.hpp"
#include "framework/shallow_aliaser.hpp"
#include "framework/split_pipeline.hpp"
namespace po = boost::program_options;

MainFactoriesKeeper::MainFactoriesKeeper() { }
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(std::string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(std::string n) { return keeper_.getProcessorFactory(n); }
std::vector<std::string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
std::set<std::string> MainFactoriesKeeper::getAliasNames() { return keeper_.getAliasNames(); }
std::set<std::string> MainFactoriesKeeper::getAllAliases(std::string d) { return keeper_.getAllAliases(d); }
std::list<ProcessorFactory*> MainFactoriesKeeper::getProcessorFactoriesForName(std::string n) { return keeper_.getProcessorFactoriesForName(n); }

typedef std::list<std::string> Strs;
static Strs strs(const J& j) { Strs r; for (auto& x : j) r.push_back(x.get<std::string>()); return r; }

struct FakeAnnotator : Annotator {
    LatticeWorker* doCreateLatticeWorker(Lattice&) { return 0; }
    std::string doInfo() { return ""; }
};
struct FakeProcessor : Processor { std::string doInfo() { return ""; } };

static void maybeFail(const J& p) {
    if (p["fails"] == "psi") throw PsiException("cannot create " + p["n"].get<std::string>());
    if (p["fails"] == "std") throw std::runtime_error("cannot create " + p["n"].get<std::string>());
}
static double score(const J& p, const po::variables_map& o) {
    double q = p["q"].get<int>();
    if (p["h"] == "dep" && o.count("lang")) {
        int i = 0;
        for (auto& x : p["langs"]) { ++i; if (x == o["lang"].as<std::string>()) q += i; }
    }
    return q;
}

// Base: AnnotatorFactory or LanguageDependentAnnotatorFactory
template<class Base> struct Fake : Base {
    J p;
    explicit Fake(const J& p_) : p(p_) { }
    Annotator* doCreateAnnotator(const po::variables_map&) { maybeFail(p); return new FakeAnnotator; }
    std::list<Strs> doRequiredLayerTags() { std::list<Strs> r; for (auto& x : p["req"]) r.push_back(strs(x)); return r; }
    std::list<Strs> doOptionalLayerTags() { return std::list<Strs>(); }
    Strs doProvidedLayerTags() { return strs(p["prov"]); }
    double doGetQualityScore(const po::variables_map& o) const { return score(p, o); }
    double doGetEstimatedTime(const po::variables_map&) const { return p["t"].template get<int>(); }
    boost::filesystem::path doGetFile() const { return boost::filesystem::path("fake.cpp"); }
    std::string doGetName() const { return p["n"].template get<std::string>(); }
    Strs doGetAliases() { return strs(p["aliases"]); }
};
struct PlainFake : Fake<AnnotatorFactory> {
    explicit PlainFake(const J& p) : Fake(p) { }
    po::options_description doOptionsHandled() { return po::options_description("o"); }
    LanguagesHandling doLanguagesHandling(const po::variables_map&) const {
        return p["h"] == "one" ? JUST_ONE_LANGUAGE : p["h"] == "guess" ? LANGUAGE_GUESSER : LANGUAGE_INDEPENDENT;
    }
    Strs doLanguagesHandled(const po::variables_map&) const { return strs(p["langs"]); }
};
struct DepFake : Fake<LanguageDependentAnnotatorFactory> {
    explicit DepFake(const J& p) : Fake(p) { }
    void doAddLanguageIndependentOptionsHandled(po::options_description&) { }
    Strs doAllLanguagesHandled() const { return strs(p["langs"]); }
};
struct NonFake : ProcessorFactory {
    J p;
    explicit NonFake(const J& p_) : p(p_) { }
    Processor* doCreateProcessor(const po::variables_map&) { maybeFail(p); return new FakeProcessor; }
    po::options_description doOptionsHandled() { return po::options_description("o"); }
    std::string doGetContinuation(const po::variables_map&) const { return ""; }
    double doGetQualityScore(const po::variables_map& o) const { return score(p, o); }
    double doGetEstimatedTime(const po::variables_map&) const { return p["t"].get<int>(); }
    boost::filesystem::path doGetFile() const { return boost::filesystem::path("fake.cpp"); }
    std::string doGetName() const { return p["n"].get<std::string>(); }
    std::string doGetType() const { return "reader"; }
    bool doIsSubTyped() const { return false; }
    Strs doGetAliases() { return strs(p["aliases"]); }
};

static ProcessorPromiseSharedPtr promise(const std::string& n, const std::string& l) {
    ProcessorFactory* f = &MainFactoriesKeeper::getInstance().getProcessorFactory(n);
    std::vector<std::string> args;
    if (!l.empty()) { args.push_back("--lang"); args.push_back(l); }
    po::variables_map o;
    po::store(po::command_line_parser(args).options(f->optionsHandled()).run(), o);
    po::notify(o);
    if (AnnotatorFactory* a = dynamic_cast<AnnotatorFactory*>(f))
        return ProcessorPromiseSharedPtr(new AnnotatorPromise(a, o));
    return ProcessorPromiseSharedPtr(new NonAnnotatorPromise(f, o));
}
static std::string langOf(ProcessorPromise& p) {
    po::variables_map& o = p.options_;
    if (!o.count("lang")) return "";
    std::string l = o["lang"].as<std::string>();
    return l == "guess" ? "" : l;
}
template<class C> static J arr(const C& c) { J r = J::array(); for (auto& x : c) r.push_back(x); return r; }

int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    std::ifstream in(argv[1]);
    Trace trace(argv[2]);
    MainFactoriesKeeper& main = MainFactoriesKeeper::getInstance();
    for (std::string line; std::getline(in, line);) {
        J e = J::parse(line);
        std::string op = e["op"];
        alarm(30);
        if (op == "reset") main.keeper_ = FactoriesKeeper();
        else if (op == "take") {
            const J& p = e["p"];
            ProcessorFactory* f;
            if (!p["ann"].get<bool>()) f = new NonFake(p);
            else if (p["h"] == "dep") f = new DepFake(p);
            else f = new PlainFake(p);
            main.keeper_.takeProcessorFactory(f);
        } else if (op == "alias") main.keeper_.addAlias(e["a"], e["d"]);
        else if (op == "void") main.keeper_.addVoidAlias(e["a"]);
        else if (op == "tagalias") main.keeper_.addTagBasedAlias(e["t"], e["a"]);
        else if (op == "izealias") main.keeper_.addTagBasedIzeAliases(e["t"], e["a"]);
        else if (op == "complete") {
            ProcessorPromiseAlternativeSequence seq;
            for (auto& alt : e["request"]) {
                ProcessorPromiseAlternative a(new std::list<ProcessorPromiseSharedPtr>());
                for (auto& x : alt) a->push_back(promise(x["n"], x["l"]));
                seq.push_back(a);
            }
            e["res"] = "none"; e["seq"] = J::array(); e["what"] = "";
            try {
                AutoCompleter c(seq, strs(e["langs"]));
                boost::optional<ProcessorPromiseSequence> r = c.complete();
                if (r) {
                    e["res"] = "ok";
                    for (auto& x : *r) e["seq"].push_back(J{{"n", x->getName()}, {"l", langOf(*x)}});
                }
            } catch (std::exception& ex) { e["res"] = "error"; e["what"] = safe(ex.what()); }
        } else if (op == "lookup") {
            e["dests"] = arr(main.keeper_.aliaser_.getAllDestinations(e["n"]));
            e["aliases"] = arr(main.getAllAliases(e["n"]));
            e["isalias"] = main.keeper_.aliaser_.isAlias(e["n"]);
            e["names"] = arr(main.getAliasNames());
        } else if (op == "factories") {
            e["ok"] = true; e["got"] = J::array();
            try {
                for (ProcessorFactory* f : main.getProcessorFactoriesForName(e["n"])) e["got"].push_back(f->getName());
            } catch (FactoriesKeeper::UnknownProcessorException& ex) { e["ok"] = false; e["got"] = J::array(); }
            e["procs"] = arr(main.getProcessorNames());
            e["has"] = main.hasProcessorFactory(e["n"]);
        } else { std::cerr << "unknown op " << op; return 77; }
        trace.emit(e);
    }
    return 0;
}
