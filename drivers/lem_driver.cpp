// The lemmatizer of the dictionaries, created from its command-line options, run on the documents of
// lattice_driver.cpp (spec/LemTrace.tla reads the trace).
#include "lattice_common.hpp"
#include "lemmatizer_annotator.hpp"
#include "lamerlemma.hpp"
#include "logging.hpp"
#include <stdlib.h>
#include <unistd.h>
#include <boost/program_options.hpp>
struct Run;
static void lemmatize(Run& run, const std::string& o, J& op);
#define MORE_OPS lemmatize
#include "lattice_driver.cpp"

struct Scratch {
    std::string d;
    Scratch() { char b[] = "/tmp/lem_driver.XXXXXX"; if (!mkdtemp(b)) exit(77); d = b;
                SET_LOGGING_LEVEL("FATAL"); (void)!freopen("/dev/null", "w", stderr); }
    ~Scratch() { std::string c = "rm -rf '" + d + "'"; if (d.size() > 10) (void)!system(c.c_str()); }
} scratch;
namespace po = boost::program_options;
static Annotator* create(AnnotatorFactory& f, std::vector<std::string> args, const std::vector<std::string>& more) {
    args.insert(args.end(), more.begin(), more.end());
    po::options_description d = f.optionsHandled();
    po::variables_map vm;
    po::store(po::command_line_parser(args).options(d).run(), vm);
    po::notify(vm);
    return f.createAnnotator(vm);
}
static std::map<std::string, int> kept;     // texts of dictionaries already compiled
static void lemmatize(Run& run, const std::string& o, J& op) {
    if (o != "lemmatize") return;
    LemmatizerAnnotator<LamerLemma>::Factory f;
    op["order"] = J::array();
    Lattice::EdgesSortedByTargetIterator it = run.lat->edgesSortedByTarget(run.mask(op["in"]));
    while (it.hasNext()) op["order"].push_back(run.view->ref(it.next()));
    std::string txt = scratch.d + "/text", all;
    for (auto& l : op["lines"]) all += l.get<std::string>() + "\n";
    if (!op["nl"].get<bool>() && !all.empty()) all.erase(all.size() - 1);
    { std::ofstream s(txt.c_str()); s << all; }
    std::vector<std::string> args = op["args"], more = {"--plain-text-lexicon", txt};
    std::unique_ptr<Annotator> a;
    if (op["bin"].get<bool>()) {        // compiled first, then loaded
        bool have = kept.count(all);
        int n = have ? kept[all] : (int)kept.size();
        std::string bin = scratch.d + "/bin" + std::to_string(n);
        if (!have) {
            a.reset(create(f, args, {"--plain-text-lexicon", txt, "--save-binary-lexicon", bin}));
            kept[all] = n;
        }
        more = {"--binary-lexicon", bin};
    }
    a.reset(create(f, args, more));
    a->annotate(*run.lat);
    if (op["twice"].get<bool>()) {      // the same annotator, another document, and this one again
        AnnotationItemManager aim;
        Lattice other(aim, "other");
        AnnotationItem tok("T", StringFrag("other"));
        other.addEdge(0, 5, tok, other.getLayerTagManager().createTagCollectionFromListWithLangCode({"token"}, "x"));
        a->annotate(other);
        a->annotate(*run.lat);
    }
}
