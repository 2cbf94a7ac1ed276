// The mapper and the bilingual lexicon, created from their command-line options, run on the documents of
// lattice_driver.cpp (spec/MapTrace.tla reads the trace).
#include "lattice_common.hpp"
#include "one_edge_at_a_time_annotator.hpp"
#include "mapper.hpp"
#include "bilexicon.hpp"
#include "logging.hpp"
#include <stdlib.h>
#include <unistd.h>
#include <boost/program_options.hpp>
struct Run;
static void convert(Run& run, const std::string& o, J& op);
#define MORE_OPS convert
#include "lattice_driver.cpp"

struct Scratch {
    std::string d;
    Scratch() { char b[] = "/tmp/map_driver.XXXXXX"; if (!mkdtemp(b)) exit(77); d = b;
                SET_LOGGING_LEVEL("FATAL"); (void)!freopen("/dev/null", "w", stderr); }
    ~Scratch() { std::string c = "rm -rf '" + d + "'"; if (d.size() > 10) (void)!system(c.c_str()); }
} scratch;
namespace po = boost::program_options;
static Annotator* create(AnnotatorFactory& f, std::vector<std::string> args, const std::vector<std::string>& more) {
    args.insert(args.end(), more.begin(), more.end());
    po::options_description d = f.optionsHandled();
    po::variables_map vm;
    po::store(po::command_line_parser(args).options(d).run(), vm);
    po::notify(vm);
    return f.createAnnotator(vm);
}
static void convert(Run& run, const std::string& o, J& op) {
    std::unique_ptr<AnnotatorFactory> f;
    if (o == "mapper") f.reset(new OneEdgeAtATimeAnnotator<Mapper>::Factory());
    else if (o == "bilexicon") f.reset(new OneEdgeAtATimeAnnotator<BiLexicon>::Factory());
    else return;
    op["order"] = J::array();
    Lattice::EdgesSortedByTargetIterator it = run.lat->edgesSortedByTarget(run.mask(op["in"]));
    while (it.hasNext()) op["order"].push_back(run.view->ref(it.next()));
    std::string txt = scratch.d + "/text", bin = scratch.d + "/bin";
    {
        std::ofstream s(txt.c_str());
        for (auto& l : op["lines"]) s << l.get<std::string>() << "\n";
    }
    std::vector<std::string> args = op["args"], more = {"--plain-text-lexicon", txt};
    std::unique_ptr<Annotator> a;
    if (op["bin"].get<bool>()) {        // compiled first, then loaded
        a.reset(create(*f, args, {"--plain-text-lexicon", txt, "--save-binary-lexicon", bin}));
        more = {"--binary-lexicon", bin};
    }
    a.reset(create(*f, args, more));
    a->annotate(*run.lat);
}
