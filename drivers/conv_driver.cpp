// The selector, the anti-selector and the joiner, created from their command-line options, run on the
// documents of lattice_driver.cpp (spec/ConvTrace.tla reads the trace).
#include "lattice_common.hpp"
#include "selector.hpp"
#include "antiselector.hpp"
#include "joiner.hpp"
#include <boost/program_options.hpp>
struct Run;
static void convert(Run& run, const std::string& o, J& op);
#define MORE_OPS convert
#include "lattice_driver.cpp"

namespace po = boost::program_options;
static void convert(Run& run, const std::string& o, J& op) {
    std::unique_ptr<AnnotatorFactory> f;
    if (o == "selector") f.reset(new Selector::Factory());
    else if (o == "antiselector") f.reset(new Antiselector::Factory());
    else if (o == "joiner") f.reset(new Joiner::Factory());
    else return;
    J order = J::array();
    Lattice::VertexIterator vi(*run.lat);
    while (vi.hasNext()) order.push_back(vi.next());
    op["order"] = order;
    std::vector<std::string> args = op["args"];
    po::options_description d = f->optionsHandled();
    po::variables_map vm;
    po::store(po::command_line_parser(args).options(d).run(), vm);
    po::notify(vm);
    std::unique_ptr<Annotator> a(f->createAnnotator(vm));
    a->annotate(*run.lat);
}
