// Runs scripts against the real PipeRunner with the toolkit's own processors (those that need no external library).
// The keeper of the processors (framework/main_factories_keeper.cpp) is replaced by one that knows them.
// Every episode and every run on its own happens in a process of its own, started from one that has run nothing.
#include "vjson.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sstream>
#include <boost/foreach.hpp>
#include <boost/program_options.hpp>
#include "logging.hpp"
#include "txt_lattice_reader.hpp"
#include "utt_lattice_reader.hpp"
#include "psi_lattice_reader.hpp"
#include "psi_lattice_writer.hpp"
#include "simple_lattice_writer.hpp"
#include "bracketing_lattice_writer.hpp"
#include "morphology_lattice_writer.hpp"
#include "phrases_lattice_writer.hpp"
#include "json_lattice_writer.hpp"
#include "dot_lattice_writer.hpp"
#include "tp_tokenizer.hpp"
#include "srx_segmenter.hpp"
#include "lang_guesser.hpp"
#include "gobio.hpp"
#include "puddle.hpp"
#include "unumsunt.hpp"
#include "simplenorm_normalizer.hpp"
#include "detok.hpp"
#include "lemmatizer_annotator.hpp"
#include "lamerlemma.hpp"
#include "one_edge_at_a_time_annotator.hpp"
#include "bilexicon.hpp"
#include "mapper.hpp"
#include "joiner.hpp"
#include "selector.hpp"
#include "antiselector.hpp"
#include "framework/main_factories_keeper.hpp"
#include "framework/pipe_runner.hpp"

MainFactoriesKeeper::MainFactoriesKeeper() {
    keeper_.addTagBasedIzeAliases("token", "token");
    keeper_.addTagBasedAlias("segment", "segment");
    keeper_.addTagBasedIzeAliases("lemma", "lemmat");
    keeper_.takeProcessorFactory(new TxtLatticeReader::Factory());
    keeper_.takeProcessorFactory(new UTTLatticeReader::Factory());
    keeper_.takeProcessorFactory(new PsiLatticeReader::Factory());
    keeper_.takeProcessorFactory(new PsiLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new SimpleLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new BracketingLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new MorphologyLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new PhrasesLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new JSONLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new DotLatticeWriter::Factory());
    keeper_.takeProcessorFactory(new TpTokenizer::Factory());
    keeper_.takeProcessorFactory(new SrxSegmenter::Factory());
    keeper_.takeProcessorFactory(new LangGuesser::Factory());
    keeper_.takeProcessorFactory(new Gobio::Factory());
    keeper_.takeProcessorFactory(new Unumsunt::Factory());
    keeper_.takeProcessorFactory(new SimplenormNormalizer::Factory());
    keeper_.takeProcessorFactory(new LemmatizerAnnotator<LamerLemma>::Factory());
    keeper_.takeProcessorFactory(new poleng::bonsai::puddle::Puddle::Factory());
    keeper_.takeProcessorFactory(new Detok::Factory());
    keeper_.takeProcessorFactory(new OneEdgeAtATimeAnnotator<BiLexicon>::Factory());
    keeper_.takeProcessorFactory(new OneEdgeAtATimeAnnotator<Mapper>::Factory());
    keeper_.takeProcessorFactory(new Joiner::Factory());
    keeper_.takeProcessorFactory(new Selector::Factory());
    keeper_.takeProcessorFactory(new Antiselector::Factory());
}
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(std::string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(std::string n) { return keeper_.getProcessorFactory(n); }
std::vector<std::string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
std::set<std::string> MainFactoriesKeeper::getAliasNames() { return keeper_.getAliasNames(); }
std::set<std::string> MainFactoriesKeeper::getAllAliases(std::string d) { return keeper_.getAllAliases(d); }
std::list<ProcessorFactory*> MainFactoriesKeeper::getProcessorFactoriesForName(std::string n) { return keeper_.getProcessorFactoriesForName(n); }

const char* g_GIT_SHA1 = "x";
const char* g_GIT_LAST_DATE = "GIT-NOTFOUND";

static std::string dir;
static std::string put(std::string s) {         // @D@ stands for the scratch directory
    for (size_t p; (p = s.find("@D@")) != std::string::npos;) s.replace(p, 3, dir);
    return s;
}
typedef std::vector<std::string> Strs;
static std::map<std::string, Strs> pipes;
static PipeRunner* runner(const std::string& p, bool byLine) {
    Strs a;
    if (byLine) a.push_back("--line-by-line");
    for (auto& x : pipes.at(p)) a.push_back(x);
    return new PipeRunner(a);
}
static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) std::stoi(h.substr(i, 2), 0, 16);
    return r;
}
// a line: a sequence of characters, or of bytes (for encodings)
static std::string textOf(const J& t) {
    std::string r;
    if (t.is_object()) return unhex(t["hex"]);
    for (auto& c : t) r += c.get<std::string>();
    return r;
}
static std::string join(const J& ls, bool final) {
    std::string r;
    for (size_t i = 0; i < ls.size(); ++i) {
        r += textOf(ls[i]);
        if (i + 1 < ls.size() || final) r += "\n";
    }
    return r;
}
// f: writes to the stream; the result says what has been written and whether it failed
template<class F> static J outcome(F f) {
    std::ostringstream out;
    bool fail = false;
    try { f(out); }
    catch (std::exception& ex) { fail = true; if (getenv("SHOWFAIL")) std::cerr << ex.what() << "\n"; }
    catch (...) { fail = true; if (getenv("SHOWFAIL")) std::cerr << "something thrown\n"; }
    return J{{"out", safe(out.str())}, {"fail", fail}};
}
// f in a process of its own
template<class F> static J apart(F f) {
    int fd[2];
    if (pipe(fd)) _exit(70);
    pid_t k = fork();
    if (!k) {
        close(fd[0]);
        alarm(120);
        std::string s = f().dump();
        for (size_t i = 0; i < s.size();) { ssize_t n = write(fd[1], s.data() + i, s.size() - i); if (n <= 0) _exit(71); i += n; }
        _exit(0);
    }
    close(fd[1]);
    std::string s; char b[65536];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) s.append(b, n);
    close(fd[0]);
    int st = 0;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || s.empty()) return J{{"out", "crash"}, {"fail", true}};
    return J::parse(s);
}
static J aloneRun(const J& e) {
    std::string mode = e["mode"], p = e["p"];
    return outcome([&](std::ostream& o) {
        std::unique_ptr<PipeRunner> r(runner(p, false));
        if (mode == "line") o << r->run(textOf(e["ls"][0]));
        else { std::istringstream in(join(e["ls"], e["final"])); r->run(in, o); }
    });
}

int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    std::ifstream in(argv[1]);
    Trace trace(argv[2]);
    dir = std::string(argv[2]) + ".d";          // the scratch directory
    mkdir(dir.c_str(), 0755);
    if (chdir(argv[3])) return 70;              // a subdirectory of the sources: "../" is where their data is
    std::vector<J> ops;
    for (std::string line; std::getline(in, line);) ops.push_back(J::parse(line));
    // first: runs on their own; the process that starts them has run nothing
    for (size_t i = 0; i < ops.size();) {
        size_t j = i + 1;
        while (j < ops.size() && ops[j]["op"] != "reset") ++j;
        pipes.clear();
        std::vector<J> results;
        for (size_t k = i; k < j; ++k) {
            J& e = ops[k];
            std::string op = e["op"];
            if (op == "file") { std::ofstream(dir + "/" + e["n"].get<std::string>()) << e["text"].get<std::string>(); e["text"] = ""; }
            else if (op == "pipe") { Strs a; for (auto& x : e["args"]) a.push_back(put(x)); pipes[e["p"]] = a; }
            else if (op == "alone") e.update(apart([&] { return aloneRun(e); }));
        }
        // then everything else, in one process
        J rest = apart([&] {
            std::map<std::string, PipeRunner*> runners;
            J r = J::array();
            for (size_t k = i; k < j; ++k) {
                const J& e = ops[k];
                std::string op = e["op"];
                J x = J::object();
                if (op == "new") x = outcome([&](std::ostream&) { PipeRunner* x = runner(e["p"], e["byline"]); runners[e["r"]] = x; });
                else if (op == "feed") x = outcome([&](std::ostream& o) {
                    std::istringstream s(join(e["ls"], e["final"]));
                    if (!runners.count(e["r"])) throw std::runtime_error("no runner");
                    runners[e["r"]]->run(s, o);
                });
                else if (op == "one") x = outcome([&](std::ostream& o) {
                    if (!runners.count(e["r"])) throw std::runtime_error("no runner");
                    runners[e["r"]]->runLine(textOf(e["ls"][0]), o);
                });
                r.push_back(x);
            }
            return J{{"r", r}};
        });
        for (size_t k = i; k < j; ++k) {
            J& e = ops[k];
            std::string op = e["op"];
            if (op == "new" || op == "feed" || op == "one") {
                if (rest.count("r")) e.update(rest["r"][k - i]);
                else e.update(rest);
            }
            trace.emit(e);
        }
        i = j;
    }
    return 0;
}
