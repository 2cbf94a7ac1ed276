// Runs scripts against the finite automata of tools/datastructures/psi_query.
#include "vjson.hpp"
#include <set>
#include <map>
#include <memory>
#include <algorithm>
#include "logging.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_algorithms.hpp"
typedef fsa::NDFSA<> N;
typedef fsa::DFSA<> D;

template<class F> static J dump(const F& a) {
    J d = J::array(), s = J::array(), f = J::array();
    for (size_t p = 0; p < a.size(); ++p) {
        auto r = a.getArcs(p);
        for (auto i = r.first; i != r.second; ++i) d.push_back(J{int(p), int(i->getSymbol()), int(i->getDest())});
    }
    for (auto x : a.getStartStates()) s.push_back(int(x));
    for (auto x : a.getEndStates()) f.push_back(int(x));
    return J{{"n", int(a.size())}, {"s", s}, {"f", f}, {"d", d}};
}
static std::string str(const J& j) { std::string r; for (auto& x : j) r += char(x.get<int>()); return r; }
template<class F> static J words(F& a, size_t depth) {
    std::vector<std::string> out;
    fsa::language<F, std::back_insert_iterator<std::vector<std::string> >, std::string>(a, std::back_inserter(out), depth);
    J r = J::array();
    for (auto& w : out) { J x = J::array(); for (unsigned char c : w) x.push_back(int(c)); r.push_back(x); }
    return r;
}

int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    std::ifstream in(argv[1]);
    Trace trace(argv[2]);
    std::map<int, std::shared_ptr<N> > A;
    D det;
    for (std::string line; std::getline(in, line);) {
        J e = J::parse(line);
        std::string op = e["op"];
        alarm(30);
        if (op == "reset") A.clear();
        else if (op == "build") {
            std::shared_ptr<N> a(new N);
            const J& m = e["m"];
            for (int i = 0; i < m["n"].get<int>(); ++i) a->addState();
            for (auto& x : m["s"]) a->setStartState(x.get<int>());
            for (auto& x : m["f"]) a->setEndState(x.get<int>());
            for (auto& x : m["d"]) a->addArc(x[0].get<int>(), N::arc_type(x[1].get<int>(), x[2].get<int>()));
            A[e["a"]] = a;
        } else if (op == "word") {
            std::string w = str(e["w"]);
            if (e["how"] == "symbol") A[e["a"]].reset(new N(fsa::Symbol(w[0])));
            else if (e["how"] == "string") A[e["a"]].reset(new N(w));
            else A[e["a"]].reset(new N(w.begin(), w.end()));
        } else if (op == "apply") {
            N& a = *A.at(e["a"]);
            std::string f = e["f"];
            if (f == "reverse") fsa::reverse(a);
            else if (f == "reachable") fsa::reachable(a);
            else if (f == "prune") fsa::prune(a);
            else if (f == "epsRemove") fsa::epsRemove(a);
            else if (f == "determinize") fsa::determinize(a);
            else if (f == "minimize") fsa::minimize(a);
            else if (f == "option") fsa::kleene_option(a);
            else if (f == "plus") fsa::kleene_plus(a);
            else if (f == "star") fsa::kleene_star(a);
            else return 77;
        } else if (op == "combine") {
            N& a = *A.at(e["a"]); N& b = *A.at(e["b"]);
            std::string f = e["f"];
            if (f == "unify") fsa::unify(a, b);
            else if (f == "concatenate") fsa::concatenate(a, b);
            else if (f == "intersect") fsa::intersect(a, b);
            else if (f == "intersectAny") fsa::intersect(a, b, true);
            else if (f == "assign") a = b;
            else if (f == "swap") a.swap(b);
            else return 77;
            e["other"] = dump(b);
        } else if (op == "in") {
            std::string w = str(e["w"]);
            e["res"] = A.at(e["a"])->in(w.begin(), w.end());
        } else if (op == "todet") { // copied into a deterministic automaton, and asked as one
            D d; d = *A.at(e["a"]);
            J r = J::array();
            for (auto& w : e["ws"]) { std::string s = str(w); r.push_back(d.in(s.begin(), s.end())); }
            e["res"] = r;
            e["lang"] = words(d, e["k"].get<int>());
        } else if (op == "incremental") {
            std::vector<std::string> ws;
            for (auto& w : e["ws"]) ws.push_back(str(w));
            D d;
            fsa::minimize_incremental(d, ws.begin(), ws.end());
            e["got"] = dump(d);
        } else return 77;
        if (e.contains("a")) e["now"] = dump(*A.at(e["a"]));
        trace.emit(e);
    }
    return 0;
}
