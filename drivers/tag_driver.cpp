// Steps a real LayerTagManager through a script; after every operation logs every collection and
// condition made so far as the public interface shows it (spec/TagTrace.tla).
#include "vjson.hpp"
#include "layer_tag_manager.hpp"
#include <memory>

typedef std::list<std::string> L;
static L strs(const J& a) { L r; for (auto& x : a) r.push_back(x); return r; }
static J jl(const L& l) { J r = J::array(); for (auto& x : l) r.push_back(safe(x)); return r; }

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    Trace tr(argv[2]);
    std::unique_ptr<LayerTagManager> m;
    std::vector<LayerTagCollection> cs;
    std::vector<LayerTagMask> ms;
    std::string line;
    while (std::getline(in, line)) {
        J op = J::parse(line);
        std::string o = op["op"];
        auto coll = [&](const char* f) -> LayerTagCollection& { return cs.at(op[f].get<int>() - 1); };
        auto mask = [&]() -> LayerTagMask& { return ms.at(op["m"].get<int>() - 1); };
        J res = false;
        if (o == "reset") { cs.clear(); ms.clear(); m.reset(new LayerTagManager()); }
        else if (o == "coll") {
            std::string how = op["how"];
            L ns = strs(op["names"]);
            std::vector<std::string> v(ns.begin(), ns.end());
            if (how == "empty") cs.push_back(m->createEmptyTagCollection());
            else if (how == "single") cs.push_back(m->createSingletonTagCollection(ns.front()));
            else if (how == "list") cs.push_back(m->createTagCollection(ns));
            else if (how == "vector") cs.push_back(m->createTagCollection(v));
            else if (how == "fromlist") cs.push_back(m->createTagCollectionFromList(ns));
            else if (how == "fromvector") cs.push_back(m->createTagCollectionFromVector(v));
            else if (how == "spec") cs.push_back(m->createTagCollection(op["spec"].get<std::string>()));
            else if (how == "singlelang") cs.push_back(m->createSingletonTagCollectionWithLangCode(ns.front(), op["lang"]));
            else if (how == "listlang") cs.push_back(m->createTagCollectionFromListWithLangCode(ns, op["lang"]));
            else if (how == "lang") cs.push_back(m->createLanguageTag(op["lang"]));
            else return 77;
        }
        else if (o == "union") cs.push_back(createUnion(coll("a"), coll("b")));
        else if (o == "inter") cs.push_back(createIntersection(coll("a"), coll("b")));
        else if (o == "onlyplane") cs.push_back(m->onlyPlaneTags(coll("a")));
        else if (o == "planetags") cs.push_back(m->planeTags());
        else if (o == "mask") {
            std::string how = op["how"];
            if (how == "any") ms.push_back(m->anyTag());
            else if (how == "none") ms.push_back(m->getAlternativeMask(std::vector<LayerTagCollection>()));
            else if (how == "coll") ms.push_back(m->getMask(coll("a")));
            else if (how == "alt2") ms.push_back(m->getAlternativeMask(coll("a"), coll("b")));
            else if (how == "alt3") ms.push_back(m->getAlternativeMask(coll("a"), coll("b"), coll("c")));
            else if (how == "altv") {
                std::vector<LayerTagCollection> v;
                for (auto& k : op["cs"]) v.push_back(cs.at(k.get<int>() - 1));
                ms.push_back(m->getAlternativeMask(v));
            }
            else if (how == "spec") ms.push_back(m->getMask(op["spec"].get<std::string>()));
            else if (how == "single") ms.push_back(m->getSingletonMask(op["alts"][0][0]));
            else if (how == "list") ms.push_back(m->getMask(strs(op["alts"][0])));
            else if (how == "fromlist") ms.push_back(m->getMaskFromList(strs(op["alts"][0])));
            else if (how == "vector") { L l = strs(op["alts"][0]); ms.push_back(m->getMask(std::vector<std::string>(l.begin(), l.end()))); }
            else if (how == "singlelang") ms.push_back(m->getMaskWithLangCode(op["alts"][0][0].get<std::string>(), op["lang"]));
            else if (how == "listlang") ms.push_back(m->getMaskWithLangCode(strs(op["alts"][0]), op["lang"]));
            else if (how == "names" || how == "nameslang") {
                std::list<L> alts;
                for (auto& a : op["alts"]) alts.push_back(strs(a));
                if (how == "nameslang") alts = LayerTagManager::multiplyMaskListByLangCode(alts, op["lang"]);
                ms.push_back(m->getAlternativeMaskFromTagNames(alts));
            }
            else return 77;
        }
        else if (o == "isnone") res = mask().isNone();
        else if (o == "issome") res = mask().isSome();
        else if (o == "isthere") res = m->isThere(op["name"], coll("a"));
        else if (o == "splitmask") {
            res = J::array();
            for (auto& a : LayerTagManager::splitMaskSpecification(op["spec"])) res.push_back(jl(a));
        }
        else if (o == "splitcoll") res = jl(LayerTagManager::splitCollectionSpecification(op["spec"]));
        else return 77;
        op["res"] = res;
        J c = J::array(), sub = J::array(), eq = J::array(), ne = J::array(), heq = J::array(), same = J::array();
        for (auto& a : cs) {
            c.push_back(J::object({{"g", jl(m->getTagNames(a))}, {"empty", a.isEmpty()}, {"nonempty", a.isNonempty()}}));
            J r1 = J::array(), r2 = J::array(), r3 = J::array(), r4 = J::array(), r5 = J::array();
            for (auto& b : cs) {
                r1.push_back(isSubset(a, b)); r2.push_back(a == b); r3.push_back(a != b);
                r4.push_back(a.getHash() == b.getHash()); r5.push_back(m->areInTheSamePlane(a, b));
            }
            sub.push_back(r1); eq.push_back(r2); ne.push_back(r3); heq.push_back(r4); same.push_back(r5);
        }
        J mm = J::array(), meq = J::array(), mheq = J::array();
        for (auto& k : ms) {
            J r = J::array(), r2 = J::array(), r3 = J::array();
            for (auto& a : cs) r.push_back(matches(a, k));
            for (auto& q : ms) { r2.push_back(k == q); r3.push_back(k.getHash() == q.getHash()); }
            mm.push_back(J::object({{"any", k.isAny()}, {"sym", m->canBeAppliedToImplicitSymbol(k)}, {"match", r}}));
            meq.push_back(r2); mheq.push_back(r3);
        }
        op["C"] = c; op["sub"] = sub; op["eq"] = eq; op["ne"] = ne; op["heq"] = heq; op["same"] = same;
        op["ms"] = mm; op["meq"] = meq; op["mheq"] = mheq;
        tr.emit(op);
    }
    return 0;
}
