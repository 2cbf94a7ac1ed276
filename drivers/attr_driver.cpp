// Steps real AnnotationItems (one AnnotationItemManager) through a script; logs the complete
// observable state after every operation (spec/AttrTrace.tla).
#include "vjson.hpp"
#include "annotation_item.hpp"
#include "annotation_item_manager.hpp"
#include "string_frag.hpp"
#include <memory>
#include <deque>
#include <set>

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    Trace tr(argv[2]);
    std::unique_ptr<AnnotationItemManager> m;
    std::vector<std::unique_ptr<AnnotationItem> > items;
    std::deque<std::string> texts;                 // documents the items' texts are cut from
    std::set<std::string> names;
    std::string line;
    auto frag = [&](const std::string& x, const std::string& src) {
        if (src == "text") { texts.push_back("ab" + x + "cd"); return StringFrag(texts.back(), 2, x.size()); }
        return StringFrag(x);
    };
    while (std::getline(in, line)) {
        J op = J::parse(line);
        std::string o = op["op"];
        auto at = [&]() -> AnnotationItem& { return *items.at(op["i"].get<int>() - 1); };
        if (o == "reset") { items.clear(); names.clear(); m.reset(new AnnotationItemManager()); }
        else if (o == "new") {
            std::string c = op["c"], x = op["x"], src = op.value("src", std::string("own"));
            if (src == "none") { items.emplace_back(new AnnotationItem(c)); }
            else items.emplace_back(new AnnotationItem(c, frag(x, src)));
        }
        else if (o == "copy") items.emplace_back(new AnnotationItem(AnnotationItem(at())));
        else if (o == "recat") items.emplace_back(new AnnotationItem(at(), op["c"].get<std::string>()));
        else if (o == "retext") items.emplace_back(new AnnotationItem(at(), frag(op["x"], op.value("src", std::string("own")))));
        else if (o == "recattext") items.emplace_back(new AnnotationItem(at(), op["c"].get<std::string>(), frag(op["x"], op.value("src", std::string("own")))));
        else if (o == "setcat") m->setCategory(at(), op["c"]);
        else if (o == "set") {
            std::string how = op["how"], v = op["v"], n = op["name"];
            names.insert(n);
            if (how == "text") m->setValue(at(), n, v);
            else if (how == "symbol") m->setStringValue(at(), n, v);
            else if (how == "int") m->setValue(at(), n, std::stoi(op["num"].get<std::string>()));
            else if (how == "bool") m->setValue(at(), n, m->from_bool(v == "true"));
            else if (how == "zvalue") m->setValue(at(), n, op["num"] != "" ? m->from_int(std::stoi(op["num"].get<std::string>())) : m->from_string(v));
        }
        else if (o == "addvalues") m->addValues(at(), *items.at(op["j"].get<int>() - 1));
        else { std::cout << "unknown " << o; return 77; }
        J st = J::array(), eq = J::array(), ne = J::array(), heq = J::array();
        std::set<std::string> ask(names.begin(), names.end());
        ask.insert("never set");
        for (auto& p : items) {
            AnnotationItem& it = *p;
            J s;
            s["c"] = safe(m->getCategory(it) == it.getCategory() ? it.getCategory() : "categories differ");
            s["x"] = safe(it.getText() == it.getTextAsStringFrag().str() ? it.getText() : "texts differ");
            J list = J::array(), mp = J::array(), get = J::array();
            for (auto& kv : m->getValues(it)) list.push_back(J::array({kv.first, safe(kv.second)}));
            for (auto& kv : m->getAVMap(it)) mp.push_back(J::array({kv.first, safe(kv.second)}));
            for (auto& n : ask) {
                zvalue z = m->getValue(it, n);
                J g;
                g["n"] = n; g["s"] = safe(m->getValueAsString(it, n));
                g["int"] = m->is_int(z); g["no"] = m->is_false(z); g["yes"] = m->is_true(z); g["any"] = m->is_any(z);
                g["num"] = m->is_int(z) ? std::to_string(m->to_int(z)) : "";
                get.push_back(g);
            }
            s["list"] = list; s["map"] = mp; s["get"] = get;
            st.push_back(s);
            J e1 = J::array(), n1 = J::array(), h1 = J::array();
            for (auto& q : items) { e1.push_back(it == *q); n1.push_back(it != *q); h1.push_back(it.getHash() == q->getHash()); }
            eq.push_back(e1); ne.push_back(n1); heq.push_back(h1);
        }
        op["st"] = st; op["eq"] = eq; op["ne"] = ne; op["heq"] = heq;
        tr.emit(op);
    }
    return 0;
}
