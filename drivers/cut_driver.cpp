// Tokenizer and segmenter of the tool-kit, run on texts directly and on documents (spec/CutTrace.tla reads the trace).
#include "vjson.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <stdlib.h>
#include <boost/scoped_ptr.hpp>
#include "string_helpers.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "tp_tokenizer.hpp"
#include "tp_token_cutter.hpp"
#include "srx_segmenter.hpp"
#include "logging.hpp"

struct Scratch {
    std::string d;
    Scratch() { char b[] = "/tmp/cut_driver.XXXXXX"; if (!mkdtemp(b)) exit(77); d = b; }
    ~Scratch() { std::string c = "rm -rf '" + d + "'"; if (d.size() > 10) (void)!system(c.c_str()); }
    int n = 0;
    std::string put(const std::string& s) {
        std::string f = d + "/f" + std::to_string(++n);
        std::ofstream(f.c_str()) << s;
        return f;
    }
};

static std::string text(const J& t) { std::string s; for (auto& c : t) s += c.get<std::string>(); return s; }

struct Run {
    Scratch& sc;
    std::string kind, lang;
    std::unique_ptr<Annotator> ann;
    std::unique_ptr<TPBasicTokenizerRuleSet> rs;
    std::unique_ptr<Cutter> cut;
    std::list<std::string> kept;
    explicit Run(Scratch& s) : sc(s) { }
    std::list<std::string> langs;

    void make(J& o) {
        kind = o["kind"]; langs.push_back(o["lang"]); const std::string& lg = langs.back(); lang = lg;
        size_t hard = o["hard"].get<int>(), soft = o["soft"].get<int>();
        cut.reset(); ann.reset(); rs.reset();
        try {
            if (kind == "tok") {
                std::map<std::string, boost::filesystem::path> mapping;
                std::map<std::string, std::string> paths;
                for (auto& f : o["files"]) {
                    std::string p = sc.put(f["text"]);
                    mapping[f["name"]] = p; paths[f["name"]] = p;
                }
                std::string main = sc.put(o["text"]);
                paths["main"] = main;
                std::list<std::string> l; l.push_back("main");
                std::unique_ptr<TPBasicTokenizerRuleSet> r(new TPBasicTokenizerRuleSet());
                r->load(paths, l);
                rs = std::move(r);
                cut.reset(new TpTokenCutter(lang, *rs, hard, soft));
                ann.reset(new TpTokenizer(lang, main, mapping, hard, soft));
            } else {
                std::string p = sc.put(o["text"]);
                ann.reset(new SrxSegmenter(lg, p, hard, soft, o["force"].get<bool>()));
            }
            o["r"] = "ok";
        } catch (std::exception& e) { o["r"] = "error"; cut.reset(); ann.reset(); }
        o["rc"] = J::array();
        if (rs) for (size_t i = 0; i < rs->getRegexCount(); ++i) o["rc"].push_back(rs->getRegexCategory(i));
    }
    template <class S> void pieces(J& o, const S& t, size_t len) {
        o["ps"] = J::array();
        try {
            if (o["reset"].get<bool>()) cut->reset();
            size_t pos = 0;
            int guard = 0;
            while (pos != std::string::npos && pos < len) {
                AnnotationItem it = cut->cutOff(t, pos);
                J p; p["c"] = safe(it.getCategory()); p["x"] = safe(it.getText());
                o["ps"].push_back(p);
                if (++guard > 200) { o["r"] = "endless"; return; }
            }
            o["r"] = "ok";
        } catch (std::exception& e) { o["r"] = "error"; }
    }
    void step(J& o) {
        std::string op = o["op"];
        if (op == "reset") make(o);
        else if (op == "cut") {
            kept.push_back(text(o["t"]));
            if (!cut) { o["r"] = "none"; o["ps"] = J::array(); return; }
            const std::string& x = kept.back();
            int how = o["how"];
            if (how == 1) { StringFrag f(x); pieces(o, f, f.length()); }
            else if (how == 2) {
                kept.push_back("b." + x + "ca ");
                StringFrag f(kept.back(), 2, x.size());
                pieces(o, f, f.length());
            } else pieces(o, x, x.length());
        } else if (op == "lat") {
            if (!ann) { o["r"] = "none"; o["es"] = J::array(); o["old"] = true; return; }
            std::string x = text(o["t"]);
            AnnotationItemManager m; Lattice lat(m, "");
            lat.appendStringWithSymbols(x);
            std::vector<int> at(1, 0);
            for (auto& c : utf8chars(x)) at.push_back(at.back() + int(c.size()));
            for (auto& e : o["te"]) {
                int s = at[e["s"].get<int>()], t = at[e["t"].get<int>()];
                std::list<std::string> g; g.push_back("text");
                g.push_back(LayerTagManager::getLanguageTag(e["g"]));
                Lattice::EdgeSequence::Builder b(lat);
                lat.addEdge(s, t, AnnotationItem("TEXT", StringFrag(x.substr(s, t - s))),
                            lat.getLayerTagManager().createTagCollection(g), b.build());
            }
            if (!o["ins"].empty()) lat.correctionInsert(at[o["ins"][0].get<int>()], std::string(o["ins"][1].get<int>(), 'z'));
            std::map<int, int> back;   // the points along the way through the text, an inserted text included
            back[0] = 0;
            for (int v = 0, i = 0;;) {
                Lattice::InOutEdgesIterator oi = lat.outEdges(v, lat.getSymbolMask());
                bool any = false; int to = 0;
                while (oi.hasNext()) { to = lat.getEdgeTarget(oi.next()); any = true; }
                if (!any) break;
                v = to; back[v] = ++i;
            }
            int before = count(lat);
            try {
                ann->annotate(lat);
                o["r"] = "ok";
            } catch (std::exception& e) { o["r"] = "error"; }
            LayerTagMask any = lat.getLayerTagManager().anyTag();
            o["es"] = J::array();
            int rest = 0;
            Lattice::EdgesSortedBySourceIterator it(lat, any);
            while (it.hasNext()) {
                Lattice::EdgeDescriptor e = it.next();
                std::list<std::string> tn = lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(e));
                std::set<std::string> g(tn.begin(), tn.end());
                if (!g.count("token") && !g.count("segment")) { ++rest; continue; }
                J j;
                int s = lat.getEdgeSource(e), t = lat.getEdgeTarget(e);
                j["s"] = back.count(s) ? back[s] : -1; j["t"] = back.count(t) ? back[t] : -1;
                j["c"] = safe(lat.getAnnotationCategory(e)); j["x"] = safe(lat.getAnnotationText(e));
                j["g"] = J::array(); for (auto& x : g) j["g"].push_back(x);
                std::list<Lattice::Partition> ps = lat.getEdgePartitions(e);
                bool ok = !ps.empty();
                for (Lattice::Partition& p : ps) {
                    int v = s;
                    Lattice::Partition::Iterator pi(lat, p);
                    while (pi.hasNext()) {
                        Lattice::EdgeDescriptor c = pi.next();
                        ok = ok && lat.getEdgeSource(c) == v
                            && lat.getLayerTagManager().isThere("symbol", lat.getEdgeLayerTags(c));
                        v = lat.getEdgeTarget(c);
                    }
                    ok = ok && v == t;
                }
                j["ok"] = ok;
                o["es"].push_back(j);
            }
            o["old"] = rest == before;
            if (o["r"] == "ok") {
                int now = count(lat);
                try { ann->annotate(lat); } catch (std::exception&) { }
                o["old"] = o["old"].get<bool>() && count(lat) == now;
            }
        }
    }
    static int count(Lattice& lat) {
        int n = 0;
        Lattice::EdgesSortedBySourceIterator it(lat, lat.getLayerTagManager().anyTag());
        while (it.hasNext()) { it.next(); ++n; }
        return n;
    }
};

int main(int argc, char** argv) {
    SET_LOGGING_LEVEL("FATAL");
    std::ifstream in(argv[1]);
    Trace trace(argv[2]);
    Scratch sc;
    Run run(sc);
    for (std::string line; std::getline(in, line);) {
        J e = J::parse(line);
        alarm(30);
        run.step(e);
        e.erase("text");
        if (e.contains("files")) for (auto& f : e["files"]) f.erase("text");
        trace.emit(e);
    }
    return 0;
}
