"""Planted bugs in the items and the server (re-creates seeded/<id>)."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed, SERVER_SH
N = '''#include <cstdio>
#include <string>
#include <list>
#include <vector>
#include <fstream>
#include <cstdlib>
#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
PARSE = N + '''
#include "request_parser.hpp"
#include "request.hpp"
using namespace http::server3;
static int feed(request_parser& p, request& q, const std::string& s) {
    boost::tribool r; std::string::const_iterator e;
    boost::tie(r, e) = p.parse(q, s.begin(), s.end());
    return r ? 1 : !r ? 0 : 2; }
int main() {
'''
mkseed("P14-counter-after-abort", "P14", [
 ("server/server/request_parser.cpp", "  : state_(method_start), post_data_length_(0), post_data_length_counter_(0)\n", "  : state_(method_start), post_data_length_(0), post_data_length_counter_(1)\n"),
 ("server/server/request_parser.cpp", "    post_data_length_counter_ = 1;\n    post_data_length_ = 0;\n", "    post_data_length_ = 0;\n"),
 ("server/server/request_parser.cpp", """        else {
            req.post_data += input;
            return true;
        }
    }
    else {
        return false;
    }
  case multipart_start:""", """        else {
            req.post_data += input;
            post_data_length_counter_ = 1;
            return true;
        }
    }
    else {
        return false;
    }
  case multipart_start:"""),
 ("server/server/request_parser.cpp", """  else {
        req.post_data += input;
        return true;
    }
  default:""", """  else {
        req.post_data += input;
        post_data_length_counter_ = 1;
        return true;
    }
  default:"""),
], PARSE + '''
    request_parser p; request q;
    NEED(feed(p, q, "POST /x HTTP/1.1\\r\\nContent-Length: 4\\r\\n\\r\\nab") == 2);
    p.reset(); q = request();
    NEED(feed(p, q, "POST /x HTTP/1.1\\r\\nContent-Length: 4\\r\\n\\r\\nabc") == 2);
    NEED(feed(p, q, "d") == 1 && q.post_data == "abcd");
    return 0; }
''', "a POST request abandoned in the middle of its body, a reset, and another POST request to the same parser",
 "the second request is accepted before its last body byte", demo_sh=SERVER_SH)
PAGES = N + '''
#include "psi_server.hpp"
#include "psi_request_handler.hpp"
#include "session_manager.hpp"
#include "file_storage.hpp"
#include "request_handler.hpp"
#include "logging.hpp"
#include <sys/stat.h>
using namespace http::server3;
static void put(const char* p, const std::string& c) { std::ofstream o(p); o << c; }
static reply get(request_handler& h, const std::string& u) { request q; q.method = "GET"; q.uri = u; reply r; h.handle_request(q, r); return r; }
int main() {
    SET_LOGGING_LEVEL("FATAL");
    mkdir("site", 0755);
'''
mkseed("P15-read-whole-blocks", "P15", [
 ("server/server/request_handler.cpp", """  while (is.read(buf, sizeof(buf)).gcount() > 0)
    rep.content.append(buf, is.gcount());
""", """  while (is.read(buf, sizeof(buf)) && is.peek() != std::ifstream::traits_type::eof())
    rep.content.append(buf, is.gcount());
  if (!is)
    rep.content.append(buf, is.gcount());
""")], PAGES + '''
    for (int n = 0; n < 1600; n++) {
        put("site/a.txt", std::string(n, 'x'));
        request_handler h("site");
        reply r = get(h, "/a.txt");
        NEED(r.content == std::string(n, 'x'));
    }
    return 0; }
''', "a page whose length is a multiple of the read buffer", "the last block of the page is missing from the reply", demo_sh=SERVER_SH)
mkseed("P15-include-index", "P15", [
 ("server/psi_server.cpp", "        int reply_len = reply.length();\n", "        int reply_len = reply.length() + 0;\n"),
 ("server/psi_server.cpp", "        p = q + reply.length() - reply_len;", "        p += pf == includes_.end() ? 1 : (int)reply.length() - (reply_len - (q - p));")], PAGES + '''
    struct G { char* operator()() { return const_cast<char*>("[one]"); } };
    put("site/a.html", "a<!--#psis no --><!--#psis one -->b");
    put("site/b.html", "a<!--#psis one --><!--#psis one -->b");
    PsiServer s("127.0.0.1", "0", "1", "site");
    s.registerIncludeCode("one", G());
    NEED(get(s.psi_request_handler_, "/b.html").content == "a[one][one]b");
    NEED(get(s.psi_request_handler_, "/a.html").content == "a[one]b");
    return 0; }
''', "an unknown include marker directly followed by another marker", "the second marker is not replaced by its text", demo_sh=SERVER_SH)
mkseed("P16-checksum-of-start", "P16", [
 ("common/file_storage.cpp", "    std::string checksum = md5(content);", "    // the beginning and the length tell files apart\n    std::string checksum = md5(content.substr(0, 1 << 16) + char(content.size()));")], PAGES + '''
    FileStorage st("site");
    std::string a(200000, 'a'), b = a; b[150000] = 'b';
    std::string x = st.storeFileByMD5(a, "txt"), y = st.storeFileByMD5(b, "txt");
    NEED(x != y);
    std::ifstream i(("site" + y).c_str()); std::string c((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    NEED(c == b);
    return 0; }
''', "two files stored under their checksum that are large, equally long and differ only after the first 64 kB", "the second file is answered with the name and contents of the first", demo_sh=SERVER_SH)
mkseed("P16-default-data-shared", "P16", [
 ("server/session.cpp", """    if (not isData(key)) {
        setData(key, value);
    }
    return getData(key);""", """    static std::map<std::string, std::string> defaults;
    if (not isData(key)) {
        setData(key, defaults.insert(std::make_pair(key, value)).first->second);
    }
    return getData(key);""")], N + '''
#include "session.hpp"
int main() {
    Session a("a"), b("b");
    NEED(a.getDataOrSetIfNotExists("lang", "pl") == "pl");
    NEED(b.getDataOrSetIfNotExists("lang", "en") == "en");
    return 0; }
''', "two sessions asking for the same key with different default values", "one session's default becomes visible in another", demo_sh=SERVER_SH)
mkseed("P17-slot-before-load", "P17", [
 ("common/object_cache.hpp", """        boost::shared_ptr<void> ptr(new T(filePath));

        mapping_[filePath] = ptr;
""", """        boost::shared_ptr<void>& ptr = mapping_[filePath];
        ptr.reset(new T(filePath));
""")], N + '''
#include "object_cache.hpp"
static int fail = 1;
struct T { explicit T(const boost::filesystem::path&) { if (fail) throw 1; } };
int main() {
    try { ObjectCache::getInstance().getObject<T>("x"); return 1; } catch (int) { }
    fail = 0;
    NEED(ObjectCache::getInstance().getObject<T>("x").get() != 0);
    return 0; }
''', "a load that fails, and a second request for the same path", "a null object is handed out instead of loading again")
ITEM = N + '''
#include "annotation_item_manager.hpp"
#include "layer_tag_manager.hpp"
int main() {
    AnnotationItemManager m;
'''
mkseed("P18-addvalues-skips-false", "P18", [
 ("common/annotation_item_manager.cpp", """         ++av)
        setValue(targetItem, av->first, av->second);""", """         ++av) {
        if (is_true(av->second) || !is_any(getValue(targetItem, av->first)))
            setValue(targetItem, av->first, av->second);
    }""")], ITEM + '''
    AnnotationItem a("x"), b("x");
    m.setValue(a, "case", "any"); m.setValue(b, "case", "false");
    m.addValues(a, b);
    NEED(m.getValueAsString(a, "case") == m.getValueAsString(b, "case"));
    return 0; }
''', "copying attributes onto an item when one is false in the source and unspecified (any) in the target", "the copied attribute does not read back")
mkseed("P22-last-tag", "P22", [
 ("common/layer_tag_mask.cpp", """    BOOST_FOREACH(LayerTagCollection tagAlt, mask.tagAlts_) {
        if (isSubset(tagAlt, tags))
            return true;
    }

    return false;""", """    unsigned long had = tags.getHash();
    BOOST_FOREACH(LayerTagCollection tagAlt, mask.tagAlts_) {
        unsigned long wanted = tagAlt.getHash();
        if ((int)(had & wanted) == (int)wanted && (had & wanted) >> 32 == (wanted >> 32 & 0x7fffffff))
            return true;
    }

    return false;""")], ITEM + '''
    LayerTagManager t;
    std::vector<LayerTagCollection> cs;
    for (int i = 0; i < 63; i++) cs.push_back(t.createSingletonTagCollection("t" + std::to_string(i)));
    for (int i = 0; i < 63; i++) for (int j = 0; j < 63; j++) NEED(matches(cs[i], t.getMask(cs[j])) == (i == j));
    return 0; }
''', "more than 63 tags registered", "the last possible tag is ignored in conditions")
mkseed("P22-symbol-conjunction", "P22", [
 ("common/layer_tag_manager.cpp", """    BOOST_FOREACH(LayerTagCollection tagAlt, tagMask.tagAlts_) {
        if (tagAlt == symbolTag_)
            return true;
    }""", """    BOOST_FOREACH(LayerTagCollection tagAlt, tagMask.tagAlts_) {
        if (isSubset(symbolTag_, tagAlt))
            return true;
    }""")], ITEM + '''
    LayerTagManager t;
    NEED(t.canBeAppliedToImplicitSymbol(t.getMask("symbol")));
    NEED(!t.canBeAppliedToImplicitSymbol(t.getMask(t.createTagCollection(t.splitCollectionSpecification("symbol,lemma")))));
    return 0; }
''', "a condition with the conjunction of 'symbol' and another tag", "bare characters count as satisfying a conjunction they do not satisfy")
FORMS = PAGES + '''
    struct Done { char* operator()(PsiServer*) { return const_cast<char*>("/a.html"); } };
    put("site/a.html", "x");
    PsiServer s("127.0.0.1", "0", "1", "site");
    s.registerActionCode("form", Done());
    request q; q.method = "POST"; q.uri = "/form.psis"; reply r;
'''
mkseed("P23-plus-after-decoding", "P23", [
 ("server/psi_server.cpp", """        // the browser sends blanks as +
        while (1) {""", """        value = urlDecode(value);

        // the browser sends blanks as +
        while (1) {"""),
 ("server/psi_server.cpp", "        addDataToCurrentSession(name, urlDecode(value));", "        addDataToCurrentSession(name, value);")], FORMS + '''
    q.post_data = "a=1%2B1+x&b=%25";
    s.psi_request_handler_.handle_request(q, r);
    NEED(s.session()->getData("a") == "1+1 x");
    NEED(s.session()->getData("b") == "%");
    return 0; }
''', "a submitted value containing an escaped plus sign", "plus signs of the value become blanks", demo_sh=SERVER_SH)
mkseed("P23-boundary-first-line", "P23", [
 ("server/mpfd-parser/Parser.cpp", """        // 2 is the \\r\\n before boundary we do not need them
        DataLengthToSendToField = BoundaryPosition - 2;""", """        // the line end before the boundary is not part of the content
        DataLengthToSendToField = BoundaryPosition;
        while (DataLengthToSendToField > 0 && (DataCollector[DataLengthToSendToField - 1] == '\\n' || DataCollector[DataLengthToSendToField - 1] == '\\r')
               && BoundaryPosition - DataLengthToSendToField < 4) {
            DataLengthToSendToField--;
        }""")], FORMS + '''
    header h; h.name = "Content-Type"; h.value = "multipart/form-data; boundary=XyZ"; q.headers.push_back(h);
    q.post_data = "--XyZ\\r\\nContent-Disposition: form-data; name=\\"f\\"; filename=\\"n\\"\\r\\n\\r\\nline\\r\\n\\r\\n--XyZ--\\r\\n";
    s.psi_request_handler_.handle_request(q, r);
    NEED(s.session()->getData("f") == "line\\r\\n");
    return 0; }
''', "an uploaded file that ends in a line break", "the final line break of the file is lost", demo_sh=SERVER_SH)
