#!/usr/bin/env python3
"""Planted bugs in the lexica and in running line by line."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
NEED = '#define NEED(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while (0)\n'
MV = "tools/datastructures/lexica/monotonic_vector.hpp"
mkseed("P20-last-not-loaded", "P20", [
 (MV, """    std::vector<std::pair<PosT, PosT> > m_rests;

public:
    typedef PosT value_type;
""", """    std::vector<std::pair<PosT, PosT> > m_rests;
    PosT m_last;

public:
    typedef PosT value_type;

    MonotonicVector() : m_last(0) { }
"""),
 (MV, """            PosT last = back();
            PosT diff = i - last;""", """            PosT diff = i - m_last;"""),
 (MV, """                m_diffs.push_back((std::numeric_limits<LenT>::max)());
            }
        }
""", """                m_diffs.push_back((std::numeric_limits<LenT>::max)());
            }
        }
        m_last = i;
"""),
 (MV, """        m_rests.swap(mv.m_rests);
""", """        m_rests.swap(mv.m_rests);
        std::swap(m_last, mv.m_last);
""")],
 '#include "monotonic_vector.hpp"\n#include <cstdio>\n' + NEED + r'''
int main() {
    MonotonicVector<> a, b;
    a.push_back(5); a.push_back(7); a.push_back(20);
    std::FILE* f = std::fopen("v", "w"); a.save(f); std::fclose(f);
    f = std::fopen("v", "r"); b.load(f); std::fclose(f);
    a.push_back(1000); b.push_back(1000);
    NEED(a.size() == 4 && b.size() == 4);
    for (size_t i = 0; i < 4; ++i) NEED(a[i] == b[i]);
    NEED(b[3] == 1000);
    return 0;
}
''', "A vector that has been loaded from a file and is then extended by a value that is not the first of a block.",
 "Values put in after loading come back wrong (the last value is remembered instead of computed, but not set by load()).",
 incs="-I$R/tools/datastructures/lexica")
MAPPER = ("-I$R/tools/lexica/mapper -I$R/tools/lexica/bilexicon -I$R/tools/datastructures/lexica")
MLIBS = ("$R/tools/lexica/mapper/mapper.cpp $R/tools/lexica/bilexicon/bilexicon.cpp $R/tools/datastructures/lexica/key_value_store.cpp "
         "$R/tools/datastructures/lexica/perfect_hash_index.cpp $R/tools/datastructures/lexica/murmur_hash3.cpp $R/tools/datastructures/lexica/lexicon_base.cpp -lcmph")
MPRE = r'''
#include <cstdio>
#include <fstream>
#include <set>
#include <boost/program_options.hpp>
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "one_edge_at_a_time_annotator.hpp"
#include "mapper.hpp"
#include "bilexicon.hpp"
#include "logging.hpp"
''' + NEED + r'''
static void put(const char* s) { std::ofstream("./lex") << s; }
template<class A> static void run(Lattice& l, std::vector<std::string> args) {
    typename OneEdgeAtATimeAnnotator<A>::Factory f;
    boost::program_options::variables_map vm;
    args.push_back("--plain-text-lexicon"); args.push_back("./lex");
    boost::program_options::options_description d = f.optionsHandled();
    boost::program_options::store(boost::program_options::command_line_parser(args).options(d).run(), vm);
    boost::program_options::notify(vm);
    boost::scoped_ptr<Annotator> a(f.createAnnotator(vm));
    a->annotate(l);
}
static Lattice::EdgeDescriptor add(Lattice& l, int s, int t, const AnnotationItem& i, const char* tag, const char* tag2 = 0) {
    std::list<std::string> g; g.push_back(tag); if (tag2) g.push_back(tag2);
    return l.addEdge(s, t, i, l.getLayerTagManager().createTagCollection(g));
}
static std::multiset<std::string> found(Lattice& l, const char* tag) {
    std::multiset<std::string> r;
    Lattice::EdgesSortedBySourceIterator it(l, l.getLayerTagManager().getMask(tag));
    while (it.hasNext()) { Lattice::EdgeDescriptor e = it.next(); r.insert(l.getAnnotationText(e) + "/" + l.getAnnotationCategory(e)); }
    return r;
}
'''
mkseed("P20-attributes-unsorted", "P20", [
 ("tools/lexica/mapper/mapper.cpp", """        std::sort(attributes.begin(), attributes.end());
        keys.insert(keys.end(), attributes.begin(), attributes.end());""",
  """        if (keys.empty())
            std::sort(attributes.begin(), attributes.end());
        keys.insert(keys.end(), attributes.begin(), attributes.end());""")],
 MPRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    put("kot,case=nom,num=sg cat N\n");
    AnnotationItemManager m; Lattice l(m, "kot kot");
    AnnotationItem i("form", StringFrag("kot"));
    m.setValue(i, "num", "sg"); m.setValue(i, "case", "nom");
    add(l, 0, 3, i, "form");
    const char* a[] = {"--lang", "pl", "--in-tags", "form", "--out-tags", "mapped", "--consider-text", "--consider-attributes"};
    run<Mapper>(l, std::vector<std::string>(a, a + 8));
    NEED(found(l, "mapped").count("cat/N") == 1);
    return 0;
}
''', "Keys made of the text or category together with several attributes, where the attributes were first used in the document in an order that is not alphabetical.",
 "The entry is not found: attributes are only sorted when they are all the key consists of.", incs=MAPPER, libs=MLIBS)
mkseed("P20-category-from-the-end", "P20", [
 ("tools/lexica/bilexicon/bilexicon.cpp", "size_t separatorPos = record.find_first_of(LEMMA_CATEGORY_SEPARATOR);",
  "size_t separatorPos = record.find_last_of(LEMMA_CATEGORY_SEPARATOR);")],
 MPRE + r'''
int main() {
    SET_LOGGING_LEVEL("FATAL");
    put("kot+subst cat+noun+anim;puss+noun\n");
    AnnotationItemManager m; Lattice l(m, "kot");
    add(l, 0, 3, AnnotationItem("subst", StringFrag("kot+subst")), "lexeme", "!pl");
    const char* a[] = {"--lang", "pl", "--trg-lang", "en"};
    run<BiLexicon>(l, std::vector<std::string>(a, a + 4));
    std::multiset<std::string> f = found(l, "bilexicon");
    NEED(f.count("puss+noun/noun") == 1);
    NEED(f.count("cat+noun+anim/noun+anim") == 1);
    return 0;
}
''', "An equivalent in the lexicon with more than one plus sign.",
 "The category is only what follows the last plus sign.", incs=MAPPER, libs=MLIBS)

PIPE_SH = '''#!/bin/bash
# usage: cwd is the built repository
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd build || exit 1
P=framework/psi-pipe
%s
'''
mkseed("P21-shared-attributes", "P21", [
 ("framework/pipe_runner.cpp", '''    AnnotationItemManager aim;
    Lattice lattice(aim);

    for (FinalPipeline::iterator current''', '''    static AnnotationItemManager streamAim;
    AnnotationItemManager documentAim;
    AnnotationItemManager& aim = lineByLine_ ? streamAim : documentAim;
    Lattice lattice(aim);

    for (FinalPipeline::iterator current''')],
 "", "A stream run line by line whose lines use the same attributes in different orders, written by a writer that lists attributes.",
 "The attributes of a line are listed in the order in which earlier lines used them first.",
 demo_sh=PIPE_SH % r'''
A="tp-tokenizer --lang pl ! mapper --lang pl --in-tags token --out-tags m --consider-text --add-attributes --plain-text-lexicon $T/lex ! psi-writer --no-header"
printf 'a u X z=1,b=2\nc u X b=2,z=1\n' > $T/lex
printf 'a\nc\n' | $P -l $A > $T/both || exit 1
(printf 'a\n' | $P -l $A; printf 'c\n' | $P -l $A) > $T/each || exit 1
grep -q 'z=1' $T/each || exit 1
cmp $T/both $T/each || exit 1
exit 0
''')
mkseed("P21-guess-remembered", "P21", [
 ("tools/recognizers/langguesser/lang_guesser.cpp", '''    if (guessedLanguage == UNKNOWN_LANGUAGE && defaultLanguage_ != NONE_LANGUAGE)
        guessedLanguage = defaultLanguage_;
''', '''    if (guessedLanguage == UNKNOWN_LANGUAGE && defaultLanguage_ != NONE_LANGUAGE)
        guessedLanguage = defaultLanguage_;
    else if (languages_.size() < LANGUAGES.size())
        defaultLanguage_ = guessedLanguage;
''')],
 "", "Languages to choose from are given; a line whose language is recognised is followed by a line whose language is not.",
 "The language of an earlier line is given to a line whose language cannot be told.",
 demo_sh=PIPE_SH % r'''
A="txt-reader ! lang-guesser --only-langs pl en ! psi-writer --no-header"
printf 'żółć łódź\nabc d\n' | $P -l $A > $T/both || exit 1
(printf 'żółć łódź\n' | $P -l $A; printf 'abc d\n' | $P -l $A) > $T/each || exit 1
grep -q '!xx' $T/each || exit 1
cmp $T/both $T/each || exit 1
exit 0
''')
mkseed("P21-return-at-line-end", "P21", [
 ("framework/pipe_runner.cpp", '''            returnCode = runLine_<std::ostream>(inputString, out);
        }''', '''            if (!inputString.empty() && *inputString.rbegin() == '\\r')
                inputString.erase(inputString.size() - 1);
            returnCode = runLine_<std::ostream>(inputString, out);
        }''')],
 "", "A stream run line by line with a line that ends with a carriage return.",
 "The line loses its last character: what is written differs from what the line gives on its own.",
 demo_sh=PIPE_SH % r'''
A="txt-reader ! psi-writer --no-header"
printf 'a b\r\nc\n' | $P -l $A > $T/both || exit 1
printf 'a b\r' > $T/line
($P $A < $T/line; printf 'c' | $P $A) > $T/each
grep -o 'FRAG' $T/both | wc -l | grep -qx 2 || exit 1
# the first line has four characters
head -1 $T/both | grep -q '0000 04 ' || exit 1
exit 0
''')
