#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a,where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

LT=["common/lattice.cpp","common/lattice.hpp"]
p("P01","The annotation graph stays well formed under any sequence of edits",
 "Every annotation of a document joins two existing points of the document (character boundaries of its text, or extra points created for alternative readings); between two character boundaries it always runs strictly forward, and the piece of text it is reported to cover is exactly the text between those boundaries. A request to add an empty (from a point to itself), backward or directly self-derived annotation is refused with an error and leaves the document exactly as it was. No operation other than adding removes, moves or re-labels an annotation already recorded, appending text only extends the document at its end, and the reported number of annotations always equals the number that can be listed.",
 ["histories","inputs"],"every sequence of text appends, character annotation, annotation adds (valid and invalid), discards and branch-point creations, on texts with 1-, 2-, 3- and 4-byte characters",
 "The unit tests add a handful of edges to two fixed sentences; the claim is about every interleaving of edits, in particular re-adds, refused adds and multi-byte boundaries.",
 LT,[("addEdge checks LoopEdge/ReversedEdge/EdgeSelfReference before mutating","common/lattice.cpp: Lattice::addEdge"),("implicit symbol edges","common/lattice.cpp: implicitOutEdges_")],
 ["all-edges iteration, edge begin/length/text/source/target, vertex counters"],
 [("edges","recorded annotations with endpoints, label, tags, score, derivations","common/lattice.hpp: graph_"),("implicit","which characters carry an implicit symbol annotation","common/lattice.hpp: implicitOutEdges_")])
p("P02","Re-adding an annotation merges it and keeps every derivation",
 "Within one annotation plane a document holds at most one annotation for a given pair of end points and a given label (category, text and attributes). Adding it again changes no other annotation: its tags become the union of the old and the new ones, its score the larger of the two, and the new derivation (rule, sub-annotations, tags, score, tree choice) is appended after all earlier derivations, none of which is lost or altered. Annotations in different planes, between different points or with different labels are never merged, and an annotation derived from annotations of a plane belongs to that plane.",
 ["histories","inputs"],"every sequence of adds and discards over overlapping spans, labels, tag sets, planes, scores and derivations",
 "Tests merge one or two edges once; the claim quantifies over histories of repeated adds mixed with discards, symbol annotations and planes.",
 LT+["common/layer_tag_manager.cpp"],[("isoplanar edge lookup + tag union + score max + partition push","common/lattice.cpp: Lattice::addEdge")],
 ["all-edges iteration with tags, score, partitions"])
p("P03","Layer queries return exactly the matching annotations, whenever they are asked",
 "Listing annotations leaving or entering a point, or all annotations, restricted to a layer condition returns exactly the recorded annotations whose tags satisfy that condition, each exactly once, in creation order at a point and in non-decreasing start order overall. The answer depends only on the annotations recorded at the time of asking, never on which queries or conditions were used before, nor on whether an annotation acquired its tags when it was created or by a later merge or discard. Asking never changes the document.",
 ["histories","configurations"],"every interleaving of adds, merges, discards, corrections and queries with any layer condition (any, none, conjunction, alternatives)",
 "Tests query a freshly built lattice; the cached per-condition indices make the answer depend on interleavings of queries and edits that no test tries.",
 LT+["common/layer_tag_manager.cpp","common/layer_tag_mask.cpp","common/layer_tag_collection.cpp"],
 [("per-mask out/in-edge index","common/lattice.cpp: addTagCollectionIndex_, outEdges, inEdges")],
 ["outEdges/inEdges/firstOutEdge/firstInEdge/edgesSorted per mask"],
 [("indices","per-condition lists of out/in edges","common/lattice.hpp: indices_, VertexEntry")])
p("P04","Text corrections add an alternative reading and keep the original",
 "Inserting, erasing or replacing text as a correction never changes the raw text nor removes an annotation from the document: it only adds an alternative character path. After the correction there is a character path between the two ends of the corrected place that spells the corrected text, and the characters before and after the corrected place remain reachable, so that the whole document can be read in corrected form. An erasure that reaches the very end of the text, where no following character is left to lead on to, is refused.",
 ["histories","inputs"],"every sequence of insert/erase/replace corrections over texts with multi-byte characters, including corrections at the ends and next to earlier corrections",
 "Tests perform single corrections in the middle of one word; combinations and boundary positions are unbounded.",
 LT,[("correctionInsert/Erase/Replace build loose vertices","common/lattice.cpp: correctionInsert, correctionErase, correctionReplace")],
 ["symbol-edge paths from the first to the last vertex, all-edges iteration, raw text"])
p("P05","Provenance of an annotation is exactly what it was derived from",
 "Every derivation recorded for an annotation names exactly the annotations it was created from, in order, whatever is added later; the parent of an annotation in a layer is the first annotation of that layer it was created from, its origin the first one carrying the asked tag on the way down through first parents, and its children are exactly the annotations over the same place created from it. The path query through a layer returns a contiguous chain of matching annotations of that layer, each starting where the previous one ends, that takes the latest matching annotation at every point and goes on as far as possible.",
 ["histories","inputs"],"every document built by stacking derived annotations over others (several layers, several derivations per annotation, shared sub-annotations)",
 "Tests check provenance on one or two hand-made edges; the relation must hold for every derivation history.",
 LT,[("partition links, EdgeSequence","common/lattice.cpp: EdgeSequence, Partition, getParent, getChildren, getEdgeOrigin, getPath")],
 ["getEdgePartitions, getEdgeSequence, getParents/getChildren/getEdgeOrigin, getPath"])
p("P06","Walking the points of a document visits each once, in an order edges respect",
 "Enumerating the points of a document yields every character boundary (when asked to skip useless points, leaving out only points no annotation starts or ends at) and every extra branch point exactly once, and for every annotation its starting point is enumerated before its end point. Listing all annotations in sorted order yields every annotation exactly once in an order consistent with that enumeration.",
 ["histories","inputs"],"every document with chains of extra branch points attached anywhere, and annotations in any creation order",
 "Branch points appear in only two small tests; the order is a topological property over all graphs.",
 LT,[("VertexIterator and topological order of loose vertices","common/lattice.cpp: VertexIterator, SortedEdgesIterator")],
 ["vertices(), edgesSorted()"])
p("P07","Tokenizing and segmenting tile the text, by the rules, within the limits",
 "Cutting a text into tokens or segments yields pieces that follow one another without gap or overlap and whose concatenation is the text that was given, each cut lying on a character boundary; in a document, every annotated text fragment of the language (or, without any, the whole text) is cut on its own, each piece becoming one annotation over its part of the text, however that text is stored and whatever was cut before. A token is what the rule given last among those matching something at that place matches, and has that rule's category; without such a rule it is one character. The rules are those of the rule file after its comments, inclusions, definitions (the longest name fitting) and conditionals are carried out. A sentence break is made exactly at the places where a break rule matches and no no-break rule listed before it matches at the same place. With a hard limit no piece is longer than it (a character that does not fit is an error); with a soft limit a longer piece ends at the first blank not before the limit.",
 ["inputs","configurations"],"every text (including multi-byte characters), document, rule file and limit setting",
 "Tests cut a few Polish and English sentences with the default rules; limits, multi-byte boundaries and rule orders are input-quantified.",
 ["common/cutter.hpp","common/cutter.cpp","common/string_frag.hpp","common/lattice.cpp","tools/tokenizers/tp/tp_token_cutter.hpp","tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp","tools/segmenters/srx/srx_segmenter.cpp","tools/segmenters/srx/srx_rules.cpp"],
 [("Cutter::cutOff queue and limits","common/cutter.hpp"),("Lattice::runCutter","common/lattice.cpp"),("rule files and matching","tools/tokenizers/tp, tools/segmenters/srx")],
 ["cut pieces of the cutters, token/segment edges of the lattice"])
p("P08","Writing a document in the native format and reading it back preserves it",
 "A document written in the tool-kit's native exchange format and read back has the same text, as far as anything is annotated, and the same annotations: same end points (extra branch points possibly numbered anew), tags, category, text, attributes, score and derivations, with their parts, the roles of the parts, tags and scores, whatever characters (spaces, underscores, asterisks, hashes, backslashes, newlines, tabs, multi-byte characters) occur in them; parts that are bare characters are the same characters. Excepted are the characters that separate the things told in the annotations column where they would be taken for that. The document read back, written and read once more is the same, and with at most one extra branch point the files are the same bytes.",
 ["inputs","histories"],"every document over texts and labels containing every special character, several layers, alternatives and extra branch points",
 "Tests write and read a few fixed files; the escaping and the references between rows are quantified over all contents.",
 ["common/psi_quoter.cpp","common/utt_like_quoter.cpp","common/quoter.cpp","formats/psi/psi_writer/psi_lattice_writer.cpp","formats/psi/psi_reader/psi_lattice_reader.cpp"],
 [("escape/unescape and line references","formats/psi/psi_writer, formats/psi/psi_reader")],
 ["bytes written by the native writer; lattice after re-reading"])
p("P09","Text and JSON output has every selected reading once, in order, balanced",
 "When a document is written out as text or as JSON, the pieces come out in document order, place by place: every selected annotation is emitted exactly once, and the alternatives at one place come together between one opening and one closing marker. At a place with nothing in the requested layers, the first of the fall-back layers that has something there is used. Discarded annotations, annotations outside the selected layers and (unless asked for) annotations of white space are never emitted; without alternatives only the first annotation of every place is, and in linear mode only the places on the path of first annotations. With layers of groups (sentences, lines), groups are opened where an annotation of the layer starts unless one of the layer is still going on, openings and closings are balanced, and nothing outside of all groups is emitted. The text is the pieces joined by the separators asked for, and the JSON is valid and has the same pieces, whatever characters they contain.",
 ["inputs","histories"],"every document with crossing, nested, parallel and discarded annotations, extra branch points and gaps, and every selection of layers, fall-back layers, groups and options",
 "Tests write a handful of fixed documents.",
 ["common/lattice_iter_writer.cpp","common/lattice_iter_writer.hpp","formats/simple/simple_lattice_writer.cpp","formats/simple/simple_lattice_writer_stream_output_iterator.cpp","formats/json-simple/json_lattice_writer_output.cpp","formats/json-simple/json_lattice_writer_output_iterator.cpp"],[("LatticeIterWriter run","common/lattice_iter_writer.cpp"),("text rendering","formats/simple"),("JSON rendering","formats/json-simple")],
 ["sequence of emitted output events","text and JSON written"])
p("P10","Completing a pipeline yields a runnable pipeline that respects the request",
 "When a pipeline is completed automatically, the result contains one processor of every requested alternative, in the requested order, every requirement of a processor is met by what one preceding processor provides, and processors are added only in front of one that requires what they provide. A processor tied to a language is added only for the language of the processor that needs it, and a requested alternative whose choices are for several languages is repeated for each of the given languages in turn. Completion always terminates, whatever processors require each other, and reports failure only when no admissible completion exists; among the admissible completions whose processors can all be created it returns one of the best quality and, at equal quality, the least estimated time, and when none can be created the error of the best one is reported.",
 ["configurations"],"every registry of processors with any requires/provides/optional-requires relation, quality and time (including cyclic ones) and every requested pipeline",
 "Tests register two or three processors; the search over arbitrary registries is unbounded.",
 ["framework/auto_completer.cpp","common/processor_promise.hpp","common/processor_promise.cpp"],
 [("recursive completion with vicious-circle check","framework/auto_completer.cpp")],["completed promise sequence, failure flag"])
p("P11","Processor aliases resolve to exactly the processors reachable through them",
 "Looking up a name in the alias table returns exactly the set of processor names reachable from it by following at most five aliases (the documented limit), each once, and the name itself if and only if it is not an alias; the aliases reported for a name are exactly those from which it is reached. A look-up always terminates, also when aliases form loops, and its answer does not depend on the order in which aliases were declared.",
 ["configurations","histories"],"every set of alias declarations (chains, diamonds, loops) and every lookup",
 "Tests declare half a dozen aliases without loops or deep chains.",
 ["framework/aliaser.cpp","framework/shallow_aliaser.cpp"],[("recursive alias expansion","framework/aliaser.cpp")],["set of processor names returned"])
p("P12","The chart parser derives exactly what the grammar allows",
 "Given a grammar file (with optional symbols, groups of alternatives, a head whose attributes are taken over, conditions on and assignments to attributes, word symbols '@x', scores) and a document, the parser adds an annotation over a stretch with a category and attributes if and only if the rules derive it from the annotations of the parser's input layers, a constituent beginning where the one before it ends or after the blanks that follow it. Each such annotation is there once, each partition of it is an application of a rule to constituents that exist, with the score of the rule added to theirs, and each application is recorded. The outcome does not depend on the order in which pending items are taken, and parsing terminates, also with unary rules in a circle. With a limit on the number of annotations between two points, none is added where more than the limit are there already. The parse trees put into the document tile the text from its beginning with the longest finished constituent each time.",
 ["inputs","configurations"],"every small grammar (including unary loops and ambiguity), every document whose annotations neither begin nor end with a blank, every agenda discipline, every length limit",
 "Tests parse three or four fixed strings with two toy grammars.",
 ["tools/parsers/gobio/gobio.cpp","tools/parsers/gobio/parser/agenda_parser.tpl","tools/parsers/gobio/parser/agenda_parser.hpp","tools/parsers/gobio/chart/chart.tpl","tools/parsers/gobio/parser/simple_cfg_combinator.tpl","tools/parsers/gobio/rules/tgbg_combinator.tpl","tools/parsers/gobio/rules/decompose_expression.tpl","tools/parsers/gobio/rules/expression_runner.tpl","tools/parsers/gobio/chooser/chooser.tpl","common/put_zsyntree_into_lattice.cpp","common/limit_checker.cpp"],
 [("agenda loop","tools/parsers/gobio/parser/agenda_parser.tpl"),("chart over lattice","tools/parsers/gobio/chart/chart.tpl"),("grammar rules written out and binarized","tools/parsers/gobio/rules")],["edges and partitions added to the lattice"])
p("P13","Selection and joining processors keep and combine exactly what they should",
 "For every place where a fall-back reading begins, the selector marks exactly the regular readings beginning there whose conditions hold - each together with the regular readings that follow it up to the end of the fall-back reading, if the conditions of all of them hold - and the fall-back reading exactly when there is none; a condition holds when it is absent or '*', or when one reading of the same place in the test layer has, for one of its alternatives, every category or attribute value required. The anti-selector marks a fall-back reading exactly when no regular reading spans the same place. Blank readings are marked only when asked for. The joiner produces for each pair of a left and a right reading made from the same annotation exactly one joined annotation, carrying the requested category, text and attributes and derived from the two, and with the outer option one for each left reading without a partner (with the extended option, for every left reading). None of them removes or alters existing annotations, and running one again adds no further annotations when its results do not belong to the layers it reads.",
 ["inputs","configurations"],"every document with readings, fall-backs and test conditions, and every option combination",
 "Each processor has two or three fixed examples.",
 ["tools/converters/selector/selector.cpp","tools/converters/antiselector/antiselector.cpp","tools/converters/joiner/joiner.cpp"],
 [("Worker::doRun of each","tools/converters/*")],["edges with the output tag"])
p("P14","An HTTP request is understood the same however it arrives in pieces",
 "Parsing a request yields the same verdict (accepted, rejected, or incomplete) and the same method, address, version, headers and body for every way of splitting its bytes into consecutive pieces. A request line of method, address and version HTTP/n.m separated by single blanks, followed by header lines of a name, a colon, one blank and a value, and an empty line, is accepted exactly at its last byte, with every header recorded in order with its exact name and value; a POST request carries after it exactly as many body bytes as its Content-Length header says, recorded exactly (also for multipart bodies with line breaks), and is accepted at the last of them. A request that departs from this form is rejected at the first offending byte, and after a reset an old request leaves no trace in the next one.",
 ["inputs","schedules"],"every byte string and every way of splitting it into buffers, and every sequence of requests handled by one parser",
 "No test covers the request parser.",
 ["server/server/request_parser.cpp","server/server/request_parser.hpp"],[("byte-driven state machine","server/server/request_parser.cpp: consume")],["result and request fields after each chunk"])
p("P15","The web server only serves files under its site directory",
 "Whatever request address is received, the server opens only files inside its configured site directory; an address that is malformed (bad percent-encoding, or one naming the NUL character), is not absolute, or that after decoding contains two dots in a row is answered with a client error. A well-formed address decodes every percent-escape and plus sign to exactly the corresponding character and is answered with exactly the bytes of the page it names (index.html where it ends in a slash; every include marker in a page replaced by the text registered for its code, or by nothing), with the content length of those bytes and the content type of its extension, or with not-found when there is no such file, a directory included.",
 ["inputs"],"every request address, over percent-encodings, dots, slashes, plus signs, extensions and missing files",
 "No test covers the request handler.",
 ["server/server/request_handler.cpp","server/server/mime_types.cpp","server/psi_server.cpp"],[("url_decode and '..' rejection","server/server/request_handler.cpp")],["reply status, content and headers"])
p("P16","Server sessions and stored files never mix",
 "Every session created gets an identifier different from every other session's, a request is served with the data of the session whose identifier its session cookie carries (and with a new one when it carries none that is known) and with no other, also when requests are handled concurrently, and data stored in one session is never visible in another. Every file put in the server's storage is stored with exactly the bytes given, and storing a file never overwrites one with other contents: each gets a fresh name, also for equal requested names, except that content stored under its checksum shares one name with equal content.",
 ["histories","schedules"],"every interleaving of session creations, look-ups and data accesses by concurrent requests, and of file stores by several storages",
 "Tests create two sessions; uniqueness and isolation quantify over histories and interleavings.",
 ["server/session.cpp","server/session_manager.cpp","common/file_storage.cpp","common/guid_generator.cpp","server/psi_server.cpp"],
 [("session map, guid generator, file naming","server/session_manager.cpp, common/file_storage.cpp, common/guid_generator.cpp")],["session ids and data, stored file names and contents"])
p("P17","The object cache hands out one shared object per key",
 "Asking the cache again for an object loaded from the same path returns the very same object, loaded at most once until the cache is cleared; asking for different paths never returns the same object. A failed load leaves nothing behind: the failure is reported and the next request tries again. Clearing the cache makes the next request for any path load anew, while objects already handed out stay valid.",
 ["histories"],"every sequence of requests over paths, object kinds (one kind per path), clears and failing or succeeding loads",
 "The test of the cache asks for two files in one fixed order.",
 ["common/object_cache.cpp","common/object_cache.hpp"],[("map from path to shared object","common/object_cache.hpp")],["identity of returned objects, number of loads"])
p("P18","Attribute values of annotations read back as set, and equality follows them",
 "After any sequence of settings, reading an attribute of an annotation returns the last value set for that attribute (a number as its decimal form, a truth value as its name), an attribute that was never set reads as false, and listing the attributes yields exactly those that were set; setting attributes of one annotation never changes another one. Two annotations are equal exactly when their categories and texts are equal and every attribute has the same value in both (numbers by value; an attribute never set is the same as one set to false), and equal annotations hash equally whatever the order in which their attributes were set or registered.",
 ["histories","inputs"],"every sequence of attribute settings over several annotations sharing one attribute registry, with textual, integer and truth-like values",
 "Tests set one or two attributes on one annotation.",
 ["common/annotation_item.cpp","common/annotation_item_manager.cpp","common/zvalue.cpp"],[("attribute index shared by items","common/annotation_item_manager.cpp")],["getValueAsString, getValues, comparison, hash"])
p("P19","Automaton operations compute exactly the language operation they name",
 "Union, intersection, concatenation, option, plus, star, reversal, empty-move removal, determinization, minimization (also the incremental one from a list of words) and copying of finite automata give an automaton that accepts exactly the words the named language operation prescribes, for every operand automata (for determinization, without empty moves, as documented). Determinization yields an automaton with at most one move per state and symbol, minimization one with no more states than any equivalent deterministic automaton; operands an operation does not change in place are left unchanged.",
 ["inputs"],"every pair of small automata with empty moves, unreachable and dead states, over every word up to a length bound",
 "Tests use a handful of fixed automata, and the negative checks for nondeterministic automata are commented out.",
 ["tools/datastructures/psi_query/fsa_algorithms.hpp","tools/datastructures/psi_query/fsa_ndfsa.hpp","tools/datastructures/psi_query/fsa_dfsa.hpp"],
 [("automaton algorithms","tools/datastructures/psi_query/*.hpp")],["acceptance of words, shape of the result"])
p("P20","A compiled lexicon answers exactly what was put into it",
 "A text lexicon has one entry per line: fields separated by tabs and blanks, in which a backslash escapes a character and an underscore stands for a blank; what follows a number sign and empty lines do not count. Compiled, it gives for every key exactly the records of the lines with that key, in their order, wherever in the file these lines stand, and nothing for any other key; saved and loaded back, alone or within a larger file, it answers the same, also when it is empty. The kept vectors of texts and of non-decreasing numbers hold exactly what was put in, before and after saving, and find it. An annotator built on a lexicon (mapper, bilingual lexicon) looks up every annotation of its layer once and makes from every record found one annotation in the same place, with the text, category, attributes and tags its options prescribe, derived from the one looked up; nothing else in the document changes.",
 ["inputs","histories"],"every text lexicon and every set of keys and records (empty values, shared prefixes, multi-byte, keys absent from the lexicon); every document and option of the annotators built on them",
 "Tests store three or four fixed entries and map one word.",
 ["tools/datastructures/lexica/key_value_store.cpp","tools/datastructures/lexica/lexicon_base.cpp","tools/datastructures/lexica/perfect_hash_index.hpp","tools/datastructures/lexica/string_vector.hpp","tools/datastructures/lexica/monotonic_vector.hpp","tools/lexica/mapper/mapper.cpp","tools/lexica/bilexicon/bilexicon.cpp"],
 [("minimal perfect hash, fingerprints and value table","tools/datastructures/lexica/*"),("mapper and bilingual lexicon","tools/lexica/*")],["get/getRecords results before and after save/load","annotations added by the mapper and the bilingual lexicon"])
p("P21","Line-by-line processing treats every line as if it were alone",
 "Running a pipeline line by line writes exactly what it writes for each line on its own, one after another, whatever lines stand around it and whatever was run before; the last line counts also without a line end, an empty line is a line, and a line that fails ends the run after everything written before it. Not run line by line, all lines make one document. A document read from plain text has exactly the text given, one fragment per non-empty line (or one for all of it if asked); a pipeline of the plain-text reader, the tokenizer or the segmenter and the simple writer writes exactly the pieces the rules prescribe, in order.",
 ["inputs","histories"],"every sequence of lines (empty lines, missing final newline, carriage returns, multi-byte) and of runs of one runner, through pipelines of the toolkit's own processors",
 "The line-by-line mode is exercised by a few fixed command-line tests only.",
 ["framework/pipe_runner.cpp","common/lattice_reader.hpp","formats/txt/txt_lattice_reader.cpp","tools/recognizers/langguesser/lang_guesser.cpp","common/annotator_promise.cpp"],[("PipeRunner line loop, processors kept between lines","framework/pipe_runner.cpp"),("plain-text reader","formats/txt/txt_lattice_reader.cpp")],["output of the pipeline"])
p("P22","Layer conditions are decided exactly by set inclusion of tags",
 "Tag collections behave as sets: union, intersection, comparison and listing contain exactly the tags put in, whatever the order or repetition. A layer condition matches a tag collection exactly when one of its alternatives is contained in it ('any' always, 'none' never), textual condition specifications (alternatives of conjunctions) mean the alternatives and conjunctions they spell, a condition counts as 'any' or 'none' only when it is one, and asking a condition anything never changes what it matches.",
 ["inputs","histories"],"every sequence of tag registrations (up to the documented capacity, planes included) and every condition specification over them",
 "Tests check a dozen fixed masks.",
 ["common/layer_tag_manager.cpp","common/layer_tag_mask.cpp","common/layer_tag_collection.cpp"],[("bit sets per tag","common/layer_tag_collection.cpp, common/layer_tag_mask.cpp")],["matches, equality, listing"])
p("P23","Submitted form data reaches the session exactly",
 "A submitted form yields in the session of the request exactly the fields it carries: for a url-encoded form every name and value with percent-escapes and plus signs decoded, the last of equal names counting; for a multipart form every text part under its name and every file part with exactly its bytes under its name and its file name under the name followed by '-filename', whatever bytes (line breaks, NUL, text resembling the boundary) they consist of. Handling a form always terminates.",
 ["inputs"],"every form of named text and file fields over arbitrary bytes, in either encoding",
 "No test covers form handling.",
 ["server/psi_server.cpp","server/mpfd-parser/Parser.cpp","server/mpfd-parser/Field.cpp"],
 [("handleRequest's split of url-encoded bodies","server/psi_server.cpp"),("incremental multipart parser","server/mpfd-parser/Parser.cpp")],["session data after the request"])
p("P24","The dictionary lemmatizer gives exactly the readings of its dictionary",
 "A text dictionary has one record per line: a word form, its lemma, features of the lexeme and details of the form, separated by single tabs or blanks; empty lines and repeated lines do not count, a line without a lemma is refused. Compiled, saved and loaded or not, it gives for every word exactly the records with that form, whatever lemma belongs to it, and nothing for other words. The lemmatizer looks up every word token of its language as written, with all letters but the first made small and with the first one made small. For each of these that is in the dictionary it adds one normalized form derived from the token, for each lemma one lemma derived from the normalized form, and, as far as its level asks for, for each set of features one lexeme with them derived from the lemma and for each record one form with its details derived from the lexeme, all in the place of the token; nothing else in the document changes, and doing it again adds no new annotation.",
 ["inputs","histories"],"every dictionary of well-formed UTF-8 (shared prefixes, long words, lemmas unlike the form, several lexemes and lemmas of one form) and every document with tokens, at every level, with or without lexeme numbers",
 "The tests look up a handful of words in one fixed dictionary.",
 ["tools/lemmatizers/lamerlemma/dictionary.cpp","tools/lemmatizers/lamerlemma/utility_functions.cpp","tools/lemmatizers/lamerlemma/lamerlemma.cpp","common/lemmatizer_annotator.hpp","tools/datastructures/psi_query/fsa_multi_store.cpp"],
 [("records kept in an automaton, lemmas coded relative to the form","tools/lemmatizers/lamerlemma/utility_functions.cpp, tools/datastructures/psi_query/fsa_multi_store.*"),("chain of annotations added for a token","common/lemmatizer_annotator.hpp")],["annotations added by lamerlemma"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
