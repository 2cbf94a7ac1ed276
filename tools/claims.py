T = "TLA+ specification checked with TLC; "
LM = ("spec/LatticeModel.tla is model-checked exhaustively for a 2-character document (all histories up to the bound in the config); "
      "every short history and sampled longer ones are replayed into the real Lattice, together with long random histories over multi-byte texts, "
      "and every recorded call and the complete document after it is validated against spec/LatticeOps.tla by TLC. ")
CLAIMS = {
 "P01": (T + "trace validation of the real Lattice (spec/LatticeTrace.tla, facet state)", LM + "Bounded: sampled beyond the model's bounds."),
 "P02": (T + "trace validation of the real Lattice (spec/LatticeTrace.tla, facet state)", LM + "Histories biased to re-adding the same labels in and across planes."),
 "P03": (T + "trace validation of layer queries (spec/LatticeTrace.tla, facet query)", LM + "Queries interleaved with edits so that per-condition indices exist before, between and after them."),
 "P04": (T + "replay of all short correction histories and trace validation (facet state)", "spec/LatticeModel.tla with correction calls (LatticeCorr configs), exhaustive up to the bound, replayed and validated; plus random multi-byte documents."),
 "P05": (T + "trace validation of provenance and paths (spec/LatticeTrace.tla, facet prov)", LM + "Origin queries on circular derivations are excluded."),
 "P06": (T + "trace validation of point enumeration (spec/LatticeTrace.tla, facet walk)", LM + "Graphs are acyclic by construction."),
 "P14": (T + "replay of all short request scripts with every split and trace validation (spec/HttpTrace.tla)", "spec/HttpOps.tla is the request grammar as a byte-wise automaton; HttpModel explores requests from a token alphabet (all splits give the same result); the scripts and random well- and ill-formed byte strings, cut in random pieces, run through the real parser and every verdict and field after each piece is validated."),
 "P15": (T + "trace validation of replies (spec/SiteTrace.tla)", "spec/SiteOps.tla defines decoding, path resolution and page assembly; SiteModel checks containment for all addresses up to a length over a hostile alphabet; real replies for those and random addresses over a scratch site are validated."),
 "P16": (T + "exhaustive interleavings of session handling replayed into the server; trace validation (spec/SessionTrace.tla)", "spec/SessionModel.tla explores interleaved requests (with the pre-repair design as a negative control that must violate OwnPage/OwnData); interleaved schedules are replayed in the real server with threads stepped in the model's order; storages sharing a directory included."),
 "P17": (T + "all short request histories replayed and trace validated (spec/CacheTrace.tla)", "Exhaustive up to the bound of CacheModel, sampled beyond."),
 "P18": (T + "all short setting histories replayed and trace validated (spec/AttrTrace.tla)", "Exhaustive up to the bound of AttrModel, random histories with hostile values beyond."),
 "P22": (T + "all short tag/condition histories replayed and trace validated (spec/TagTrace.tla)", "Exhaustive up to the bound of TagModel, random histories beyond (planes, capacity)."),
 "P23": (T + "replay of generated forms and trace validation (spec/SiteTrace.tla, forms)", "spec/FormModel.tla enumerates forms up to a bound; the real server handles each, split in pieces, and the resulting session data is validated against spec/SiteOps.tla."),
 "P10": (T + "all small registries and requests replayed and trace validated (spec/CompleteTrace.tla)", "spec/CompleteModel.tla checks that the completions computed by CompleteOps satisfy what is said of them, that the search terminates (a negative control without the circle rule must not), and that failure means not completable; its scripts and random registries run through the real AutoCompleter, and every answer must be one of the best completions of CompleteOps."),
 "P11": (T + "all short alias declaration histories replayed and trace validated (spec/CompleteTrace.tla)", "Exhaustive up to the bound of AliasModel (loops included), random deeper histories beyond."),
 "P13": (T + "all small documents replayed through the processors and trace validated (spec/ConvTrace.tla)", "spec/ConvModel.tla checks the statement against ConvOps for all documents of a few annotations; those documents and random ones (multi-byte texts, extra points, planes) run through the real processors, created from their options, and the whole document after each run must be the one ConvOps computes."),
 "P19": (T + "trace validation of automaton operations (spec/FsaTrace.tla)", "spec/FsaModel.tla checks the language laws of the reference operations; the real operations run on random automata (empty moves, unreachable and dead states), results are dumped state by state and compared by an exact language-equivalence search in the specification."),
 "P09": (T + "all small documents and requests written by the real writers and trace validated (spec/IterTrace.tla)", "spec/IterModel.tla checks what the statement says against IterOps for all documents of a few annotations and all requests; those are replayed, with random larger documents (gaps, blanks, extra points, groups of several layers, hostile characters), through LatticeIterWriter with a recording sink and through simple-writer and json-simple-writer created from option strings; events, text and parsed JSON must be those of spec/IterOps.tla."),
 "P07": (T + "all small texts and rule lists cut by the real tokenizer and segmenter and trace validated (spec/CutTrace.tla)", "spec/CutModel.tla checks tiling, limits and rule priority of CutOps for all small texts and rule lists; those and random rule files (inclusions, definitions, conditionals, comments, multi-byte classes, limits, two cuts in a row, fragments of larger buffers, annotated fragments in documents) run through TpTokenCutter, TpTokenizer and SrxSegmenter, and every piece must be the one CutOps computes."),
 "P12": (T + "agenda machine model-checked in every order; small and random grammars parsed by the real parser and trace validated (spec/ParseTrace.tla)", "spec/ParseModel.tla takes pending items in every order and must always end in the least closure of ParseOps (a negative control that forgets to retry must not); all its grammars and random ones (options, alternatives, heads, conditions, cyclic unary rules, blanks, limits, both agendas) are parsed by the real code - the plain context-free combinator and the whole annotator from a grammar file - and annotations, partitions, scores and trees are compared with the closure."),
 "P20": (T + "lexica compiled from texts and asked in a model; stores, vectors, lexica, mapper and bilingual lexicon trace validated (spec/LexTrace.tla, spec/MapTrace.tla)", "spec/LexModel.tla compiles a text line by line and asks it and must agree with LexOps (two negative controls: grouping only adjacent lines, no fingerprints); spec/MapModel.tla checks what the statement says about mapped documents. Their scripts and random ones (lexica with comments, escapes, repeated and absent keys, save and load within larger files, long and binary texts, number gaps around every width) run through the real code, and every answer and every document must be the one the specification computes."),
 "P21": (T + "runner machine model-checked character by character; recorded runs of the real runner trace validated (spec/RunTrace.tla)", "spec/RunModel.tla runs inputs character by character, line by line or as one document, with kept processors and repeated runs (four negative controls: a document, pieces, the last line or an empty line handled wrongly); its inputs and random ones run through the real PipeRunner with tokenizer and segmenter rules, where all output is prescribed, and through some thirty pipelines of the toolkit's own processors and writers, where what a line gives on its own (a new runner in a new process) prescribes every run with other lines."),
 "P24": (T + "dictionary compiled line by line and asked in a model; runs of the real lemmatizer trace validated (spec/LemTrace.tla)", "spec/LemModel.tla compiles dictionaries into texts with lemmas coded relative to the form, asks them by prefix and must agree with LemOps (a negative control lets the code wrap), and checks what the statement says about documents; its dictionaries and random ones (long words, lemmas unlike the form, repeated records, capitals, multi-byte, planes, tokens in several places) run through the real lemmatizer created from its options, directly and compiled, saved and loaded, and the whole document after each run must be the one LemOps computes."),
 "P08": (T + "documents written, read back and written again in a model; files and documents of the real writer and reader trace validated (spec/PsiTrace.tla)", "spec/PsiModel.tla builds every small document (bare characters or not, annotations with derivations over them and each other, extra branch points), writes it row by row and reads the rows with the reading rules of PsiOps: the rows must make sense in order (each part and all text told before they are needed) and tell the same document (negative controls: brackets of bare characters told wrongly, parts told late). Its documents and random ones (special and multi-byte characters in every field, long texts, scores, roles, several derivations, chains of branch points) are written by the real writer, read by the real reader and written again: what the rows say by the reading rules must be the document, the document read back must be it too, and so must its own file."),
}
NOT = {}
DETAIL = {
 "P08": "Domain: scores of at most six digits, derivations without circles that are paths over the annotation; the tag 'symbol' only on bare characters; `, [ <` in categories, `, [` in attributes, `=` in their names, `, ( )` and the like in tags and roles, and \\v and \\f are excluded because the format gives them a meaning and has no quotation for them. Rules and chosen trees of derivations and text after everything annotated are not part of the format (the repository's own tests pin the latter).",
 "P07": "Rule patterns come from a fixed family (classes, repetitions, literals) so that the specification can match them itself; the regular-expression engine is outside.",
 "P12": "Domain: given annotations neither begin nor end with a blank and rules mention no blanks. References in conditions are by place in the rule; attributes whose names begin with '!' are the parser's own notes kept while a long rule is handled in steps. Trees: spans of the chosen parts and containment are checked, not their shape.",
 "P09": "The order in which groups of different layers are opened and closed at one point is left open; a group lasts until the next one of its layer begins. JSON is checked with at most one layer of groups (the writer nests by position, not by layer).",
 "P13": "Domain of the joiner: the tags given to joined annotations do not put them into the left layer; a pair whose joined annotation would be one of the pair itself is refused by the document and ends the run. Planes come from the language option.",
 "P20": "Fingerprints are 32-bit hashes: a key never put in may be answered with a record with probability 2^-32 per question. A store is given every key once. Tags of what is mapped do not complete the layer condition of the mapper itself.",
 "P24": "Features in a dictionary are not empty texts; words are looked up with the letters of the Latin and Cyrillic alphabets in the generator, other scripts' capitals are not exercised.",
 "P21": "Processors that need Perl, Java or external libraries are not part of the runs. Options of a processor named like one of the runner's own (--line-by-line) are taken by the runner and not used.",
}
