"""The properties, what decides each of them, and how much of the run time each workload gets.
tools/gen.py writes properties.jsonl and MANIFEST.json from this table; checks/check.py runs it."""
PARSE, TOK, IMPL, ROLE, POOL, RC = 'src/lib/xmlparse.rs', 'src/lib/xmltok.rs', 'src/lib/xmltok_impl.rs', 'src/lib/xmlrole.rs', 'src/string_pool.rs', 'src/fallible_rc.rs'
def m(name, where): return {'name': name, 'where': where}
RULE = ('Every case is one explicit workload (documents, external entities, encodings, feeding schedule, handler set, in-callback actions) '
        'drawn from a seeded generator; an execution is non-trivial when at least 3 callbacks were delivered, and distinct when the hash of its '
        'whole observed trace (callbacks with arguments, positions, errors) was not seen before in this run. ')
P = {}
def prop(id, title, statement, over, qtext, tests, files, mech, parts, rule='', observe=None, state=None, technique=None, note='', assume=None, **kw):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech, parts=parts, rule=RULE + rule,
                 observe=observe or ['the callbacks, return values, error codes and positions seen through the C API'], state=state, technique=technique, note=note, assumptions=assume or [], **kw)
def S(sub, w=1, **kw): return dict(sub=sub, w=w, **kw)

REFA = 'The reference is the libexpat 2.6.1 installed here (rexpat ports 2.2.9+); where that implementation itself is wrong or unspecified the comparison is not judged (list in DESIGN.md).'

prop('C01', 'No input or call pattern corrupts memory, panics or hangs the parser',
     'Whatever bytes are fed to a parser, in whatever pieces, under whatever configuration and with whatever legal calls made from inside its callbacks, the library never reads or writes outside its own live memory, never panics or aborts the process, and always returns. Every failure of the document comes back as an error code.',
     ['inputs', 'schedules', 'configurations', 'histories'], 'every byte sequence, every way of cutting it into pieces, every configuration and every in-callback action (stop, resume, handler changes, position queries, default passing), and entity parsers that are left unfinished, kept past their handler or outlived by a reset of their parent',
     'The tests parse a few hundred fixed documents, mostly well-formed, without a sanitizer; memory errors of the raw-pointer tokenizer and panics of the checked Rust code depend on what bytes lie at the end of a buffer and on which callback re-enters the parser.',
     [PARSE, TOK, IMPL, POOL, RC], [m('parse loop and buffer management', PARSE + ': XML_Parse, XML_GetBuffer, XML_ParseBuffer'), m('tokenizer bounds checks', IMPL), m('string pool growth and pointers into it', POOL)],
     [S('mem', 3, v='asan'), S('mem', 3), S('chunk-soup', 1, v='asan'), S('actions', 1, v='asan'), S('scale-mem', 2, v='asan'), S('scale-mem', 1), S('scale-dtd', 1, v='asan'), S('family', 1, v='asan'), S('deep', 1), S('mem', 1, v='moz', thorough=True), S('susp-meta', 1, v='moz', thorough=True)],
     technique='AddressSanitizer build (Rust and harness) plus a build with debug assertions and overflow checks, under hostile workloads; panic, abort, sanitizer report, hang and broken callback-argument invariants are the violations',
     note='Sampled executions; the sanitizer sees what the executions touch. std itself is not instrumented (its allocations are intercepted).')

prop('C03', 'How a document is cut into pieces makes no difference',
     'A document fed in any number of pieces of any sizes, through the copying or the in-place buffer interface, including empty pieces and a separate final call, produces the same sequence of events, the same positions, the same verdict and the same error as feeding it in one piece. Only the splitting of character data and default data into several calls may differ.',
     ['inputs', 'schedules'], 'every document and every partition of its bytes into feeding calls, for the document entity and every external entity',
     'Tests feed most documents whole and a few byte by byte; a token, a multi-byte character, a line end or a declaration can be cut at any offset.',
     [PARSE, IMPL, TOK], [m('keeping the unparsed tail between calls', PARSE + ': XML_Parse, XML_GetBuffer'), m('partial tokens and partial characters', IMPL), m('raw names kept across calls', PARSE + ': storeRawNames')],
     [S('splits', 4), S('chunk', 3), S('chunk-soup', 2), S('chunk', 1, v='u16')],
     rule='The same document is fed whole and in pieces (splits: every single cut of a short document); the two coalesced traces must be equal.',
     technique='metamorphic trace monitor: same bytes, different feeding schedules, equal coalesced event traces with positions',
     note='Self-consistency oracle, independent of the reference. Sampled documents; for short ones every single cut position is tried.')

prop('C04', 'Exactly the well-formed documents are accepted, with the right error code',
     'A document is accepted if and only if it is well-formed XML 1.0 (as a non-validating processor that has read its external entities checks it), and a rejected document is rejected with the error code that names its first defect. The verdict does not depend on configuration that only selects what is reported.',
     ['inputs', 'configurations'], 'every document, well-formed or not, with its external entities',
     'Tests hold a few dozen malformed documents; the grammar has unboundedly many ways to be violated, at every place of every construct.',
     [PARSE, TOK, IMPL, ROLE], [m('prolog state machine', ROLE), m('token recognition', IMPL), m('content, prolog and epilog processors', PARSE + ': doContent, doProlog, epilogProcessor')],
     [S('enum-tok', 1), S('enum-tok4', 3), S('enum-bytes', 1), S('enum-bytes4', 2), S('ctrl', 2), S('wf-mut', 3), S('diff-soup', 3), S('diff-gen', 2), S('enum-tok4', 1, v='u16'), S('enum-tok5', 8, thorough=True), S('enum-bytes5', 4, thorough=True), S('ctrl', 1, v='u16', thorough=True)],
     rule='Verdict, error code and preceding events are compared with the reference implementation; the enumerated parts run all sequences of short tokens/bytes of fixed alphabets.',
     technique='online differential monitor against a reference implementation over mutated, random and exhaustively enumerated token sequences', note='Enumerated up to small bounds, sampled beyond. ' + REFA, assume=[REFA])

prop('C05', 'The content of a document is reported completely, in order, and unchanged',
     'For an accepted document the handlers receive every element start and end (properly nested, with their names), all character data, comments, processing instructions, CDATA boundaries, the XML and text declarations, each exactly once, in document order, with line ends normalised and character references replaced. Nothing is lost, repeated, reordered or invented.',
     ['inputs'], 'every well-formed document',
     'Tests compare a few fixed documents with hand-written expectations; conversion buffers, pool growth and name lookup depend on lengths and on the mix of content.',
     [PARSE, IMPL, TOK], [m('content processor', PARSE + ': doContent, doCdataSection, reportComment, reportProcessingInstruction'), m('character conversion', TOK)],
     [S('content', 3), S('tiles', 2), S('roundtrip', 3), S('diff-valid', 2), S('scale-elem', 2)],
     rule='tiles: the byte ranges of all events must tile the document; roundtrip: the generator knows the events it wrote down; content, diff-valid: events equal to the reference.',
     technique='offline trace checkers (conservation/tiling of byte ranges, generator-known expectation) and differential event comparison', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C06', 'Every encoding of a document yields the same events',
     'A document reports the same events whichever supported encoding it is stored in (UTF-8, UTF-16 of either byte order, ISO-8859-1, US-ASCII, or one described by the application\'s unknown-encoding handler) and however that encoding is announced (byte order mark, declaration, protocol). Invalid byte sequences and unsupported or contradictory encodings are rejected with the matching error.',
     ['inputs', 'configurations'], 'every document, every encoding able to represent it, every way of announcing it',
     'Tests hold a handful of documents per encoding; the class and conversion tables have 256 or 65536 entries each and conversion buffers can end inside any character.',
     [TOK, IMPL, PARSE], [m('encoding detection', TOK + ': initScan'), m('conversion functions', TOK + ': utf8/utf16/latin1/ascii/unknown'), m('unknown encodings', PARSE + ': handleUnknownEncoding')],
     [S('enc-meta', 3), S('enc', 3), S('unkenc', 2), S('enc', 1, v='u16'), S('unkenc', 1, v='asan')],
     rule='The same document is transcoded into several encodings; events must be equal. enc: compared with the reference, including invalid sequences.',
     technique='metamorphic trace monitor over transcoded documents plus differential monitor', note='Sampled documents, encodings enumerated. ' + REFA, assume=[REFA])

prop('C07', 'Every character is classified as XML 1.0 requires, in every encoding',
     'For every Unicode code point, in every built-in encoding and through a custom encoding, the parser decides exactly as XML 1.0 (fourth edition names) does whether it may occur in content, in attribute values, in comments and processing instructions, whether it may start a name and whether it may continue one. Every malformed UTF-8 sequence and every unpaired trailing UTF-16 surrogate is rejected.',
     ['inputs'], 'all code points and all malformed 1- to 4-byte sequences, in each encoding and each syntactic position',
     'Tests try a few dozen characters of the 1.1 million and a few malformed sequences.',
     [TOK, IMPL, 'src/lib/nametab.rs'], [m('byte type tables and UTF-8 validity predicates', TOK), m('name character bitmaps', 'src/lib/nametab.rs'), m('per-character scanners', IMPL)],
     [S('char', 4), S('char-seq', 2), S('char-sup', 2), S('char', 3, v='u16'), S('char-seq', 1, v='u16'), S('char-sup', 8, v='u16', thorough=True)],
     rule='One case is one block of code points (or byte sequences) in one position and encoding; each of its members is parsed and the verdict compared with the XML 1.0 productions written independently in the harness.',
     technique='exhaustive execution of every code point under an independent oracle of the XML 1.0 character productions', note='Exhaustive over code points x positions x encodings (quick: all of the BMP plus samples of the supplementary planes; thorough: all). Exceptions taken over from libexpat: U+00AA, U+00B5 and U+00BA are name characters in ISO-8859-1 and UTF-16; a leading UTF-16 surrogate is paired with whatever follows.')

prop('C08', 'Namespace processing binds every name as Namespaces in XML requires',
     'With namespace processing on, every element and attribute name is reported with the namespace its prefix is bound to at that point (the default namespace for unprefixed elements only), declarations are announced and withdrawn in balanced pairs around the element that carries them, and triplets, separators and reserved prefixes behave as configured. Unbound prefixes, illegal rebindings and attributes that coincide after expansion are rejected.',
     ['inputs', 'configurations'], 'every document, nesting of declarations and separator/triplet configuration',
     'Tests use a dozen documents with one or two nested declarations; scopes, reuse of freed bindings and long URIs arise only from deeper histories.',
     [PARSE], [m('binding stack', PARSE + ': addBinding, storeAtts'), m('name expansion and duplicate detection by hash', PARSE + ': storeAtts'), m('prefix tables and cloned DTD', PARSE + ': DTD')],
     [S('ns-model', 3), S('names', 3), S('names', 1, v='u16'), S('scale-ns', 2)],
     rule='ns-model: an independent model of namespace scoping predicts every name and declaration event; names: compared with the reference.',
     technique='online model monitor of namespace scopes plus differential monitor', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C09', 'Attributes are reported completely, normalised and defaulted',
     'Each start event carries every attribute of the element exactly once: the specified ones first and in order, then the declared defaults that were not specified, with values normalised according to their declared type, the count of specified ones and the position of the ID attribute. Repeated attributes are rejected.',
     ['inputs', 'configurations'], 'every document, attribute declaration and use of references in values',
     'Tests use elements with a few short attributes; array growth, hash collisions, default merging and normalisation depend on counts, lengths and declared types.',
     [PARSE], [m('attribute collection', PARSE + ': storeAtts'), m('value normalisation', PARSE + ': storeAttributeValue, appendAttributeValue'), m('declared defaults', PARSE + ': defineAttribute')],
     [S('attr-model', 3), S('attrs', 3), S('attrs', 1, v='u16'), S('scale-attr', 2)],
     rule='attr-model: an independent model of declarations and normalisation predicts names, values, counts and ID index; attrs: compared with the reference.',
     technique='model-based trace monitor plus differential monitor', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C10', 'Document type declarations are reported faithfully',
     'Every declaration that is read is reported once, in order, with the right arguments: document type name and identifiers, element content models as the tree that was written, attribute types and defaults, entity values and identifiers (relative to the base in force), notations, unparsed entities and skipped entities. Which external parts are read follows the configured parameter-entity policy and the standalone declaration.',
     ['inputs', 'configurations'], 'every internal and external subset and every parameter-entity configuration',
     'Tests declare a few of each; content models nest without bound, and conditional sections, parameter entities and defaults combine.',
     [PARSE, ROLE], [m('declaration processing', PARSE + ': doProlog'), m('content model tree', PARSE + ': build_model, nextScaffoldPart'), m('role state machine', ROLE)],
     [S('dtd-model', 3), S('dtd', 4), S('dtd', 1, v='u16'), S('scale-dtd', 2)],
     rule='dtd-model: the generator writes random declarations (content models, attribute lists, entities, notations) and knows the events they must give; dtd: compared with the reference.',
     technique='differential monitor and generator-known expectation over declaration events', note='Sampled declarations. ' + REFA, assume=[REFA])

prop('C11', 'Entity references are replaced by what was declared',
     'A reference to a general or parameter entity has the same effect as its replacement text standing in its place, the first declaration binds, predefined and character references give their characters, and external entities are requested from the application with the declared identifiers and become part of the parse it makes of them. Recursion, references to unparsed or external entities in attribute values, entities not properly nested in the structure, and undeclared ones are rejected or reported as skipped exactly as the standalone and external-subset rules say.',
     ['inputs', 'configurations'], 'every set of entity declarations and every placement of references',
     'Tests expand a few entities one or two levels deep; replacement text can hold any markup, be nested, arrive in pieces, and be shared between parent and child parsers.',
     [PARSE], [m('internal entities', PARSE + ': processInternalEntity, internalEntityProcessor'), m('entity values', PARSE + ': storeEntityValue'), m('external entities', PARSE + ': XML_ExternalEntityParserCreate, externalEntityInitProcessor'), m('entity declarations', PARSE + ': doProlog')],
     [S('ent-inline', 3), S('ent-value', 2), S('ents', 3), S('scale-ent', 2)],
     rule='ent-inline: the document with its references textually replaced must give the same events; ent-value: the reported value must equal an independent expansion; ents: compared with the reference.',
     technique='metamorphic inlining monitor, model monitor of entity values, differential monitor', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C12', 'Reported positions and input context point at the event',
     'In every callback and after every error, the byte index, line, column and byte count the parser reports are those of the construct being reported in the entity being parsed, and the input context shows exactly the bytes that were fed around that index. Asking changes nothing and can be done at any time.',
     ['inputs', 'schedules'], 'every document and encoding, every feeding schedule, every moment at which a position is asked for',
     'Tests check a few positions in small documents fed whole; positions are computed lazily and incrementally, across pieces, suspensions and multi-byte characters.',
     [PARSE, IMPL], [m('position queries', PARSE + ': XML_GetCurrentByteIndex, XML_GetCurrentLineNumber, XML_GetInputContext'), m('line and column counting', IMPL + ': updatePosition')],
     [S('linecol', 3), S('pos', 3), S('pos-tok', 2), S('pos-bytes', 1), S('pos-ctrl', 1), S('pos', 1, v='u16'), S('scale-pos', 2), S('pos-some', 2)],
     rule='linecol: index, count, line, column and context of every event are recomputed from the document by an independent counter; pos: compared with the reference.',
     technique='offline position checker over recorded events (independent line/column/byte model) plus differential monitor', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C13', 'Suspending and resuming is invisible; aborting stops at once',
     'A parse suspended in any callback and resumed later delivers the same remaining events and verdict as one never suspended, and the state it reports meanwhile is that of a suspended parser. After a non-resumable stop at most the closing events of the construct being reported follow, the parse call reports that it was aborted, and the parser cannot be resumed.',
     ['inputs', 'schedules', 'histories'], 'every document and every set of callbacks in which the parser is stopped, with any feeding schedule',
     'Tests suspend in a handful of callbacks of small documents; each callback site resumes through a different path, inside entities, CDATA sections, the prolog or at a buffer end.',
     [PARSE], [m('stop and resume', PARSE + ': XML_StopParser, XML_ResumeParser'), m('re-entry points of the processors', PARSE + ': doContent, doProlog, doCdataSection, internalEntityProcessor')],
     [S('susp-meta', 3), S('abort', 2), S('suspend', 3)],
     rule='susp-meta: the suspended run must give the trace of the uninterrupted run; abort: nothing but closing events after the stop; suspend: compared with the reference.',
     technique='injected suspensions and aborts at every callback; metamorphic and trace-specification monitors', note='Sampled documents, injected stop points sampled per document. ' + REFA, assume=[REFA])

prop('C15', 'The default handler receives exactly what no other handler took',
     'With only a default handler set, the concatenation of what it receives is the document entity itself, converted to the output encoding; with other handlers set it receives exactly the remaining markup and text, once and in order. Passing the current event on to it delivers the text of that event.',
     ['inputs', 'configurations', 'schedules'], 'every document, set of handlers and feeding schedule',
     'Tests check a few documents with a few handler sets; every token kind has its own path to the default handler.',
     [PARSE], [m('default reporting', PARSE + ': reportDefault, XML_DefaultCurrent'), m('choice between handler and default', PARSE + ': doContent, doProlog')],
     [S('default', 3), S('tiles', 2), S('defcur', 2), S('handlers', 2), S('scale-def', 1)],
     rule='default: the concatenated default data must equal the document; tiles: the extents of all events tile it; handlers: compared with the reference.',
     technique='conservation monitor over recorded default data', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C16', 'A reset parser behaves like a new one',
     'After a reset, at whatever point of whatever earlier parse, the parser behaves for the next document exactly as a newly created parser with the same settings that survive a reset, and nothing of the earlier document, its declarations, bindings, errors or positions shows.',
     ['histories', 'inputs'], 'every earlier parse, finished, failed, suspended or cut off anywhere, and every later document',
     'Tests reset after a few complete or failed documents; what is left behind depends on where the earlier parse stopped.',
     [PARSE, POOL], [m('reset', PARSE + ': XML_ParserReset, startParsing'), m('clearing of tables and pools', PARSE + ': DTD reset; ' + POOL)],
     [S('reset', 3), S('reset-clear', 2), S('reset', 1, v='asan')],
     rule='The trace after a reset must equal the trace of a fresh parser.',
     technique='metamorphic monitor: reset parser against fresh parser, over parses cut off at random points', note='Sampled histories.')

prop('C18', 'The UTF-16 build reports the same as the UTF-8 build',
     'Built with 16-bit characters, the library reports every name, value, text and identifier as the UTF-16 form of what the 8-bit build reports, with the same events, positions, verdicts and errors, for every document including characters beyond the basic plane.',
     ['inputs', 'configurations'], 'every document and configuration, in the wide-character build',
     'The wide build is exercised by the same fixed documents; its conversion paths, buffer limits and in-place reporting differ from the 8-bit ones.',
     [PARSE, TOK, IMPL], [m('XML_Char width', 'src/lib.rs, src/lib/expat_external.rs'), m('UTF-16 conversions', TOK), m('character-unit dependent code', PARSE)],
     [S('diff-valid', 2, v='u16'), S('diff-gen', 2, v='u16'), S('content', 2, v='u16'), S('ents', 1, v='u16'), S('handlers', 1, v='u16'), S('tiles', 1, v='u16'), S('susp-meta', 1, v='u16'), S('default', 1, v='u16'), S('ent-value', 1, v='u16'), S('ns-model', 1, v='u16'), S('mem', 1, v='u16'), S('scale-elem', 1, v='u16'), S('scale-attr', 1, v='u16'), S('scale-def', 1, v='u16'), S('scale-ns', 1, v='u16'), S('roundtrip', 1, v='u16'), S('dtd-model', 1, v='u16'), S('attr-model', 1, v='u16')],
     rule='All strings are converted back to UTF-8 by the harness, which rejects ill-formed UTF-16; traces are compared with the wide reference build and the same monitors as in the 8-bit build run.',
     technique='differential monitor against the wide-character reference build plus metamorphic monitors on the wide build', note='Sampled documents. ' + REFA, assume=[REFA])

prop('C14', 'API calls outside their legal state return the documented error',
     'Every public function, called in any order and any state of the parser (never used, parsing, inside a callback, suspended, finished, failed, reset), either does what its documentation says for that state or returns the documented failure value and error code and leaves the parser as it was: settings that may no longer change are refused, a finished or suspended parser refuses further input with the matching error, and queries answer without disturbing the parse.',
     ['histories', 'inputs'], 'every sequence of public calls, in and outside callbacks',
     'Tests make a few dozen calls out of order; each function has its own guard for each parser state.',
     [PARSE], [m('state guards', PARSE + ': XML_Parse, XML_ParseBuffer, XML_GetBuffer, XML_ResumeParser, XML_StopParser, XML_SetEncoding, XML_UseForeignDTD, XML_SetParamEntityParsing, XML_SetHashSalt'), m('status and error queries', PARSE + ': XML_GetParsingStatus, XML_GetErrorCode, XML_ErrorString')],
     [S('api', 5), S('noparser', 1), S('actions', 3), S('setunset', 1), S('api', 1, v='asan'), S('api', 1, v='u16')],
     rule='api: a random history of public calls is driven in lockstep against the reference; after every call the return value, error code, parsing status and position of both are compared.',
     technique='lockstep differential monitor over random API call histories (return values, error codes, parser status after every call)', note='Sampled histories. ' + REFA, assume=[REFA])

prop('C17', 'The xmlwf program judges and rewrites files as documented',
     'For every file, set of options and way of reading (mapped, streamed, standard input) xmlwf exits with 0 when all files are well-formed, and otherwise stops at the first that is not with status 2 and one line naming file, line, column and error. The canonical, copied or meta output it writes is exactly what the document contains, and no output remains of a file that failed.',
     ['inputs', 'configurations'], 'every document with its external entities, every combination of options, any file name, any split of standard input into reads',
     'The tests run xmlwf over the W3C suite only when it is there; most options and their combinations are never run.',
     ['src/xmlwf/xmlwf.rs', 'src/xmlwf/xmlfile.rs', 'src/xmlwf/readfilemap.rs', 'src/xmlwf/codepage.rs', PARSE], [m('options and output handlers', 'src/xmlwf/xmlwf.rs'), m('reading, external entities, error reports', 'src/xmlwf/xmlfile.rs'), m('whole-file reading', 'src/xmlwf/readfilemap.rs')],
     [S('wf', 4), S('wf-meta', 2), S('wf-asan', 2)], variants=['xmlwf', 'xmlwfasan'],
     rule='One evaluation is one run of the built program in a scratch directory as an unprivileged user; distinct when options, status, messages and outputs together are new.', observe=['exit status, standard output and every file the program wrote'],
     technique='differential monitor of the real process against a model of its documentation over the reference parser, metamorphic monitor (mapped, streamed, piped; copy is the input; canonical form is a fixed point), AddressSanitizer build of the program', note='Sampled documents and option sets. ' + REFA, assume=[REFA])

prop('C19', 'Parsers do not influence each other',
     'Any number of parsers can be used at the same time, interleaved on one thread or each on a thread of its own, and a parser can move between threads; each reports exactly what it would report alone. A parser made for an external general entity is independent of its parent: it may be used on another thread, or after its parent has been freed.',
     ['schedules', 'histories', 'inputs'], 'every set of parsers and documents and every interleaving of their calls, also of calls made while callbacks of the others run',
     'Tests use one parser at a time on one thread; shared state, a data race or a reference count shared between parsers only shows under interleavings.',
     [PARSE, TOK, RC, POOL], [m('per-parser state', PARSE + ': XML_ParserStruct, parserCreate'), m('DTD copied for external entities', PARSE + ': dtdCopy, XML_ExternalEntityParserCreate'), m('static tables', TOK), m('reference counts', RC)],
     [S('inter', 3), S('family', 3), S('migrate', 1), S('threads', 2), S('threads', 2, v='tsan'), S('family', 2, v='tsan'), S('migrate', 1, v='tsan', thorough=True), S('family', 2, v='asan'), S('inter', 1, v='u16', thorough=True)],
     rule='Each parser\'s trace must equal its trace when run alone; inter: one execution is one random schedule of switches (also inside callbacks), distinct when the schedule differs; under tsan a data race report is a violation.',
     technique='ThreadSanitizer plus trace comparison of each parser alone and together with others under randomly scheduled and free-running threads', note='Sampled schedules.')

prop('C20', 'Memory use is bounded by the open constructs and all of it is released',
     'What a parser holds depends on the declarations read, the elements open and the longest token, not on how much document has gone by; a parser reset again and again does not accumulate; and freeing a parser, in whatever state, releases everything it and its callbacks\' content models did not hand over.',
     ['inputs', 'histories', 'schedules'], 'every document, however long, every state in which a parser is freed or reset',
     'Tests free parsers after complete parses of small documents and do not look at the heap.',
     [PARSE, POOL], [m('freeing', PARSE + ': XML_ParserFree, Drop of XML_ParserStruct and its parts'), m('reuse of buffers, tags, bindings', PARSE + ': freeTagList, freeBindingList, XML_GetBuffer'), m('string pool blocks', POOL)],
     [S('bound', 4), S('free', 2), S('cycles', 2), S('mem', 1), S('free', 1, v='asan'), S('bound', 1, v='u16'), S('free', 1, v='u16')],
     rule='bound: a pattern repeated N and 4N times must peak at the same memory (where the reference does); free, cycles: library allocations counted by interposed allocator functions.',
     technique='heap accounting monitor (interposed allocator) over stretched documents, parsers freed at random points and repeated resets', note='Sampled documents; growth is judged on factor-4 repetition.')

prop('C21', 'Which handlers are set does not change what the others see',
     'Setting, leaving out or exchanging handlers, before or during a parse, changes neither the verdict nor what the remaining handlers receive nor their order, beyond what the handler itself is defined to control (replacing entities, reading external ones). A handler set during a parse takes effect with the next event, one removed is not called again.',
     ['configurations', 'schedules', 'inputs'], 'every subset of handlers and every sequence of changes from inside callbacks',
     'Tests set a few combinations; with more than twenty handlers there are millions, and many code paths are taken only when one is absent.',
     [PARSE], [m('handler dispatch', PARSE + ': doContent, doProlog, storeAtts'), m('setters', PARSE + ': XML_Set*Handler')],
     [S('handlers-meta', 3), S('handlers', 2), S('setunset', 3), S('handlers-late', 3)],
     rule='handlers-meta: the trace of a run with fewer handlers must be the projection of the run with all of them; handlers, setunset: compared with the reference.',
     technique='metamorphic projection monitor plus differential monitor', note='Sampled subsets and documents. ' + REFA, assume=[REFA])
prop('C22', 'Running out of memory is reported, at whatever allocation it happens',
     'When an allocation fails, once or from then on, the call in progress reports it: the parse fails with the out-of-memory error (or, for an external entity, with the error its handler\'s failure causes), a creating function returns NULL, a setter its failure value. The process never aborts, nothing wrong is reported before the failure, and freeing the parser releases everything.',
     ['fault_sequences', 'inputs', 'histories'], 'every document, configuration and feeding schedule and every allocation made while parsing it',
     'A few tests fail the first allocations of small documents; each allocation site has its own failure path, and most are reached only when a table or buffer has to grow.',
     [PARSE, POOL, RC], [m('fallible allocation of tables, buffers and boxes', PARSE + ': hash_insert!, try_reserve, MALLOC!, REALLOC!'), m('string pools', POOL), m('fallible reference counting', RC)],
     [S('oom', 3), S('oom-scale', 4), S('oom-mem', 2), S('oom-mem', 1, v='asan'), S('oom', 1, v='asan'), S('oom-scale', 2, v='asan'), S('oom-scale', 1, v='u16')],
     rule='Each evaluation fails one chosen allocation (or it and all later ones) of one workload.',
     technique='fault injection into every library allocation with trace-prefix, error-code and leak monitors, with and without AddressSanitizer', note='Allocation sites are sampled per document; an error that is not reported must leave the trace unchanged.')
PROPS = P
NOT_APPLICABLE = []
import os, re
_src = ''.join(open(f).read() for f in __import__('glob').glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'oracles_*.cpp')))
_known = set(re.findall(r'add\("([a-z0-9-]+)"', _src))
for _p in P.values():
    _p['parts'] = [q for q in _p['parts'] if q.get('script') or q['sub'] in _known]
for _k in [k for k in P if not P[k]['parts']]: del P[_k]
