#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
XP = "src/lib/xmlparse.rs"; XT = "src/lib/xmltok.rs"; XI = "src/lib/xmltok_impl.rs"; XR = "src/lib/xmlrole.rs"; SP = "src/string_pool.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, level, technique, note, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note, observe=observe, state=state))
BASE = "Default features on x86-64; every bound is in the evidence file; trusts the driver, the interposing allocator and rustc."

prop("C01", "Chunking of the input changes nothing",
 "For a given document and configuration, the sequence of handler calls with their arguments (adjacent pieces of character data joined), the positions reported during them, and the final status, error code and error position do not depend on how the bytes are divided over XML_Parse or XML_GetBuffer/XML_ParseBuffer calls, nor on whether the last call carries data. The same holds for the bytes of external entities.",
 ["inputs", "histories"], "every document, every division of it into chunks, both input interfaces and their mixtures",
 "The tests feed a few documents whole or byte by byte; a token can be cut at any byte, in any state, in any encoding and at any buffer fill level.",
 [XP, XT, XI], [("input buffer with context bytes", XP + " XML_Parse/XML_GetBuffer/XML_ParseBuffer"), ("partial-token results of the scanners", XI), ("processors that return how far they came", XP + " *Processor")],
 "exploration", "stateless exploration of all divisions of bounded documents, against the one-call run",
 "Exhaustive for 0-2 cuts (3 on short documents) of the corpus and single cuts of all token sequences up to the stated depth. " + BASE, ["handler calls", "XML_GetErrorCode", "XML_GetCurrent*"])
prop("C02", "Suspension is transparent and takes effect at once",
 "Suspending the parser in any handler call and resuming it any number of times yields the same handler calls with the same arguments, and the same final status, error code and position, as not suspending; after a suspension no handler call is made before the resumption except for what the same token still has to report. While suspended, the parser refuses input, buffers, a second suspension and option changes with the documented error and stays suspended.",
 ["inputs", "histories"], "every document, every set of handler calls in which the parser is suspended, every division of the input",
 "The tests suspend in a handful of handlers of a handful of documents; whether a suspension loses, repeats or reorders events depends on which handler, which processor and where the buffer ends.",
 [XP], [("XML_StopParser/XML_ResumeParser", XP), ("SUSPENDED checks after every handler call", XP + " doContent, doProlog, doCdataSection, epilogProcessor, appendAttributeValue"), ("open internal entities on resumption", XP + " internalEntityProcessor")],
 "exploration", "stateless exploration of all suspension points (pairs, triples) of bounded documents",
 "All single suspensions and pairs on the corpus, all singles on token sequences, with all single cuts. " + BASE, ["handler calls", "XML_GetParsingStatus"])
prop("C03", "An abort is final and takes effect at once",
 "After the application stops the parser for good, in a handler or while it is suspended, no handler call is made except for what the same token still has to report, the calls made before are those of the complete parse, and the parse fails with the aborted error unless the token itself is in error. From then on every call that would continue the parse is refused with the documented error and calls no handler, and freeing the parser releases everything.",
 ["inputs", "histories"], "every document, every handler call as the point of the abort, every division of the input, with or without an earlier suspension",
 "The tests abort in a few handlers; each handler call site has its own check of the parsing status.",
 [XP], [("XML_StopParser", XP), ("FINISHED checks after handler calls", XP)],
 "exploration", "stateless exploration of all abort points of bounded documents",
 "All aborts on the corpus under every single cut, and on all token sequences of the families. " + BASE, ["handler calls", "XML_GetErrorCode", "XML_GetParsingStatus"])
prop("C04", "A failed allocation is reported, never misparsed",
 "If any memory allocation fails at any point of a parser's life, the call that needed it reports failure (a null parser or buffer, or a parse that fails with the no-memory error), the handler calls made are a prefix of those of the complete parse with the same arguments, and nothing crashes, leaks or is corrupted. A parse that still succeeds reports exactly what it would have reported, and the parser can afterwards be reset and used, or freed.",
 ["fault_sequences", "inputs"], "every allocation request of every document's parse failing, alone or together with the following ones",
 "The tests fail the first n allocations of some documents and accept any n that eventually succeeds; they look at neither the events nor the error code of each failing run.",
 [XP, SP, "src/fallible_rc.rs"], [("checks of every allocation", XP), ("string pools that report failure to grow", SP)],
 "fault_enumeration", "exhaustive enumeration of allocation-failure points (single, persistent, bursts)",
 "Every allocation request of every corpus and family document fails in turn, alone, with the next, and with all later ones. " + BASE, ["allocator", "handler calls", "XML_GetErrorCode"])
prop("C05", "Memory is used within its bounds and lifetime and all given back",
 "For every input, every division of it and every point at which the parser is given up, the library reads and writes only memory it holds at that time (its own blocks, the bytes passed in, the buffers it lends), releases every block exactly once, and has released everything when the parser and the content models are freed. What it reports never depends on the previous contents of memory, and it never writes to the bytes passed in nor keeps reading them after the call.",
 ["inputs", "histories"], "every document, every delivery, every point of giving the parser up, every size of names, values and buffers",
 "The tests do not run under a checking allocator and sample few sizes; an overrun or stale pointer shows only when a size or a cut falls on a particular buffer boundary.",
 [XP, SP, XT], [("buffer arithmetic of XML_GetBuffer", XP), ("string pool growth and pointer relocation", SP), ("tag and binding free lists", XP)],
 "exploration", "stateless exploration under a checking allocator, guard pages and two memory contents",
 "Canaries, quarantine with poison, moving reallocation, inaccessible page after the input, double runs with different poison; reads inside foreign live blocks could go unnoticed. " + BASE, ["allocator", "handler calls"])
prop("C06", "A reset parser behaves like a new one",
 "After XML_ParserReset, whatever the parser did before and in whatever state it was left, it parses any document exactly as a newly created parser with the same namespace mode does: no handler, option, entity, attribute default, namespace binding, encoding, position or error of the earlier life shows. Only the namespace mode, the triplet mode and the unknown-encoding handler persist; a reset of an external entity's parser is refused without effect.",
 ["histories", "inputs"], "every pair of an earlier life (document, delivery, way it ended, options) and a later document",
 "The tests reset a parser after one or two documents; the state carried over depends on what the first life left in each table, list and flag.",
 [XP], [("XML_ParserReset, parserInit, dtdReset", XP)],
 "exploration", "exhaustive exploration of pairs of lives, against a new parser",
 "All pairs of corpus documents with nine endings, all token sequences as first lives. " + BASE, ["handler calls", "XML_GetBase", "XML_GetCurrent*"])

MODEL = "Judged by our own model of what must be reported and, for the same documents, by an independent implementation (libexpat 2.6.1). "
prop("C07", "The encoding of a document does not change what is reported",
 "The same characters in UTF-8, UTF-16 with either byte order, with or without byte order mark, and, as far as they can express them, ISO-8859-1 and US-ASCII, declared in the document or given to the parser, yield the same handler calls, the same verdict and the same line and column; strings are always delivered as UTF-8. A byte sequence that is not valid in the encoding in force is an error at that sequence, a contradictory or unsupported declaration is the documented error, and an encoding given to the parser overrides the declaration.",
 ["inputs"], "every document, every encoding that can express it, every way of announcing it, every cut",
 "The tests hold a few documents in UTF-16; each encoding has its own scanner tables and converters with their own boundary cases.",
 [XT, XI, XP], [("encoding detection and initScan", XT), ("converters between encodings", XT + " utf8_toUtf8, latin1_*, little2_*, big2_*"), ("scanner per encoding", XI), ("encoding declaration", XP + " processXmlDecl, handleUnknownEncoding")],
 "exploration", "stateless exploration of all bounded documents in all encodings, against their UTF-8 form and a reference",
 "All encodings of the corpus and token families, all cuts around the first bytes, every announced name. " + BASE, ["handler calls", "XML_GetErrorCode"])
prop("C08", "Exactly the well-formed documents are accepted",
 "A document is accepted if and only if it satisfies the grammar and the well-formedness constraints of XML 1.0 (fourth edition names), as amended by the documented options. Otherwise the parse fails with the error code and at the position of the first violation, after having reported what precedes it and nothing that follows.",
 ["inputs"], "every byte string as document, external subset or external entity, every option that affects the grammar",
 "The tests hold a few dozen wrong documents; the grammar has thousands of places where one more or one fewer character class, keyword or nesting is allowed.",
 [XP, XR, XI, XT], [("prolog state machine", XR), ("token scanners", XI), ("content, CDATA, epilog and DTD processors", XP)],
 "exploration", "exhaustive enumeration of token sequences, edits and splices, against an independent implementation",
 "All token sequences up to the stated depth over 25 alphabets, all single edits and all splices of the corpus, compared with libexpat 2.6.1 event by event; documented deviations of that version excused narrowly. " + BASE, ["handler calls", "XML_GetErrorCode", "XML_GetCurrent*"])
prop("C09", "Attributes are reported complete, normalised and defaulted",
 "For every start tag the application gets each specified attribute exactly once with its value normalised by its declared type, then each declared default that was not specified exactly once, with the first declaration of each attribute counting; the number of specified attributes and the index of the identifier attribute are right. An attribute occurring twice is an error, in namespace mode by expanded name, however many attributes, declarations and elements there are.",
 ["inputs"], "every start tag with every set of declarations, types, references and spaces in values",
 "The tests hold some attribute lists; normalisation depends on every combination of type, space character, reference and default, and duplicates on hash tables of every size.",
 [XP], [("storeAtts, storeAttributeValue, appendAttributeValue, defineAttribute", XP), ("attribute scanner", XI)],
 "model_checking", "explicit enumeration of an attribute model's states, each replayed on the parser",
 MODEL + BASE, ["start-element handler", "XML_GetSpecifiedAttributeCount", "XML_GetIdAttributeIndex"], ())
prop("C10", "Names are resolved by the namespace declarations in scope",
 "In namespace mode every element and attribute name is reported expanded with the declaration in scope, each declaration is announced before its start tag and withdrawn after its end tag in reverse order, and default declarations apply to elements only. Unbound prefixes, reserved prefixes and URIs, undeclaring a prefix and names that are not qualified are the documented errors; without namespace mode names are reported as written.",
 ["inputs"], "every nesting of declarations, rebindings, defaults and uses, every separator and triplet setting",
 "The tests hold a handful of nestings; binding lists are reused and resized as names of every length go in and out of scope.",
 [XP], [("addBinding, storeAtts, freeBindings", XP), ("setElementTypePrefix, setContext/getContext", XP)],
 "model_checking", "explicit enumeration of a scope model's states, each replayed on the parser",
 MODEL + BASE, ["handler calls", "XML_GetErrorCode"])
prop("C11", "Internal entities are expanded where and as the standard says",
 "A reference to an internal entity yields the events of its replacement text in content and its characters in attribute values and entity values, at any depth; character references are expanded when the value is read, general ones are not, and the first declaration of a name counts. Undefined, recursive, unparsed, external-in-attribute and improperly nested references are the documented errors, or are skipped and announced where an unread external subset might declare them; with a default handler that does not expand, the reference itself is delivered.",
 ["inputs"], "every system of declarations and references, in every context",
 "The tests hold a few entity systems; correctness depends on the context of each reference and the nesting of replacement texts.",
 [XP], [("processInternalEntity, internalEntityProcessor, doContent", XP), ("storeEntityValue, appendAttributeValue", XP), ("open flags against recursion", XP)],
 "model_checking", "explicit enumeration of an entity-expansion model's states, each replayed on the parser",
 MODEL + BASE, ["handler calls", "XML_GetErrorCode"])
prop("C15", "Declarations are reported completely and exactly",
 "Every declaration in the document type declaration is reported to its handler once, in order, with exactly what it says: content models as the equivalent tree, attribute types and defaults as normalised text, entities with value or identifiers, base and notation, notations, and the document type and XML declarations. This is so wherever the declaration stands: internal subset, parameter entities, external subset and conditional sections.",
 ["inputs"], "every declaration, every content model, every order and place",
 "The tests hold a few declarations of each kind; a content model is rebuilt from a flat scaffold whose links depend on its whole shape.",
 [XP, XR], [("build_model, nextScaffoldPart", XP), ("doProlog declaration roles", XP), ("declaration state machine", XR)],
 "model_checking", "explicit enumeration of a declaration model's states, each replayed on the parser",
 "Every content model up to 5 nodes, every pair of declarations in three places and four layouts. " + MODEL + BASE, ["declaration handlers"])

prop("C12", "Positions are those of the event's own bytes",
 "During every handler call and after a failure, the reported line, column and byte index are those of the first byte of the markup or text concerned, computed from the whole input whatever its division and encoding, and the byte count is the length of exactly those bytes; events from internal entities have the position of the reference and no bytes. The input context contains the unconsumed input at the stated offset, preceded by earlier input, and every byte in it equals the input at its place.",
 ["inputs", "histories"], "every document, encoding, division and event; every fill level of the input buffer",
 "The tests look at a few positions of small documents; positions are carried over chunks incrementally and depend on where line ends, multi-byte characters and buffer moves fall.",
 [XP, XI], [("m_eventPtr/m_eventEndPtr/m_positionIdx bookkeeping", XP), ("updatePosition", XI), ("XML_GetInputContext and the context bytes", XP)],
 "exploration", "stateless exploration of all bounded documents, encodings and cuts, positions recomputed from the bytes",
 "Every event of the corpus in all encodings under every single cut, all token sequences, long documents in all chunk sizes. " + BASE, ["XML_GetCurrent*", "XML_GetInputContext"])
prop("C13", "The default handler gets the rest of the document, losslessly",
 "What is not passed to a specific handler is passed to the default handler unchanged, so that the text of all events together, each once and in order, is the document itself (converted to UTF-8, without a byte order mark); XML_DefaultCurrent passes the current event on in the same way. Setting or leaving out one handler never changes what the others get, except that the plain default handler turns off the expansion of internal entities.",
 ["inputs", "configurations"], "every document, every set of handlers, both default handlers",
 "The tests hold a handful of handler sets; each of the places that report has its own fallback to the default handler.",
 [XP], [("reportDefault and its callers", XP), ("m_defaultExpandInternalEntities", XP)],
 "exploration", "exhaustive exploration of handler subsets over bounded documents, reassembled text against the input",
 "Corpus in all encodings and deliveries, all token sequences, all pairs of handlers present or absent. " + BASE, ["default handler", "XML_DefaultCurrent"])
prop("C14", "The interface is the documented state machine",
 "Each call is accepted exactly in the states of the parser (new, parsing, suspended, finished, failed) in which the documentation allows it, answers with the documented status and error code otherwise, and a refused call changes nothing else. After a failure, an abort or the final piece the parser takes no more input and calls no handler; a null parser is refused by every function.",
 ["histories", "configurations"], "every sequence of interface calls, every behaviour of the handlers, in document parsers and external entities' parsers",
 "The tests make a handful of calls in the wrong state; the answer depends on the whole history of calls, inside handlers and out.",
 [XP], [("XML_Parse, XML_ParseBuffer, XML_GetBuffer, XML_StopParser, XML_ResumeParser, XML_ParserReset", XP), ("option setters' guards on the parsing status", XP)],
 "model_checking", "explicit-state enumeration of all call sequences, a state model and a reference judging every answer",
 "All sequences of 26 calls up to length 4 under 11 handler behaviours, of 14-16 frequent ones up to 5 (thorough 7). " + BASE, ["status codes", "XML_GetErrorCode", "XML_GetParsingStatus"])
prop("C22", "The events of every input follow one grammar",
 "Whatever the input, its division, the stops and the handlers, the handler calls form a well-nested sequence: every end has its start, elements are closed in order, CDATA sections contain only text, declarations lie inside the document type declaration, namespace declarations directly precede their start tag and are withdrawn in reverse order directly after the end tag. An accepted document leaves nothing open, and nothing is reported after its end or after an error.",
 ["inputs", "histories"], "every byte string, accepted or not, every division and stop",
 "The tests compare a few event sequences; that no other input produces an impossible sequence needs all inputs.",
 [XP], [("doContent, doProlog, doCdataSection, epilogProcessor", XP), ("tag stack and bindings", XP)],
 "model_checking", "an event automaton run on the reports of exhaustively enumerated inputs, divisions and stops",
 "All token sequences, all cuts and stops of the corpus, all single edits and splices. " + BASE, ["handler calls"])

prop("C16", "External parts are read, refused or skipped as the rules say",
 "Which parameter entities, external subsets and external entities are requested, in what order, and which references are errors, skipped or expanded is decided by the standalone declaration, the parameter entity setting, the foreign-DTD setting and what was actually read: undeclared entities are errors exactly when every declaration must have been seen, and declarations after an unread part are ignored unless the document is standalone. The not-standalone handler is asked when and only when the rules depend on its answer.",
 ["inputs", "configurations"], "every combination of settings, declarations, readable and unreadable parts and references",
 "The tests hold a few combinations; five shared flags decide together, and each is changed in several places.",
 [XP], [("hasParamEntityRefs, keepProcessing, standalone, paramEntityRead in doProlog", XP), ("appendAttributeValue and doContent entity checks", XP), ("XML_UseForeignDTD, XML_SetParamEntityParsing", XP)],
 "model_checking", "explicit enumeration of a model of the declaration's flags and entity tables, every run replayed on the parser",
 "All sequences of 12 declarations up to 2 (3, thorough 4) with all settings and all contents up to 2 (1). " + MODEL + BASE, ["external entity, skipped entity and not-standalone handlers", "error codes"])
prop("C18", "Text arrives as whole characters of well-formed UTF-8",
 "Every string passed to a handler is well-formed UTF-8 by itself, never a part of a character, whatever the encoding, size and division of the input. Input that is not well-formed in its encoding (UTF-8 or UTF-16) is refused with an error, in every place, and well-formed text is never refused, lost or changed.",
 ["inputs"], "every sequence of code units, at every place of a document and of the conversion buffers",
 "The tests hold a few malformed sequences; the decision is spread over byte-class tables and hand-written range tests in each scanner, and conversion splits text at buffer ends.",
 [XT, XI, XP], [("utf8_isInvalid*, utf8_toUtf8, little2/big2 toUtf8", XT), ("character scanning in contentTok and the literals", XI), ("reportCharacterData and doCdataSection conversion loops", XP)],
 "exploration", "exhaustive enumeration of code-unit strings against the definitions of UTF-8 and UTF-16",
 "All strings of 1-3 bytes starting beyond ASCII in 2-7 places, 4-byte strings at range ends, all pairs of UTF-16 units involving surrogates, every offset in the conversion buffers up to 1100 bytes. " + BASE, ["handler strings", "error codes"])
prop("C19", "Exactly XML's characters are accepted, in each place",
 "A character is accepted as text, in literals, at the start of and within names of every kind, in public identifiers and as a character reference exactly if XML 1.0 (as of its fourth edition) allows it there, whatever the encoding that delivers it. What is accepted is reported as that very character.",
 ["inputs"], "every code point, every place, every encoding",
 "The tests hold a few letters; the name classes are two 320-entry bitmap tables, per encoding byte tables and scanners for each kind of name.",
 [XT, XI, "src/lib/nametab.rs"], [("namingBitmap, nmstrtPages, namePages", "src/lib/nametab.rs"), ("checkCharRefNumber, isName/isNmstrt/isInvalid of each encoding", XT), ("name scanning", XI)],
 "exploration", "exhaustive enumeration of all code points x places x encodings against independent character tables",
 "28 places x 9 encodings: both first planes whole and the ends of every 4096 beyond (thorough: all code points); all character references to every number, and around every power of two to 2^70. " + BASE, ["handler strings", "error codes"])

prop("C20", "Encodings the application describes are decoded as described",
 "A document in an encoding known only to the unknown-encoding handler is parsed as if its characters had been delivered in UTF-8, with positions in its own bytes; a byte the description assigns nothing, or a wrong answer of the converter, is an error, and an impossible description is refused. The handler is asked exactly when the encoding is not built in, the converter only ever sees whole sequences, and each description is released exactly once when it is no longer used.",
 ["inputs", "histories"], "every description of bytes, every answer of the converter, every document and cut, every history of the parser",
 "The tests hold two encodings and a few bad maps; a description is 256 numbers, copied into byte-class tables whose every entry takes part in scanning.",
 [XP, XT], [("handleUnknownEncoding, XML_ParserReset, XML_ParserFree", XP), ("unknownEncoding: new, utf8_convert, utf16_convert, is_name", XT)],
 "exploration", "exhaustive exploration of descriptions, converter answers, documents, cuts and histories, against the same text in UTF-8",
 "Corpus in 4 encodings under every single cut, token sequences, every byte given 35 values, 30 converter answers in 21 places under every cut, all histories of 4 operations under 6 kinds of answer. " + BASE, ["handler calls", "convert and release callbacks"])

prop("C21", "xmlwf says and writes exactly what its options ask for",
 "For each input file or standard input, whatever way it is read, xmlwf succeeds silently exactly if the document is well-formed and otherwise prints one line with file, line, column and message and exits with 2. With -d the canonical, meta or copied form of a good document and no file for a bad one is written, input files are never changed, and options it does not know are refused with the usage message.",
 ["inputs", "configurations"], "every document, every combination of options, every command line, every file size",
 "The tests of the repository run the tool on fixed files with few options; output, options and file reading interact.",
 ["src/xmlwf/xmlwf.rs", "src/xmlwf/xmlfile.rs", "src/xmlwf/readfilemap.rs", XP], [("main_0, output handlers", "src/xmlwf/xmlwf.rs"), ("XML_ProcessFile, processStream, externalEntityRef*", "src/xmlwf/xmlfile.rs"), ("filemap", "src/xmlwf/readfilemap.rs")],
 "exploration", "exhaustive exploration of option sets, command lines, documents and sizes, each run of the tool against an independent account",
 "Corpus under 384 combinations of options (thorough: all; quick: a third each), token sequences, every command line of 3 words (thorough: 4) of 30, sizes about the 8192-byte piece. " + BASE, ["exit status", "standard output and error", "files written"])

prop("C24", "Handlers and settings may be changed at any time, also in a handler",
 "Whatever an application sets, replaces or removes in a handler call or between pieces (any handler, both forms of default handler, the base, the user data, the handlers' arguments, ineffective options) takes effect from the next event on and alters nothing else: each later event is reported exactly if its handler is set then, with the data that is current then, and the verdict is unchanged. Other calls allowed there (XML_DefaultCurrent, queries, memory functions, another parser's life, the parser of an external entity) change nothing in what follows.",
 ["histories", "inputs", "configurations"], "every change at every call of every document, pairs of changes, changes between any two bytes",
 "The tests change one handler at a handful of places; the parser decides at each of about 60 places which handler is set, keeps some decisions and strings across events, and its conversion buffers across calls.",
 [XP], [("XML_Set*Handler, XML_SetBase, XML_SetUserData, XML_UseParserAsHandlerArg", XP), ("handler checks in doProlog, doContent, storeAtts, reportDefault, reportCharacterData, epilogProcessor", XP)],
 "model_checking", "exhaustive enumeration of changes x calls x documents, judged by the run without the change and by a reference given the same changes",
 "72 changes at every call of 293 documents under three default handlers, whole and in single bytes; 67 pairs of changes at all pairs of calls; every change at every byte from 12 sets of handlers; long tokens in 4 encodings. " + BASE, ["handler calls and their arguments", "XML_GetBase", "positions"])

prop("C17", "Parsers do not affect one another",
 "What a parser reports depends only on its own input, settings and handlers: neither on other parsers that exist, worked before it, are used between its calls, inside its handlers or at the same time in another thread, nor on the thread that makes its calls. The parser of a general external entity is as independent of its parent as any other, whenever after the reference it is created and fed, and the parent of it.",
 ["schedules", "histories"], "all interleavings of the calls of several parsers, every preemption point of two threads",
 "The tests run one parser at a time on one thread; shared state shows only under particular interleavings.",
 [XP, XT], [("parser state, DTD::try_clone, XML_ExternalEntityParserCreate, setContext", XP), ("static tables and encodings", XT)],
 "model_checking", "stateless model checking of the real library under a controlled scheduler: all interleavings of calls, all pairs of preemption points, a preemption after every machine instruction",
 "All merges of the calls of two and three parsers; two threads switched at every pair of handler calls and memory requests (quick: a third); another parser's work after each of about 30000 instructions; entity parsers created and fed at all pairs of calls. " + BASE, ["each parser's handler calls and verdict", "memory accounting"])

prop("C23", "Memory and time are in proportion to what is open and what is given",
 "What a parser holds depends on what is open and what has been declared, and on the size of the longest token and piece, not on how much has been parsed: finished elements, attributes, text, comments, references, skipped entities and repeated declarations of entities, notations and element types give their memory back for reuse, and so does XML_ParserReset. The number and bytes of its requests, and its time, grow no faster than the document (and what its entities expand to), for every kind of long document.",
 ["inputs", "histories"], "every sequence of repeatable constructs, repeated without end; every shape of long document; any number of lives",
 "The tests parse documents of a few kilobytes once; growth without bound, or with the square of the size, never fails an assertion.",
 [XP, SP], [("free lists of tags, bindings and open entities", XP), ("string pools cleared after each token; names discarded after lookup", XP + " m_tempPool, m_dtd.pool; " + SP), ("input buffer compacted before it grows", XP + " XML_GetBuffer"), ("hash tables of attribute names", XP + " storeAtts")],
 "exploration", "exhaustive enumeration of repeated token sequences and long shapes, with the library's memory accounted at every step",
 "All sequences of up to 2-5 of 14 alphabets repeated 1500 to 40000 times; 24 lives of every document in every way to end one; 48 shapes at growing sizes. Attribute declarations excepted (kept each time, as in the reference). " + BASE, ["bytes requested and held", "thread CPU time"])

def write():
    P.sort(key=lambda p: p['id'])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))
            assert len(d["title"]) <= 80, d["title"]
            assert d["statement"].count(". ") <= 2, d["id"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="bash build.sh", checks=[], not_applicable=[],
             notes="No hooks in /repo: the checks drive the public C interface of librexpat.so built from /repo's working tree. run.sh rebuilds what changed before every check.")
    for p in P:
        m["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash run.sh " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                                technique=p["technique"], level=p["level"], level_note=p["note"]))
    with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
write()
