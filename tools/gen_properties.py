#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

LI="src/po/line_iter.rs"; RD="src/po/reader.rs"; DE="src/po/decoder.rs"; ME="src/po/message_extractor.rs"; PA="src/po/parser.rs"; UN="src/po/unescape.rs"
PF="src/plural/forms.rs"; PL="src/plural/plural.rs"; FO="src/plural/formula/mod.rs"; NO="src/plural/formula/node.rs"; GR="src/plural/formula/formula.lalrpop"
MSG="src/enums/message.rs"; UNIT="src/unit.rs"; ERR="src/error.rs"
ONESHOT="Every existing test hands the reader one in-memory byte slice that never blocks, never fails and arrives whole; "

p("C01","Result does not depend on how the bytes arrive",
  "For any byte stream, well formed or damaged, reading it yields the same header data, the same units in the same order and the same error, whatever sizes the source returns its bytes in, however often a read is interrupted and retried, however long reads take, and whatever random seed the process' hash tables use. In particular a read boundary inside a multi-byte character, between CR and LF, inside an escape or inside a keyword changes nothing.",
  ["schedules","inputs","fault_sequences"],"every byte stream x every split of it into reads x every placement of interrupted reads and delays x every hash seed",
  ONESHOT+"no test splits the input across reads, interrupts a read or varies the hash seed.",
  [LI,RD,PA],[("BufReader + Lines retry interrupted reads and reassemble lines",LI+": LineIter"),("header values are collected per key in file order",RD+": parse_po_header")],
  observe=["PoParser::parse","PoReader as Iterator","CatalogueReader metadata"])

p("C02","A source failure is reported once and never looks like a normal end",
  "If the source fails with any error other than an interruption, every unit and the header that were complete, and followed by a further complete non-blank line, before the failure are delivered unchanged and in order; nothing incomplete is delivered. Then exactly one error is returned, either from opening the catalogue (if the header, or the first unit of a catalogue without one, was not complete) or from the iteration: it is an I/O error carrying the source's own error (same kind, OS code and payload, reachable as its cause, also after the conversion into std::io::Error) and the 1-based number of the line being read. The iteration never ends cleanly instead.",
  ["fault_sequences","inputs"],"every catalogue x every failure position (byte) x every error kind x every delivery schedule before it",
  "The only I/O failure in the tests is one invalid UTF-8 slice, for which they only check that some error came out; no failing source, no failure inside an entry, no error identity, no line number.",
  [LI,RD,DE,ME,ERR],[("LineIter turns a read error into one Error::Io and drops the source",LI+": Iterator::next"),("peeked errors are taken out of the look-ahead in four places",RD+": read_line, parse_comments; "+DE+": fetch_next, expected"),("one prefetched result",RD+": PoReader::next / next_unit")],
  [("next_unit","prefetched unit or error",RD),("inner","the source, dropped after a failure",LI)],["PoReader as Iterator","Error::source"])

p("C03","A truncated catalogue yields only a faithful prefix",
  "If a catalogue is cut off at an arbitrary byte (crash or torn write while it was being stored), every unit delivered from it equals the corresponding unit of the complete catalogue, except that the last unit may lack trailing continuation lines or trailing plural variants that were cut off. If the iteration ends without an error then every unit whose lines were stored in full has been delivered, and a cut that falls between two entries produces no error. A string line cut in its middle is never accepted as a complete string.",
  ["crash_points","inputs"],"every catalogue x every byte offset at which storing it may have stopped x delivery schedule",
  "Tests contain three hand-written unterminated lines; no test truncates a catalogue systematically, so cuts inside escapes, multi-byte characters, continuation lines, plural blocks and headers are unexplored.",
  [PA,LI,DE,ME,RD],[("line grammar requires a closing quote",PA+": message_re"),("missing msgstr at end of stream yields no unit",ME+": new_message"),("end of stream inside an entry",DE+": expected")],
  observe=["PoReader as Iterator"])

p("C04","Readers that share a parser never influence each other",
  "Any number of readers made from the same parser, on one thread or on many, with their steps interleaved in any order, with one reader running inside another one's source, one after another or after earlier readers failed, were abandoned or panicked in their source, each produce exactly the results they produce alone with a fresh parser. Sharing a parser by reference between threads stays possible.",
  ["schedules","histories","fault_sequences"],"every set of catalogues and faults x every interleaving of reads and calls, including re-entrant ones",
  "Tests never have two readers alive on one parser, never use threads and never reuse a parser after a failure.",
  [PA,UN,LI,RD],[("the parser is immutable after construction and shared by reference",PA+": PoParser"),("line counter and look-ahead live in the reader",LI+": LineIter")],
  [("n","line counter, per reader",LI)],["PoParser::parse from several threads","PoReader as Iterator"])

p("C05","Streaming: units are handed over without waiting for the rest",
  "A unit is handed over as soon as the source has supplied the entry after it and the first non-blank line behind that entry; opening a catalogue likewise needs only the header, the first entry and the line behind it. The reader never asks the source for more bytes than that (beyond the one read that satisfied the need), so endless, slow or stalling sources are usable.",
  ["schedules","inputs"],"every catalogue, endless ones included x every arrival pattern",
  ONESHOT+"so reading everything up front would pass all of them.",
  [LI,RD],[("lines are pulled on demand",LI+": Iterator::next"),("exactly one unit of prefetch",RD+": PoReader::new, Iterator::next")],
  [("next_unit","the single prefetched unit",RD)],["bytes taken from the source at each delivery"])

p("C06","No input, fault or lookup can crash or hang the reader",
  "Whatever bytes the source supplies (random or zero-filled blocks, hostile headers and formulas included) and however it interleaves data, interruptions, failures and ends of file, opening and iterating never panic, abort or loop: every call returns after finitely many reads, and the iteration ends after at most one item per line of input. The same holds for every lookup on every delivered unit with every count value.",
  ["inputs","fault_sequences","schedules"],"every byte stream and source behaviour x every count passed to a plural lookup",
  "Tests cover a few malformed lines; no test feeds arbitrary damage, extreme plural headers or extreme counts.",
  [PA,RD,DE,ME,PF,FO,NO],[("errors instead of panics on malformed lines",PA+": parse_line"),("arithmetic that cannot trap",NO+": Node::execute"),("the plural loop is bounded by the stored variants",ME+": new_message"),("unreachable!() branches rely on peek/next agreement",RD+", "+DE)],
  observe=["every public call, under a step and stack bound"])

p("C07","Every stored entry is delivered once, in order, with its exact texts",
  "For a well-formed catalogue, under any fault-free delivery schedule and any interleaving with other readers, the iteration delivers exactly one unit per stored entry, in file order, with exactly the stored context, source text, plural source text and translated text(s), with string continuations joined, escapes decoded and line-ending, blank-line and indentation style irrelevant; then it ends without an error. An entry with an empty translation reports no translated text.",
  ["schedules","inputs","configurations"],"every well-formed catalogue and layout style x delivery schedule x interleaving",
  "Tests decode about a dozen fixed entries delivered in one piece.",
  [PA,UN,LI,DE,ME,RD,MSG,UNIT],[("line grammar",PA+": parse_line"),("continuation joining",DE+": parse_msg"),("escape table",UN),("entry order and prefetch",RD+": Iterator::next")],
  observe=["Unit::context, Unit::message, Message getters"])

p("C08","Annotations and state belong to the right entry and are complete",
  "For a well-formed catalogue, under any fault-free delivery schedule and interleaving, each unit carries exactly the annotations stored in front of its entry and of no other: translator and developer notes, locations and other comments in stored order, the set of flags, the obsolete mark, and the previous context and previous source texts. A comment never turns into message text or an entry, whatever characters it contains. A unit is 'needs work' exactly when flagged fuzzy, otherwise 'final' exactly when some translated text is non-empty, otherwise 'empty', and counts as translated exactly when final.",
  ["schedules","inputs","histories"],"every well-formed catalogue x delivery schedule x interleaving with other readers",
  "Tests contain four hand-written comment blocks; comments that look like strings or entries, and carry-over between neighbouring units, are not tested.",
  [PA,RD,DE,ME,UNIT,"src/note.rs","src/comment.rs"],[("comment dispatch by kind",RD+": parse_comments"),("obsolete detection and prefix matching",RD+": read_line; "+DE+": parse_msg"),("previous-message fields",ME+": parse_message_fields"),("state derivation",RD+": read_unit")],
  observe=["Unit getters"])

p("C09","Header data is complete at open and constant afterwards",
  "Once a catalogue is open, before any unit has been taken, all its header fields are available: each field with its trimmed value, repeated fields joined by a blank in file order, lines without a colon ignored, plus the header's notes and other comments in order and the target language named by the Language field. They stay the same during the iteration, after its end, after a failure, and whatever the hash seed or delivery schedule. A catalogue without a header has empty header data and its first entry is delivered as a unit.",
  ["schedules","histories","inputs","fault_sequences"],"every header x delivery schedule x hash seed x every later history of the reader, including failures",
  "Tests read two fixed headers once, right after opening.",
  [RD,"src/lib.rs"],[("header unit is the first one if its source is empty",RD+": PoReader::new"),("per-key value lists joined",RD+": parse_po_header"),("language fallback chain",RD+": parse_po_header")],
  [("header_properties, header_notes, header_comments, target_language","filled once at open",RD)],["CatalogueReader getters"])

p("C10","A plural lookup returns the right variant or nothing, never another's",
  "For every unit and every count, a plural lookup returns the translated text stored for the form that the Plural-Forms header of the unit's own catalogue selects for that count (C operator precedence and meaning on signed 64-bit integers; two forms when the number is not given), and nothing if the header is missing, the selected form is out of range or no text is stored for it (a unit without plural variants answers its one text for every count). This holds whenever the lookup is made (while reading, later, interleaved with readers of catalogues with other rules), and also if stored variant lines were lost, duplicated or reordered: then the unit has nothing for that form or reading fails, but a text stored for one form is never returned for another.",
  ["histories","schedules","fault_sequences","inputs"],"every Plural-Forms rule x every unit x every count x every history of lookups and readers x every loss, duplication or reordering of variant lines",
  "Tests evaluate a handful of formulas on fixed counts with complete variants, one catalogue at a time.",
  [PF,PL,FO,NO,GR,ME,MSG,PA],[("form count and formula per catalogue, shared by reference count",RD+": plural_forms"),("variant lines are read in index order",ME+": new_message"),("range check of the selected form",PF+": get_value")],
  [("plural_forms","rules of this catalogue, shared with its units",RD)],["Message::get_plural_text, Plural getters, PluralForms getters"])

p("C11","Delivered units are immutable snapshots",
  "A unit, and any clone of it, keeps giving the same answers for ever: after further units are read, after the reader failed, ended or was dropped, after the source and the parser are gone, and whatever other readers do meanwhile.",
  ["histories","schedules","fault_sequences"],"every unit x every later history of its reader, its parser and other readers",
  "Tests look at a unit only right after it was returned, with its reader and parser alive.",
  [UNIT,MSG,PL,PF,RD],[("units own their strings",UNIT+": Unit"),("plural rules are reference counted, not borrowed",PL+": Plural.forms")],
  observe=["all Unit, Message, Plural and PluralForms getters, repeated later"])

p("C12","Damage is confined to what follows it and malformed lines are reported",
  "If stored bytes are damaged from some position on (flipped, zeroed, lost, duplicated or foreign bytes or lines), the header and every unit that were complete, and followed by a further complete non-blank line, before the damage are delivered exactly as stored, in order. A line that is neither blank, a comment nor a valid string or keyword line always ends the iteration with exactly one error (a parse error that quotes it, or an invalid-data error if it is not valid UTF-8); it is never skipped, and nothing that lies behind it is delivered. The same holds for a well-formed line where the format has no place for it: a keyword line out of order in front of an entry, an entry without source text behind the first one, a string line that continues nothing or continues a line written in another spelling (`\"…\"`, `#~ \"…\"`, `#| \"…\"`); its text becomes part of no unit.",
  ["fault_sequences","inputs","crash_points"],"every catalogue x every kind, place and combination of storage damage x delivery schedule",
  "Tests check single malformed lines at the start of an input or after one entry.",
  [PA,LI,RD,DE,ME],[("anchored line grammar",PA+": message_re, comment_re"),("first bad line closes the source",LI+": Iterator::next"),("errors end the iteration",RD+": Iterator::next")],
  observe=["PoReader as Iterator"])

p("C13","Memory is bounded by the entries in hand, and everything is released",
  "While units are consumed and dropped, the memory held by the reader does not grow with the number of entries already read. When reader, units and parser are dropped the source has been released exactly once and all memory obtained on the way is returned, whether the iteration ran to its end, failed, was abandoned half way or was unwound by a panic in the source.",
  ["histories","fault_sequences","inputs"],"every catalogue length x every way an iteration can end",
  "Tests read at most five entries and observe neither memory nor the fate of the source.",
  [LI,RD,PA,PL],[("one line and one unit of look-ahead",LI+"; "+RD),("ownership of the source in the line iterator",LI+": inner"),("reference-counted plural rules without cycles",RD+": plural_forms")],
  observe=["allocator traffic of the library","drop of the source"])

p("C14","An ended iteration stays ended",
  "Once the iteration has returned its end or an error, every further request returns the end, the source is never read again, and the header data is still available - even if the source would now supply more data, fail again or has recovered.",
  ["histories","fault_sequences"],"every way to end x every later behaviour of the source x every number of further requests",
  "Tests call next() once after the end of an in-memory slice.",
  [RD,LI],[("prefetched result is taken exactly once",RD+": Iterator::next"),("source closed after a failure",LI+": Iterator::next")],
  [("next_unit","None for ever after the end",RD)],["PoReader::next after the end","read calls seen by the source"])

p("C15","A stalled source delays only its own reader",
  "While one reader waits in its source, even for ever, all other readers of the same parser keep making progress and complete. No resource shared between readers is held across a call into a source.",
  ["schedules","fault_sequences"],"every set of readers x every point at which a source may stall x every interleaving of the rest",
  "Tests have neither blocking sources nor a second reader.",
  [PA,LI,RD],[("no lock in the parser; regex scratch space is returned before the next read",PA+": parse_line")],
  observe=["completion of the other readers while one is parked inside its source"])

p("C18","The items do not depend on the iterator methods used",
  "Whichever methods and adaptors of Iterator drive a reader - next, nth, by_ref, take, skip, step_by, peekable, find, position, try_fold, fold, for_each, collect, count, last, size_hint, in any order, on the reader itself, through a CatalogueReader trait object or after the reader was moved in memory - the items (units and errors) are exactly those that repeated next calls deliver: none is lost, duplicated, altered or reordered where one method takes over from another, skipping n items skips exactly n items (errors count as items), count and last agree with the items, an error is not hidden unless it was skipped, and size_hint never excludes the real number of remaining items.",
  ["histories","fault_sequences","inputs"],"every byte stream and failure x every sequence of iterator calls and adaptors",
  "Tests drive readers by next and for loops over short well-formed inputs; which other methods are specialised, and what they do around failures, is untested.",
  [RD,"src/lib.rs"],[("only next is implemented; every other method is derived from it",RD+": Iterator for PoReader"),("CatalogueReader extends Iterator and is object safe","src/lib.rs")],
  [("next_unit","the prefetched item",RD)],["PoReader as Iterator, dyn CatalogueReader"])

p("C19","Work grows in proportion to the input",
  "The work of reading a catalogue - steps taken, allocations, memory requested in total, reads issued - grows at most in proportion to what is read, whatever there is much of: entries (equal or different, live or obsolete), blank lines, comment lines, flags and locations in a line, the length of a line, a text, a value or an annotation, string lines of a text, header fields (equal or different), plural variants, values in Plural-Forms, terms of a formula. Nothing is gone through again because more has been read: the cost of an entry does not depend on how many were read before it, the cost of a reader not on how many readers its parser has made, the cost of a lookup or of a request after the end not on how many there were, and an interrupted read costs one retry.",
  ["inputs","histories","fault_sequences"],"every catalogue x everything in it that can be made larger",
  "Tests read inputs of a few lines and measure no cost; a quadratic reader passes all of them.",
  [LI,RD,DE,ME,PA,"src/po/unescape.rs","src/plural/forms.rs"],[("one pass over the lines",LI+": Iterator::next"),("a text grows by appending",DE+": parse_msg"),("header fields collected once",RD+": parse_po_header")],
  observe=["steps and allocations of the library","reads of the source"])

p("C16","Message equality is an equivalence consistent with content",
  "Equality of messages is reflexive, symmetric and transitive, and an absent translation equals an empty one.",
  ["inputs"],"every pair and triple of messages","Tests compare a few pairs.",
  [MSG],[("PartialEq for Message",MSG)])

p("C17","Error reports name their position and content",
  "Every error that opening or iterating returns says in its textual form where and what: an I/O error the source's own message and the line being read, a parse error its line, the unexpected and the expected token (a malformed line in full), an error about an entry its line and the reason, an error about the plural rule the reason; the same holds after the conversion into std::io::Error. Lines are counted from the start of the stream: k more blank lines in front of a catalogue, however it is delivered, add exactly k to the line of the error and change nothing else in it, in the header or in the units.",
  ["fault_sequences","inputs"],"every failure and every damaged or malformed stream x position x delivery schedule",
  "Tests format one value per variant and look at errors in the first few lines of small inputs.",
  [ERR,LI,DE,RD],[("Display and Debug",ERR),("line numbers",LI+": Iterator::next")],
  observe=["Error as Display, Debug, std::error::Error and after conversion into std::io::Error"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: pass
