#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand; the output is committed).
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop("C01","The cursor never leaves the text",
 "For every text (including invalid UTF-8) and every sequence of scanner calls with any arguments, no call panics, the cursor stays between 0 and the length of the text, and Head() followed by Tail() is always exactly the original text, with Mark, AtStart and AtEnd agreeing with that cursor. Move, MoveRunes, ToMarker, ToStart and ToEnd land exactly on the requested position and return true when it lies inside the text (both ends included), and otherwise return false and leave the cursor where it was.",
 ["inputs","histories"],"every text, every interleaving of scanner calls on one scanner, every in- and out-of-range argument",
 "The tests make one or two calls per scanner on ASCII-like text and never pass an out-of-range marker, a too long argument or invalid UTF-8.",
 ["scanner.go","scanner_rev.go","read.go","intl.go"],
 [("range check of Move","scanner.go Move"),("range check of ToMarker","scanner.go ToMarker"),("rune stepping","scanner.go MoveRunes, intl.go revItr")],
 [("cursor","byte offset of the scanner in its text","scanner.go Scanner.pos")],["Mark()","Head()","Tail()","AtStart()","AtEnd()"])
prop("C02","Forward conditional matches consume exactly what matched",
 "If, IfAny, IfFold, IfRune, IfAnyRune, IfBetween and IfMatch return true exactly when the text at the cursor starts with what was asked for (a whole rune for the rune variants; the first listed alternative that matches for IfAny; for IfFold the same number of bytes equal under Unicode case folding, for valid UTF-8 arguments) and then move the cursor forward by exactly that many bytes. In every other case, including a text that is too short and a cursor at the end, they return false and do not move.",
 ["inputs","histories"],"every text, cursor position and argument",
 "One or two positive ASCII samples per function; no short text, no end of text, no multi-byte or invalid bytes.",
 ["scanner.go"],[("If/IfAny/IfFold/IfRune/IfAnyRune/IfBetween/IfMatch","scanner.go")],observe=["return value","Mark()"])
prop("C03","Forward searches stop at the first match or do not move",
 "To, ToFold, ToRune, ToAnyRune, ToBetween and ToMatch move the cursor to the start of the first match at or after the cursor and return true. If nothing at or after the cursor matches they return false and do not move.",
 ["inputs","histories"],"every text, cursor position and argument",
 "A handful of positive samples; overlapping candidates, matches at the very end, multi-byte text and absent matches are not sampled.",
 ["scanner.go"],[("To*","scanner.go")],observe=["return value","Mark()"])
prop("C04","Forward runs are maximal and report whether they moved",
 "WhileRune, WhileBetween, WhileMatch and WhileAnyRune move the cursor over the longest run of matching runes that starts at the cursor, up to the end of the text if all of it matches, and return true exactly when the cursor moved. While(f) calls f until it returns false and returns true exactly when the cursor ended behind where it began.",
 ["inputs","histories"],"every text, cursor position and argument",
 "The tests ignore the return values and never start on a non-matching rune or use invalid UTF-8.",
 ["scanner.go"],[("While*","scanner.go")],observe=["return value","Mark()"])
prop("C05","Backward conditional matches mirror the forward ones",
 "RevIf, RevIfAny, RevIfFold, RevIfRune, RevIfAnyRune, RevIfBetween and RevIfMatch return true exactly when the text before the cursor ends with what was asked for, and then move the cursor back by exactly that many bytes. In every other case, including too little text before the cursor, they return false and do not move.",
 ["inputs","histories"],"every text, cursor position and argument",
 "RevIfBetween and RevIfMatch have no test case at all, the rest one or two positive ones.",
 ["scanner_rev.go"],[("RevIf*","scanner_rev.go")],observe=["return value","Mark()"])
prop("C06","Backward searches and runs mirror the forward ones",
 "RevTo, RevToFold (for non-empty arguments of valid UTF-8; for RevToFold without U+FFFD), RevToRune, RevToAnyRune, RevToBetween and RevToMatch move the cursor back to just behind the nearest match that ends at or before the cursor and return true, or return false without moving if there is none. RevWhileRune, RevWhileAnyRune, RevWhileBetween and RevWhileMatch move back over the longest run of matching runes that ends at the cursor, down to the start of the text if all of it matches, and return true exactly when the cursor moved.",
 ["inputs","histories"],"every text, cursor position and argument",
 "The Between and Match variants are not tested, return values are ignored, and no text holds U+FFFD or invalid bytes.",
 ["scanner_rev.go","intl.go"],[("RevTo*, RevWhile*","scanner_rev.go"),("backward rune iterator","intl.go revItr")],observe=["return value","Mark()"])
prop("C07","Rune-wise steps count runes and are reversible",
 "MoveRunes(n) moves over exactly |n| runes in the given direction or refuses, and ReadRune and RevReadRune return the adjacent rune and move over it; an invalid byte counts as one rune of width one for MoveRunes and is an unmoving error for the two reads, while an encoded U+FFFD is an ordinary rune. ScanString(n) for n >= 0 returns the next n runes and moves over them whenever at least n runes are left, and otherwise does not move and returns false; on valid UTF-8 stepping forward and back by the same count returns to the same position.",
 ["inputs","histories"],"every text, cursor position and count",
 "Tests use one text with valid UTF-8 and never ask for exactly the remaining runes or meet U+FFFD or invalid bytes.",
 ["scanner.go","read.go","intl.go"],[("MoveRunes","scanner.go"),("ReadRune/RevReadRune","read.go"),("getPrefix, revItr","intl.go")],observe=["return values","Mark()"])
prop("C08","Integer reads are exact",
 "ReadInt and ReadUint (and the Int and Uint readers) for base 8, 10 or 16 and bit size 8, 16, 32 or 64 consume the longest prefix of digits (after an optional sign for ReadInt) whose value fits the type, and return exactly the mathematical value of the consumed digits, never a wrapped or truncated one. If no digit can be consumed, or the base or bit size is invalid, they return an error and do not move.",
 ["inputs"],"every digit string, sign, base and bit size, including values beyond the 64-bit range and leading zeros",
 "Boundary samples only; overflow that wraps to a larger number is never sampled.",
 ["read.go","reader.go"],[("overflow test of ReadInt and ReadUint","read.go"),("IntReader/UintReader","reader.go")],observe=["value","error","Mark()"])
prop("C09","Bool reads follow their format",
 "ReadBool and the Bool reader accept exactly the spellings of their format (\"l\", \"U\", \"Cc\", and all six for \"*\" or \"\"), return the value spelled at the cursor and consume exactly that word. Any other text, and an unknown format, is an error that does not move the cursor.",
 ["inputs","configurations"],"every text, cursor position and format string",
 "ReadBool has no test.",["read.go","reader.go"],[("ReadBool","read.go"),("BoolReader","reader.go")],observe=["value","error","Mark()"])
prop("C10","A failed read leaves the scanner where it was",
 "When any reader built with the package's constructors fails (used directly or through Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse, CaptureUse), or a function passed to Scope, Trace, Tokenize or Capture returns false, the cursor is exactly where it was before the call. This also holds when the failure happens after part of the text was consumed, deep inside nested readers, in a wrapped function that moved the scanner before it failed, or in a Reader type of the user that is used through one of these methods and leaves the scanner moved.",
 ["inputs","programs"],"every reader expression, every text and start position, every failing point",
 "No test checks the position after a failure.",
 ["reader.go","token.go","scanner.go","tracker.go"],[("Seq/SkipSeq/Any/Times/Body/Past/To restore","reader.go"),("Use family","reader.go, token.go"),("Scope/Trace","scanner.go")],observe=["Mark() after an error"])
prop("C11","Reader combinators mean what the grammar says",
 "Every reader expression built from Lit, Fold, Rune, AnyRune, Between, BetweenAny, Set, Holey, Match, Bool, Int, Uint, Seq, SkipSeq, Any, AnyFold, Opt, Many, Zom and Times succeeds or fails, and on success ends, exactly as its ordered-choice grammar meaning says: sequence in order, first alternative that reads wins and starts at the original position, Opt and Zom never fail, Many needs progress, Times needs exactly n reads, repetition is greedy and stops at the first read that fails or does not move. The result depends only on the text from the start position.",
 ["inputs","programs"],"every reader expression, every text and start position",
 "Two positive sequences are tested; nesting, backtracking and failing alternatives are not.",
 ["reader.go"],[("Read methods of the readers","reader.go")],observe=["error or nil","Mark()"])
prop("C12","Lookahead and search readers stop where they promise",
 "At tests its reader without moving, AtEnd succeeds only at the end, Not succeeds exactly when its reader fails and a rune is left and then moves one rune, To ends at the first position (end of text included) where its reader reads and Past ends behind that match, failing without moving if there is none. Body ends before and BodyTail behind the first position where the tail reads, and both succeed only if the body reads exactly all of the text in between.",
 ["inputs","programs"],"every inner reader, every text and start position, including readers that match the empty string and matches at the end of the text",
 "Only Not and To/Past with a Janus end are sampled, on positive ASCII input.",
 ["reader.go"],[("at/atEnd/not/to/past/body/bodyTail readers","reader.go")],observe=["error or nil","Mark()"])
prop("C13","Reading always terminates",
 "Every reader built with the package's constructors without left recursion, and each of the bundled JSON, MXT and Lua grammars, returns on every finite text, including texts that end early, contain invalid UTF-8, or let a repeated reader match the empty string. It neither loops forever nor crashes, and a few levels of nesting (ten for Lua, a hundred for JSON) do not make a bundled grammar run for minutes.",
 ["inputs","programs"],"every non-left-recursive reader expression and every text",
 "Tests only use well-formed complete input.",
 ["reader.go","scanner.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("loops of Many, Zom, To, Past, Body, BodyTail","reader.go"),("progress of MoveRunes, Holey, Not","scanner.go, reader.go")],observe=["the call returns"])
prop("C14","Errors point at the deepest failure",
 "A failing reader reports the position and description of the reader that failed: leaf, Many, To, Past, Body and BodyTail readers report the position where they were started and their own description, sequences and wrappers pass on the error of the part that failed. A failing choice reports, of all alternatives' errors, the one with the greatest position, and of several at that position the one of the last such alternative. The text of an error names both: \"not able to read WHAT at POSITION\".",
 ["inputs","programs"],"every reader expression, every text on which it fails",
 "No test looks at the content of an error.",
 ["error.go","reader.go"],[("getDeepest, ReadError.Later","reader.go, error.go"),("ErrorFor/ErrorIfFalse","error.go")],observe=["ReadError.Marker","ReadError.What"])
prop("C15","A Janus end reads what its begin last matched",
 "After the first reader of a Janus pair matched a string, the second one reads exactly that string and nothing else, until the first one matches again. This holds no matter how often the second reader was tried, matched in a lookahead or in an abandoned alternative, or failed in between.",
 ["inputs","programs","histories"],"every pair, every order of tries of both readers over every text",
 "Three positive samples; no sample has a near miss before the real end or a second use of the end reader.",
 ["reader.go","grammar/lua.go","grammar/mxt.go"],[("janusBeginReader/janusEndReader","reader.go")],[("remembered string","what the begin reader matched last","reader.go janusEndReader.reader.str")],observe=["error or nil","Mark()"])
prop("C16","The basket holds exactly the picks of the committed parse",
 "After a read on a scanner coupled with a basket, the basket holds one segment for every successful picked reader that is part of the final parse, in the order in which they completed, each with its info and with the exact byte range it consumed in the full text. Picks made inside alternatives, repetitions or lookaheads that were later given up are gone, and a failed read leaves the basket as it was before; moving the scanner back takes out the segments that end behind it. String lists the held segments in order, separated by semicolons; NewBasket and NewBasketFor couple the new basket with the scanner, the latter picking every rule of the grammar.",
 ["inputs","programs","histories"],"every placement of picks in every reader expression or grammar, every text, consecutive reads on one scanner",
 "The basket has no test with backtracking.",
 ["tracker.go","scanner.go","token.go","reader.go"],[("Basket.Update on every move","tracker.go, scanner.go"),("pickReader","tracker.go"),("Body/BodyTail sub scanner","reader.go")],[("picked segments","segments in pick order","tracker.go Basket.segments")],observe=["Picked()","String()"])
prop("C17","Observers do not change what is read",
 "Wrapping a reader or a rule with Map, Pick, Monitor, Named or a Rule never changes whether a read succeeds, where it ends, or the position of its error. A Map function is called exactly once for each successful read of its reader, in order, with the token that covers exactly the bytes that were read.",
 ["inputs","programs"],"every reader expression, every choice of observed sub readers, every text",
 "One MXT sample uses Map; Pick and Monitor results are never compared with an unobserved run.",
 ["reader.go","tracker.go","monitor.go","grammar.go"],[("mapReader, namedReader","reader.go"),("pickReader","tracker.go"),("monitorReader","monitor.go"),("Rule.Map/Pick/Monitor","grammar.go")],observe=["error or nil","Mark()","Map calls"])
prop("C18","The monitor log is a faithful call tree",
 "A Log holds one entry for every read of a monitored reader in the order the reads began, with its info, the absolute position where it began, its nesting level (1 for outermost), the position where it ended and its error (nil on success). This holds for any depth and number of entries, across several reads, and Reset empties it; PrintWithPreview prints for each entry its text followed by the quoted next n runes of the text at the entry's begin position. MonitorGrammar logs every rule of the grammar under its name.",
 ["inputs","programs","histories"],"every monitored reader expression, every text, any number of reads",
 "No test reads a log entry.",
 ["monitor.go","intl.go"],[("Log.Enter/Exit","monitor.go"),("PrintWithPreview","monitor.go")],[("entries","call tree in pre-order","monitor.go Log.Entries"),("level","open reads","monitor.go Log.level")],observe=["Log.Entries","standard output"])
prop("C19","Token relations form a consistent interval algebra",
 "Tokens are half-open byte ranges with ordered ends whatever the order of the two markers; Len, Before, After, Covers and Clashes are exactly the interval relations (Clashes: overlap without either covering the other), and two tokens are always related by at least one of before, after, covers, is covered, clashes, with clashes excluding all others. Merge is the smallest token covering both, Split returns the range between the two begins and the range between the two ends (the parts before and behind a separator inside of the token; for a segment both with its info), and String prints [from-to), for a segment behind its info.",
 ["inputs"],"every pair of tokens, empty ones included",
 "Six to eight sampled pairs for two of the relations.",
 ["token.go"],[("Token methods","token.go")],observe=["results of the Token methods"])
prop("C20","A graph is always a sorted forest of nested segments",
 "After any sequence of Append calls (and so after BuildGraph) every accepted segment is in the graph exactly once, every child lies within its parent, siblings do not overlap and are in text order, of two segments with the same non-empty range the later one is above the earlier one, and the root keeps its name and spans exactly the accepted segments. Append refuses exactly the segments that clash with an accepted one, and then leaves the graph unchanged; Leafs lists the childless nodes and FlameStack one line per node (the path of number.segment, a space, the length), both from left to right, and Equal tells whether two graphs are the same tree.",
 ["inputs","histories"],"every sequence of segments in every order, with equal, nested, touching, empty and clashing ranges",
 "Five hand-made appends.",
 ["graph.go","token.go"],[("rankNodes, Append","graph.go"),("Leafs, FlameStack","graph.go")],[("tree","nodes under Root","graph.go Graph.Root")],observe=["Graph.Root","Append result","Leafs()","FlameStack()"])
prop("C21","Sorting segments puts covering segments first and is stable",
 "SortSegments and SortSegmentsByOrder permute the given slice so that segments are ordered by start, and at the same start longer ones come first, so a covering segment precedes every segment it covers. Segments with equal range keep their relative order, except that SortSegmentsByOrder orders them by the index of their info in the order list (infos that are not listed first).",
 ["inputs"],"every slice of segments in every order, including equal, empty and clashing ranges, and every order list without duplicates",
 "Two samples of five segments.",
 ["segment.go"],[("comparison functions","segment.go")],observe=["the slice after the call"])
prop("C22","Segmentate tiles the whole range without loss",
 "For segments given in order, inside the range and not overlapping, Segmentate returns segments that follow each other without gap or overlap from the begin to the end of the range, contain every given segment unchanged and in order, and fill the gaps with non-empty segments that carry the info of the divided segment (empty info, so that Known is false, for the scanner's text). For any other list it returns an error.",
 ["inputs"],"every range, every list of segments",
 "One sample.",["segment.go"],[("Segment.Segmentate, Split","segment.go"),("Scanner.Segmentate","segment.go")],observe=["returned segments","error"])
prop("C23","Grammar rules are named, collected and checked completely",
 "CheckRuleName accepts exactly the names made of an ASCII letter followed by letters, digits, '+', '-', '.' and '_', in full, and the reader RuleName reads the longest such name. SetRuleNames gives every exported rule field with a name tag that name (and leaves the names of the others) or returns an error that names the first field with an invalid tag, CollectRules returns every exported rule field in declaration order, CheckRules reports an error exactly if some rule has an invalid name or no reader, and GrammarLines returns one \"name: description\" line per rule; the Must variants panic exactly if there is an error. Every rule of the bundled grammars has the name of its tag and a reader.",
 ["inputs","configurations"],"every name and every grammar struct",
 "One struct with valid tags.",["grammar.go"],[("RuleName, CheckRuleName","grammar.go"),("SetRuleNames/CollectRules/CheckRules/GrammarLines","grammar.go")],observe=["returned errors and values"])
prop("C24","Reader descriptions are compositional and expose invalid readers",
 "What() of a composed reader is built from the descriptions of all of its parts in order: quoted text for Lit and Rune, ~\"..\" for Fold, [\"..\"] for AnyRune, <..> for ranges, [ a b ] for Any, a b for Seq, (>skip> a b ) for SkipSeq, the prefixes ? Opt, + Many, * Zom, n* Times, @ At, ! Not, -> To and --> Past, -(body-tail)- and -(body-+tail)- for Body and BodyTail, $name<.. and $name for a Janus pair; Map, Pick and Monitor show their reader and a rule or Named reader only its name. A constructor given an unusable argument yields a reader that fails on every text without moving, and every description that includes it contains the invalid-reader marker, while no description of a valid reader does; HasInvalidReader and AnyHasInvalidReader find it.",
 ["programs","inputs"],"every reader expression, every invalid argument at every position",
 "Fifteen sampled descriptions, most combinators missing.",
 ["reader.go","grammar.go"],[("What methods","reader.go"),("InvalidReader, HasInvalidReader, AnyHasInvalidReader","reader.go")],observe=["What()","Read error"])
prop("C25","The JSON grammar accepts exactly JSON",
 "grammar.JSON() reads a text completely if and only if the text is one JSON value by RFC 8259 with optional surrounding whitespace (any byte sequence without control characters, quote and backslash is allowed inside strings). The segments picked for its rules are the ranges of the corresponding parts of the value.",
 ["inputs"],"every byte string",
 "Four well-formed documents, nothing malformed.",
 ["grammar/json.go","reader.go"],[("rules of JSON()","grammar/json.go")],observe=["error","AtEnd()","Picked()"])
prop("C26","MXT documents give back their chunks",
 "For every MXT document written from a list of chunks (name, comment, salt, content; LF or CRLF) in which no content holds a line that starts with its chunk's end marker (\"//\" and the salt) and no content ends with a carriage return, grammar.MXT() reads the whole document and yields exactly the names and contents of the chunks in order. Any other text is read up to the end of the last complete chunk it begins with, and one that does not begin with a complete chunk is an error. This holds also when one MXT reader is used for several documents.",
 ["inputs","histories"],"every list of chunks, every text, every sequence of documents read with one reader",
 "Three documents, each read with a fresh reader.",
 ["grammar/mxt.go","reader.go"],[("rules of MXT()","grammar/mxt.go"),("salt as Janus pair","grammar/mxt.go")],observe=["Name, Content and EmptyContent tokens","AtEnd()","error"])
prop("C27","The Lua grammar reads exactly the Lua 5.4 syntax",
 "grammar.Lua() reads a text completely if and only if its symbols form a chunk of the Lua 5.4 grammar (the syntax of the manual; a call's parentheses always belong to the expression before them, break, goto, labels and attribute names are not checked further), whatever space, tab, CR, LF and comments stand between the symbols; the Script rule reads it also behind a #! line. The Name rule reads exactly one name that is no keyword; LuaString, LuaNumeral and LuaComment read exactly one literal or comment of the manual's forms (values of decimal and \\u{} escapes are not limited), a long bracket closing only at the bracket of its own level. The segments picked for Name, Numeral, LiteralString and Comment are the exact ranges of these symbols, and every statement, function and table of a rule is picked once, beginning at its first symbol.",
 ["inputs","programs"],"every program, every text, every literal",
 "Seven fragments.",
 ["grammar/lua.go","reader.go"],[("rules of Lua()","grammar/lua.go"),("LuaNumeral, LuaString, LuaComment","grammar/lua.go")],observe=["error","AtEnd()","Picked()"])
prop("C28","Readers are reusable and independent",
 "A reader can be used any number of times, on any number of scanners: apart from the string a Janus pair remembers and the Value of Bool, Int and Uint readers, the result of a read depends only on the reader expression and the text, not on earlier reads with the same reader, successful or not. Two readers built by separate constructor calls never influence each other.",
 ["histories","programs"],"every sequence of reads with one reader over different texts",
 "Tests build a fresh reader for nearly every sample.",
 ["reader.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("readers hold no read state","reader.go"),("salt handling","grammar/mxt.go")],observe=["error or nil","Mark()"])
prop("C29","A coupled tracker always knows the cursor",
 "After every scanner call or read that changed the cursor of a scanner with a coupled Tracker, the last marker the tracker was told is the current cursor, and every marker it was told lies inside the text. A refused move tells it nothing.",
 ["histories","inputs"],"every sequence of scanner calls and reads",
 "No test couples a tracker of its own.",
 ["scanner.go","tracker.go"],[("Tracker.Update call in Move and ToMarker","scanner.go")],observe=["Tracker.Update calls","Mark()"])
prop("C30","LineCol counts lines and columns of the cursor",
 "LineCol(tab) returns one plus the number of newline characters before the cursor, and one plus the number of bytes between the last of them (or the start) and the cursor, each tab counted as tab columns. It does not move the cursor and treats CRLF as one line end.",
 ["inputs"],"every text, cursor position and tab width",
 "Ten samples.",["scanner.go"],[("LineCol","scanner.go")],observe=["return values"])
prop("C31","Captured text is exactly the text that was read",
 "On success TokenizeUse, Tokenize, CaptureUse, Capture, TraceUse, TraceUseFunc, Trace and Since return the token or string that spans exactly the bytes between the start position and the new cursor, and Get of that token is that string. On failure the string of CaptureUse, Capture, TraceUse and TraceUseFunc is empty, and all of them pass on the error or false.",
 ["inputs","programs"],"every reader expression or scope function, every text and start position",
 "Capture is sampled with Janus and Not only; its error expectation is vacuous.",
 ["token.go","reader.go","scanner.go"],[("Tokenize*, Capture*, Since, Get","token.go"),("TraceUse*","reader.go"),("Trace","scanner.go")],observe=["returned token, string, error"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
