import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
M5="rfc5424/machine.go"; M3="rfc3164/machine.go"; B5="rfc5424/builder.go"
p("C01","RFC5424 Parse is total: no panic, terminates, leaves its input untouched",
 "For every byte string and every combination of options, parsing a RFC5424 message always returns, never panics (no index, slice, nil-map or nil-pointer fault), and never writes to the caller's input buffer or to package-level state.",
 ["inputs","configurations"],"every byte string (any length, any bytes) x every option combination x any number of earlier calls",
 "The tests run a few hundred chosen strings; the generated automaton has hundreds of states and 256 possible next bytes or end of input in each.",
 [M5,"rfc5424/machine.go.rl","rfc5424/syslog_message.go","common/functions.go"],
 [("Parse automaton","rfc5424/machine.go: (*machine).Parse"),("unescaping","common/functions.go: RemoveBytes")],["NewMachine(...).Parse"])
p("C02","RFC5424 Parse accepts exactly the grammar",
 "Parse returns a message and a nil error exactly when the whole input is a RFC5424 message in the documented grammar (PRI 0..191, VERSION 1..999, calendar-valid timestamp or '-', bounded printable header fields, structured data with unique element ids, optional MSG); for every other input it returns a non-nil error, and without best effort a nil message. The outcome never depends on anything but the options and the input.",
 ["inputs","configurations"],"every byte string x {compliant MSG on/off} x {best effort on/off}",
 "Acceptance is a language equality over unbounded strings (field length limits, digit ranges, UTF-8 in values); tests check members and non-members one by one.",
 [M5,"rfc5424/machine.go.rl","common/common.rl"],[("Parse automaton and its final-state test","rfc5424/machine.go: (*machine).Parse")],["NewMachine(...).Parse"])
p("C03","RFC5424 header fields are exactly the bytes of the input",
 "In every accepted RFC5424 message priority, version, timestamp, hostname, app-name, procid and msgid are exactly the values denoted by the corresponding input fields, facility and severity are derived from the priority, and a field written '-' is reported as absent.",
 ["inputs"],"every accepted input","Field boundaries are tracked by mark positions through hundreds of generated transitions; a test sees only the boundaries of its own strings.",
 [M5,"rfc5424/syslog_message.go","syslog.go","common/functions.go"],[("mark/text positions","rfc5424/machine.go: text, set_* actions"),("export","rfc5424/syslog_message.go: export")],["SyslogMessage fields"])
p("C04","RFC5424 structured data is exactly what the input says",
 "In every accepted message the structured data holds exactly the elements and parameters of the input: each id once, each parameter with its value after removing exactly the escaping backslashes, the last value when a name is repeated inside an element, nothing else, and nil when the input has '-'.",
 ["inputs"],"every accepted input, any number of elements, parameters and escapes",
 "The number of elements, parameters and escapes is unbounded and their state is carried in maps and position lists across loop iterations.",
 [M5,"common/functions.go"],[("set_id/set_paramname/set_paramvalue/add_slash actions","rfc5424/machine.go"),("RemoveBytes","common/functions.go")],["SyslogMessage.StructuredData"])
p("C05","RFC5424 MSG part: free form, or BOM+UTF-8 in compliant mode",
 "The message text is exactly the bytes after the structured data and one space (absent if empty); by default any bytes are accepted, and with the compliant-message option a MSG starting with the UTF-8 BOM is accepted only if all that follows is well-formed UTF-8, any other MSG being accepted unchanged.",
 ["inputs","configurations"],"every input with a complete header x compliant on/off","Well-formed UTF-8 over unbounded strings is a state machine of its own; tests use a handful of strings.",
 [M5],[("msg_any/msg_compliant automata","rfc5424/machine.go")],["SyslogMessage.Message"])
p("C06","RFC5424 best effort returns exactly the part parsed before the error",
 "With best effort, a failing parse returns, next to the error, the message made of every field, structured-data element and parameter completed before the failure position (a trailing invalid compliant MSG keeps its valid prefix), if and only if a priority and a version were read; on success it equals the strict result.",
 ["inputs","configurations"],"every rejected input, every failure position","The failure can occur after any byte of any field, in each of hundreds of automaton states; each error action rolls back a different partial state.",
 [M5,"rfc5424/syslog_message.go"],[("err_* actions","rfc5424/machine.go"),("minimal/export","rfc5424/syslog_message.go")],["NewMachine(WithBestEffort()).Parse"])
p("C07","RFC5424 errors name the right field and the right column",
 "The error returned for a rejected input names the part of the message the grammar was expecting at the first offending byte (or end of input) and reports the zero-based column of that byte.",
 ["inputs"],"every rejected input, every failure position","One (category, column) pair per automaton state and byte class: tens of thousands of pairs, of which tests sample a few hundred.",
 [M5],[("err_* actions","rfc5424/machine.go")],["error text"])
p("C08","RFC5424 parsing is independent of history and results own their memory",
 "The result of a Parse call on a reused parser equals the result of a fresh parser with the same options whatever was parsed before, and a returned message shares no mutable memory with the parser, the input buffer or any earlier result.",
 ["inputs","histories"],"every sequence of inputs on one parser","Leaks from one call to the next need a specific earlier input (for instance an error inside structured data); tests mostly use fresh parsers.",
 [M5],[("reset at the start of Parse","rfc5424/machine.go: Parse")],["NewMachine(...).Parse"])
p("C10","RFC3164 Parse is total: no panic, terminates, leaves its input untouched",
 "For every byte string and every option combination, parsing a RFC3164 message always returns, never panics and never writes to the caller's buffer or to package-level state.",
 ["inputs","configurations"],"every byte string x every option combination x any number of earlier calls","As C01, for the second automaton, which no test fuzzes.",
 [M3,"rfc3164/machine.go.rl","rfc3164/syslog_message.go"],[("Parse automaton","rfc3164/machine.go: (*machine).Parse")],["NewMachine(...).Parse"])
p("C11","RFC3164 Parse accepts exactly the grammar and always reports rejection",
 "Parse returns a message and a nil error exactly when the input is a BSD-syslog message in the documented grammar (PRI, Stamp timestamp or, if enabled, RFC3339 timestamp, hostname, then tag, bracketed content and text, of printable characters except that bracketed content may hold any byte); every other input yields a non-nil error, and without best effort a nil message.",
 ["inputs","configurations"],"every byte string x RFC3339 on/off x best effort on/off","Rejections happen in hundreds of states; the tests sample a few and none of them checks that an error is always present.",
 [M3,"rfc3164/machine.go.rl"],[("Parse automaton and its final-state test","rfc3164/machine.go")],["NewMachine(...).Parse"])
p("C12","RFC3164 fields are exactly the bytes of the input",
 "In every accepted RFC3164 message priority, hostname, tag (app-name), bracketed content (procid) and text are exactly the corresponding parts of the input, empty or '-' header parts being reported as absent.",
 ["inputs"],"every accepted input","Tag, content and free text are matched in parallel by an ambiguous automaton whose marks can overwrite each other on unusual inputs.",
 [M3,"rfc3164/syslog_message.go"],[("set_* actions","rfc3164/machine.go"),("export","rfc3164/syslog_message.go")],["SyslogMessage fields"])
p("C13","RFC3164 timestamps follow the year, timezone and RFC3339 options",
 "The timestamp of an accepted message is the Stamp date of the input in the configured locale timezone (UTC by default), moved to the configured year and converted to the configured timezone, or the RFC3339 timestamp of the input unchanged when RFC3339 is enabled and used; impossible dates are rejected.",
 ["inputs","configurations"],"every accepted input x every year strategy x every pair of time zones","Options combine freely with inputs; tests fix a few combinations.",
 [M3,"rfc3164/options.go","rfc3164/year.go"],[("set_timestamp/set_rfc3339 actions","rfc3164/machine.go"),("WithYear/WithTimezone/WithLocaleTimezone","rfc3164/machine.go")],["SyslogMessage.Timestamp"])
p("C14","RFC3164 best effort and error positions",
 "With best effort, a rejected RFC3164 input whose PRI part is complete yields the message made of the parts completed before the failure together with the error; the error names the part expected at the first offending byte and its zero-based column.",
 ["inputs","configurations"],"every rejected input, every failure position","As C06/C07 for the RFC3164 automaton; the existing tests never check most states.",
 [M3,"rfc3164/syslog_message.go"],[("err_* actions, minimal/export","rfc3164/machine.go")],["NewMachine(WithBestEffort()).Parse"])
p("C15","RFC3164 parsing is independent of history and results own their memory",
 "The result of a Parse call on a reused RFC3164 parser equals that of a fresh parser with the same options whatever was parsed before, and a returned message shares no mutable memory with the parser, the input buffer or any earlier result.",
 ["inputs","histories"],"every sequence of inputs on one parser","Needs a specific earlier input; tests use fresh parsers.",
 [M3],[("reset at the start of Parse","rfc3164/machine.go: Parse")],["NewMachine(...).Parse"])
p("C20","Builder setters accept exactly grammatical values and ignore the rest",
 "Each RFC5424 builder setter for a scalar field (priority, version, timestamp, hostname, app-name, procid, msgid, message) stores exactly the given value when it is grammatical for that field and otherwise leaves the message unchanged, and never touches any other field.",
 ["inputs","histories"],"every argument of every setter, on every earlier message state","Acceptance is a language equality with long unrolled automata (255-byte hostnames); tests try a dozen values per setter and never check the frame.",
 [B5,"rfc5424/builder.go.rl"],[("set automaton","rfc5424/builder.go: (*SyslogMessage).set")],["SyslogMessage fields"])
p("C21","Builder structured-data setters",
 "SetElementID adds exactly the given element id if it is grammatical and new, and is discarded otherwise; SetParameter creates the element if needed and adds the parameter with its unescaped value if name and value are grammatical and the name is new in that element, and otherwise changes no parameter; all other elements and fields are untouched.",
 ["inputs","histories"],"every (id, name, value) on every earlier message state","Three automata and a nested map interact over the history of earlier calls.",
 [B5,"rfc5424/builder.go.rl","common/functions.go"],[("set_sdid/set_sdpn/set_sdpv actions","rfc5424/builder.go")],["SyslogMessage.StructuredData"])
p("C22","String() is the canonical serialization",
 "For a valid RFC5424 message String returns exactly <PRI>VERSION TIMESTAMP HOSTNAME APP-NAME PROCID MSGID STRUCTURED-DATA [MSG] with '-' for absent fields, elements and parameter names in sorted order and values escaped, and for an invalid message it returns an error and no text; it never modifies the message.",
 ["inputs"],"every message value, any number of elements and parameters","Map iteration order and unbounded numbers of elements/parameters/escapes; tests serialize a few fixed messages.",
 [B5,"common/functions.go"],[("String","rfc5424/builder.go: String"),("EscapeBytes","common/functions.go")],["SyslogMessage.String"])
p("C23","Serialize-then-parse is the identity on valid messages",
 "Parsing the String() of any valid message whose fields were set through the builder (or came from the parser) succeeds and yields a message equal to the original, for every content of every field.",
 ["inputs","histories"],"every valid builder- or parser-produced message","A composition over unbounded strings, maps and escapes (including non-ASCII parameter values); tests use fixed messages with ASCII values.",
 [B5,M5,"common/functions.go"],[("String/Parse/EscapeBytes/RemoveBytes","rfc5424, common")],["SyslogMessage.String","NewMachine().Parse"])
p("C24","Builders are independent of each other",
 "Operations on one message never affect, and are never affected by, operations on any other message, in any interleaving: no API call of the library other than package initialization writes package-level state.",
 ["inputs","schedules","histories"],"every interleaving of calls on distinct messages/parsers","Cross-talk needs concurrent or interleaved use of two builders; tests are sequential on one.",
 [B5],[("per-call state instead of package variables","rfc5424/builder.go: SetParameter, set")],["SetParameter"])
p("C30","Priority decomposition and validity",
 "Computing from a priority p sets priority p, facility p/8 and severity p%8 for every uint8; a base message is valid exactly when its priority is set and in 0..191, a RFC5424 message exactly when in addition its version is in 1..999.",
 ["inputs"],"every uint8 priority, every uint16 version, every message","Tests check a handful of values.",
 ["syslog.go","common/functions.go","rfc5424/syslog_message.go"],[("ComputeFromPriority, Valid, ValidPriority, ValidVersion","syslog.go, common/functions.go")],["Valid","ComputeFromPriority"])
p("C31","Facility and severity texts",
 "For every facility 0..23 and severity 0..7 the message, level and short-level accessors return the standard keyword or description of that number (a facility without keyword falls back to its description), and return nil when the number is not set.",
 ["inputs"],"every facility and severity number","Tests look at three priorities out of 192.",
 ["syslog.go","common/facility.go","common/severity.go"],[("lookup tables","common"),("accessors","syslog.go")],["FacilityMessage","FacilityLevel","SeverityMessage","SeverityLevel","SeverityShortLevel"])
p("C32","NewParser serializes access and returns what the machine returns",
 "Parse of a parser from NewParser runs its machine only while holding the parser's own lock, always releases the lock, and returns exactly what the same call on the bare machine would return (both values, in both modes).",
 ["inputs","schedules"],"every input, any number of concurrent callers","A missing lock shows only under particular schedules.",
 ["rfc5424/parser.go","rfc3164/parser.go"],[("sync.Mutex around machine.Parse","rfc5424/parser.go, rfc3164/parser.go")],["NewParser(...).Parse"])
p("C40","Octet counting: frames are exactly the announced bytes",
 "For every stream that is a sequence of frames 'LEN SP MSG' with LEN a decimal number without leading zero within the limit and MSG a LEN-byte text starting with '<', the listener receives exactly one result per frame, in order, each being the parse of exactly those LEN bytes (in strict mode up to and including the first frame whose message does not parse).",
 ["inputs"],"every stream, every frame length up to the limit","Frame contents may contain digits, spaces, newlines or look like other frames; lengths and counts are unbounded.",
 ["octetcounting/parser.go","octetcounting/scanner.go"],[("run loop","octetcounting/parser.go: run"),("scanner","octetcounting/scanner.go")],["listener results"])
p("C41","Octet counting: framing errors and the length limit",
 "A frame whose announced length exceeds the configured maximum, or any byte that is not where the framing requires it, ends the parse with exactly one error result naming the token found and the token expected (or the oversize), after all results of the complete frames before it; nothing after it is parsed.",
 ["inputs","configurations"],"every malformed stream, every maximum length","Malformed continuations are unbounded (huge lengths beyond integer range, NUL bytes, misplaced separators); tests use a dozen.",
 ["octetcounting/parser.go","octetcounting/scanner.go","octetcounting/tokens.go"],[("run loop checks","octetcounting/parser.go: run"),("isDigit/isNonZeroDigit/scanMsgLen","octetcounting/scanner.go")],["listener results"])
p("C42","Octet counting: truncated frames and best effort",
 "When the stream ends inside a frame's message, or something that does not begin with '<' stands where its message should be, strict mode reports that framing error alone; best effort parses what is there if it is shorter than announced (the bytes up to the end of the stream, or the wrong token) and reports its message with the parse error, or else the framing error; in best effort a frame that does not parse yields its partial message and error and parsing continues with the next frame.",
 ["inputs","configurations"],"every truncation point of every stream","Any byte can be the last one.",
 ["octetcounting/parser.go","octetcounting/scanner.go"],[("underflow case","octetcounting/parser.go: run")],["listener results"])
p("C43","Non-transparent framing: one result per trailer-delimited message, in order",
 "For every stream of messages starting with '<' and ended by the configured trailer (LF or NUL), the listener receives exactly one result per message, in order, each being the parse of exactly the message bytes without the final trailer, lines not starting with '<' belonging to the preceding message; every Parse call starts afresh.",
 ["inputs","configurations","histories"],"every stream, both trailers, any number of messages, reuse of the parser","Candidates are accumulated across reads by an automaton and flushed on the next start byte; streams and reuse histories are unbounded.",
 ["nontransparent/parser.go","nontransparent/parser.go.rl"],[("Exec automaton, process, OnCompletion","nontransparent/parser.go")],["listener results"])
p("C44","Non-transparent framing: an unterminated last message is still reported",
 "When the stream ends without a trailer, every complete message before is reported first and the unterminated rest is parsed and reported as a last result carrying its message and an error (the parse error, or else the read error); no result is ever emitted without a message or an error, and nothing is reported for an empty rest.",
 ["inputs","fault_sequences"],"every truncation point, every read error position","Any byte can be the last one.",
 ["nontransparent/parser.go"],[("OnErr, OnCompletion","nontransparent/parser.go")],["listener results"])
p("C45","Trailer type text encoding",
 "Decoding a trailer name accepts exactly LF and NUL in any letter case, bare or in single or double quotes, and yields that trailer; encoding then decoding any valid trailer is the identity, Value maps LF to 10 and NUL to 0, and every other input or value is an error that no method turns into a valid trailer.",
 ["inputs"],"every string, every integer trailer value","Tests list a few names.",
 ["nontransparent/trailer_type.go"],[("TrailerTypeFromString, MarshalText, UnmarshalText, String, Value","nontransparent/trailer_type.go")],["TrailerType methods"])
p("C46","Options configure exactly what they say",
 "Each option changes exactly its own setting whatever the order in which options are given, defaults hold for settings not given, HasBestEffort reports the configured mode, stream parsers hand their mode to the inner RFC5424 parser, and an invalid trailer option is ignored.",
 ["configurations"],"every list of options in any order","Option lists are unbounded sequences; tests use one or two at a time.",
 ["options.go","rfc5424/options.go","rfc3164/options.go","octetcounting/parser.go","nontransparent/parser.go"],[("option closures","options.go, */options.go"),("constructors","NewMachine, NewParser")],["HasBestEffort","behaviour of the constructed parser"])
p("C50","Byte helpers compute what their documentation says",
 "UnsafeUTF8DecimalCodePointsToInt returns the decimal value of every digit string of at most 17 digits, RemoveBytes, given increasing positions inside its input after the offset, returns a copy of its input without exactly those positions and never modifies the input, EscapeBytes inserts a backslash before exactly the three special bytes and keeps every other byte, and the range predicates are exact.",
 ["inputs"],"every argument meeting the documented precondition","Loops over unbounded slices; tests use a few ASCII samples.",
 ["common/functions.go"],[("helpers","common/functions.go")],["common.*"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
