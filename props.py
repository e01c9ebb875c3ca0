"""What decides each property."""

TRUSTED = [
    "gover, the verifier (/verif/gover): SSA semantics of Go, join/subsumption of invariants, its decision procedures",
    "golang.org/x/tools/go/ssa: the translation of /repo's source to SSA form",
    "the Go compiler and runtime implement the Go specification",
]

ASSUMPTIONS = [
    "every slice and string is shorter than 2^50 bytes",
    "int and uint are 64 bits wide",
    "append returns memory which is not shared with other slices of the program (no capacity aliasing)",
    "memory allocation never fails; no other goroutine writes the memory of the call (data-race freedom of the caller)",
]

# harness: name, total (implicit obligations - nil, index, slice, frame ... -
# belong to the property too), expect (obligations which must have been
# generated), explore (search for a failing input).
PROPS = {
    "C20": {"harnesses": [{"name": n, "total": True, "expect": [e]} for n, e in (
        ("SetPriority", "C20.version"), ("SetTimestamp", "C20.timestamp"), ("SetHostname", "C20.hostname"), ("SetAppname", "C20.appname"),
        ("SetProcID", "C20.procid"), ("SetMsgID", "C20.msgid"), ("SetMessage", "C20.message"))]},
    "C21": {"harnesses": [{"name": "SetElementID", "total": True, "expect": ["C21.SetElementID"]},
                          {"name": "SetParameter", "total": True, "expect": ["C21.SetParameter", "C50.RemoveBytes.requires"]}]},
    "C22": {"harnesses": [{"name": "Text5424", "total": True, "expect": ["C22.invalid", "C22.valid", "C22.text", "C22.unmodified"]},
                          {"name": "Text5424Data", "total": True, "expect": ["C22.valid", "C22.text", "C22.unmodified", "invariant", "termination"]},
                          {"name": "Escaped", "also": ["C50.EscapeBytes"], "expect": ["C50.EscapeBytes"], "explore": False}],
            "assumptions": ["time.Time.Format is a function of the time and the layout; fmt.Sprintf writes decimal numbers and strings as documented; sort.Strings sorts"]},
    "C23": {"harnesses": [{"name": "Text5424", "also": ["C22."], "expect": ["C22.text"], "explore": False},
                          {"name": "Text5424Data", "also": ["C22."], "expect": ["C22.text"], "explore": False},
                          {"name": "Escaped", "also": ["C50.EscapeBytes"], "expect": ["C50.EscapeBytes"], "explore": False},
                          {"name": "Parse5424", "also": ["C02.", "C03.", "C04.", "C05."], "expect": ["C02.accept", "C03.priority", "C04.elements", "C05.message"], "explore": False},
                          {"name": "Built", "verify": False}, {"name": "Reparsed", "verify": False}],
            "level": "other",
            "note": "Proved for all inputs on the real code: String writes exactly the canonical text of the message, EscapeBytes escapes exactly the special bytes, and Parse is exactly the specified transducer. Bounded, not proved: that this transducer maps the canonical text of a message back to the message (a lemma over the two specifications, independent of the code); it is evaluated on every run, through the real code, on messages enumerated from the grammars of the setters and of the parser within the time limit.",
            "assumptions": ["bounded: the lemma over the two specifications (specified Parse of the specified text of a message is the message) is evaluated on enumerated messages, not proved",
                            "time.Parse of what time.Time.Format wrote is the same instant"]},
    "C30": {"harnesses": [{"name": "BasePriority", "total": True, "expect": ["C30.priority", "C30.valid", "C30.5424.valid", "C30.3164.valid"]}]},
    "C31": {"harnesses": [{"name": "FacilityText", "total": True, "expect": ["C31.facility.message", "C31.facility.level"]},
                          {"name": "SeverityText", "total": True, "expect": ["C31.severity.message", "C31.severity.level", "C31.severity.short"]}]},
    "C50": {"harnesses": [{"name": "Removed", "total": True, "expect": ["C50.RemoveBytes", "C50.RemoveBytes.len", "C50.RemoveBytes.input", "C50.RemoveBytes.fresh", "invariant", "termination"]},
                          {"name": "Escaped", "total": True, "expect": ["C50.EscapeBytes"]},
                          {"name": "Decimal", "total": True, "expect": ["C50.decimal", "C50.decimal.input"]},
                          {"name": "Ranges", "total": True, "expect": ["C50.InBetween", "C50.ValidPriority", "C50.ValidVersion"]}]},
    "C24": {"harnesses": [{"name": n, "expect": ["frame"], "explore": False} for n in ("SetPriority", "SetTimestamp", "SetHostname", "SetAppname", "SetProcID", "SetMsgID", "SetMessage", "Parse3164")] +
                         [{"name": "SetElementID", "expect": ["frame", "C24.global"], "globals": True}, {"name": "SetParameter", "expect": ["frame"]}]},
    "C32": {"harnesses": [{"name": "Parser5424", "total": True, "expect": ["C32.held", "C32.same", "C32.once", "C32.machine", "C32.released", "C32.result", "C32.error", "C32.unlock.requires"]},
                          {"name": "Parser3164", "total": True, "expect": ["C32.held", "C32.same", "C32.once", "C32.machine", "C32.released", "C32.result", "C32.error", "C32.unlock.requires"]}]},
    "C46": {"harnesses": [{"name": "Options5424", "total": True, "expect": ["C46.5424.machine", "C46.5424.best", "C46.5424.parser", "C46.5424.WithBestEffort", "C46.5424.parse.compliant"]},
                          {"name": "Options3164", "total": True, "expect": ["C46.3164.machine", "C46.3164.best", "C46.3164.defaults", "C46.3164.parser", "C46.3164.parse.timestamp", "C46.3164.parse.rfc3339"]},
                          {"name": "OptionsOctet", "total": True, "expect": ["C46.octet.parser", "C46.octet.best", "C46.octet.default", "C46.octet.limit", "C46.octet.mode"]},
                          {"name": "OptionsTrailer", "total": True, "expect": ["C46.trailer.parser", "C46.trailer.best", "C46.trailer.mode", "C46.trailer.NUL", "C46.trailer.LF"]},
                          {"name": "OptionsStep5424", "total": True, "expect": ["C46.5424.step"]}, {"name": "OptionsStep3164", "total": True, "expect": ["C46.3164.step"]},
                          {"name": "OptionsStepOctet", "total": True, "expect": ["C46.octet.step"]}, {"name": "OptionsStepTrailer", "total": True, "expect": ["C46.trailer.step"]}],
            "assumptions": ["NewMachine and NewParser apply the options of a list one after the other: proved for lists of up to six options; that one more option does to any configuration just what it says is proved for every configuration"]},
    "C40": {"harnesses": [{"name": "Octet", "total": True, "expect": ["C40.all", "C40.frame", "C40.digits", "C40.space", "C41.stop", "index", "slice", "termination"]}]},
    "C41": {"harnesses": [{"name": "Octet", "expect": ["C41.stop", "C41.empty", "C41.length", "C41.limit", "C41.space", "C41.space.end"]}]},
    "C42": {"harnesses": [{"name": "Octet", "expect": ["C42.best", "C42.strict"]}]},
    "C43": {"harnesses": [{"name": "TrailerStream", "total": True, "expect": ["C43.order", "C43.all", "C43.message", "C43.last", "C43.extra", "index", "slice", "termination"]}]},
    "C44": {"harnesses": [{"name": "TrailerStream", "expect": ["C44.nothing", "C44.once", "C44.rest", "C44.result"]}]},
    "C45": {"harnesses": [{"name": "TrailerText", "total": True, "expect": ["C45.FromString.accept", "C45.UnmarshalText", "C45.UnmarshalTOML"]},
                          {"name": "TrailerValue", "total": True, "expect": ["C45.Value.LF", "C45.Value.invalid", "C45.identity"]}]},
    "C01": {"harnesses": [{"name": "Parse5424", "total": True, "expect": ["C01.input", "termination", "index", "slice"]}]},
    "C02": {"harnesses": [{"name": "Parse5424", "expect": ["C02.accept", "C02.message", "C02.nothing"]}]},
    "C03": {"harnesses": [{"name": "Parse5424", "expect": ["C03.priority", "C03.msgid"]}]},
    "C04": {"harnesses": [{"name": "Parse5424", "expect": ["C04.elements", "C04.absent"]}]},
    "C05": {"harnesses": [{"name": "Parse5424", "expect": ["C05.accept", "C05.message"]}]},
    "C06": {"harnesses": [{"name": "Parse5424", "expect": ["C06.minimal", "C06.version", "C06.sd.elements", "C06.message"]}]},
    "C07": {"harnesses": [{"name": "Parse5424", "expect": ["C07.error"]}]},
    "C08": {"harnesses": [{"name": "Parse5424", "expect": ["C08.fresh", "C08.history"], "history": "github.com/influxdata/go-syslog/v3/rfc5424:machine:Parse"}]},
    "C10": {"harnesses": [{"name": "Parse3164", "total": True, "expect": ["C10.input", "termination", "index", "slice"]}]},
    "C11": {"harnesses": [{"name": "Parse3164", "expect": ["C11.accept", "C11.message", "C11.nothing"]}]},
    "C12": {"harnesses": [{"name": "Parse3164", "expect": ["C12.priority", "C12.hostname", "C12.appname", "C12.procid", "C12.message"]}]},
    "C13": {"harnesses": [{"name": "Parse3164", "expect": ["C13.timestamp"]}]},
    "C14": {"harnesses": [{"name": "Parse3164", "expect": ["C14.error", "C14.minimal", "C14.hostname", "C14.message"]}]},
    "C15": {"harnesses": [{"name": "Parse3164", "expect": ["C15.fresh", "C15.history"], "history": "github.com/influxdata/go-syslog/v3/rfc3164:machine:Parse"}]},
}

NOT_APPLICABLE = {}
