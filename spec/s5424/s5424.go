// Package s5424 is the specification of the RFC5424 parser: a transducer that
// reads the input one byte at a time. It is written from the documented
// grammar, and knows nothing about the generated automaton.
package s5424

import (
	"fmt"
	"time"

	"verifspec/gv"
)

// Phases.
const (
	PriLt     = iota // expecting '<'
	PriFirst         // expecting the first digit
	Pri1             // read 1
	Pri19            // read 19
	PriTwo           // read a two-digit value that can have a third digit (10..18)
	PriOne           // read a one-digit value 2..9
	PriEnd0          // number complete, only '>' can follow: 0,
	PriEnd190        // 190,
	PriEnd191        // 191,
	PriEndTwo        // 100..189,
	PriEndOne        // 20..99
	VerFirst         // expecting the first version digit
	VerMore          // N version digits read
	TsStart          // expecting '-' or the first digit of a timestamp
	TsNil            // read '-'
	TsDate           // inside the date/time, N bytes read
	TsFrac           // inside the fraction of a second, N digits read
	TsOff            // inside the numeric offset, N bytes read
	TsEnd            // complete timestamp
	HostFirst        // hostname, app-name, procid, msgid
	Host
	AppFirst
	App
	ProcFirst
	Proc
	MsgidFirst
	Msgid
	SDFirst   // expecting '-' or '['
	SDNil     // read '-'
	SDIDFirst // after '['
	SDID      // N bytes of the id read
	SDName0   // after SP inside an element
	SDName    // N bytes of a name read
	SDEq      // after '='
	SDVal     // inside a value
	SDEsc     // after a backslash inside a value
	SDUtf     // inside a multi-byte character of a value, U is the decoder state
	SDQuote   // after the closing quote
	SDEnd     // after ']'
	MsgFirst  // after the SP following the structured data
	MsgAny    // inside a MSG
	MsgBom1   // compliant mode: read the first byte of the BOM
	MsgBom2   // compliant mode: read two bytes of the BOM
	MsgUtf    // compliant mode: after the BOM, U is the decoder state
	Done
)

// Documented error texts.
const (
	EPrival   = "expecting a priority value in the range 1-191 or equal to 0"
	EPri      = "expecting a priority value within angle brackets"
	EVersion  = "expecting a version value in the range 1-999"
	ETs       = "expecting a RFC3339MICRO timestamp or a nil value"
	EHost     = "expecting an hostname (from 1 to max 255 US-ASCII characters) or a nil value"
	EApp      = "expecting an app-name (from 1 to max 48 US-ASCII characters) or a nil value"
	EProc     = "expecting a procid (from 1 to max 128 US-ASCII characters) or a nil value"
	EMsgid    = "expecting a msgid (from 1 to max 32 US-ASCII characters) or a nil value"
	ESD       = "expecting a structured data section containing one or more elements (`[id( key=\"value\")*]+`) or a nil value"
	ESDID     = "expecting a structured data element id (from 1 to max 32 US-ASCII characters; except `=`, ` `, `]`, and `\"`"
	ESDDup    = "duplicate structured data element id"
	ESDParam  = "expecting a structured data parameter (`key=\"value\"`, both part from 1 to max 32 US-ASCII characters; key cannot contain `=`, ` `, `]`, and `\"`, while value cannot contain `]`, backslash, and `\"` unless escaped)"
	EMsg      = "expecting a free-form optional message in UTF-8 (starting with or without BOM)"
	EMsgNC    = EMsg + " or a free-form optional message in any encoding (starting without BOM)"
	EEscape   = "expecting chars `]`, `\"`, and `\\` to be escaped within param value"
	EParse    = "parsing error"
	LayoutMic = "2006-01-02T15:04:05.999999Z07:00"
)

// P is the state of the transducer.
type P struct {
	Compliant bool

	Ph    int `gv:"ctl"`
	N     int
	U     int  `gv:"ctl"` // UTF-8 decoder state
	Ok    bool `gv:"ctl"`
	InMsg bool `gv:"ctl"` // the MSG part was reached
	At    int  `gv:"ctl"` // the phase of the failure
	How   int  `gv:"ctl"` // which of the failures of the phase
	EOF   bool `gv:"ctl"` // the end of the input was read

	Idx  int    // bytes read so far
	Cur  string // bytes of the current field
	Esc  []int  // positions of the escaping backslashes of the current value
	Val0 int    // position of the first byte of the current value

	HasPrio bool `gv:"ctl"`
	Prio    int
	Ver     int
	Ver1    int  // value before the last version digit
	HasTs   bool `gv:"ctl"`
	Ts      time.Time
	Host    string
	App     string
	Proc    string
	Msgid   string
	HasSD   bool `gv:"ctl"`
	SD      map[string]map[string]string
	Elem    string // current element
	Name    string // current parameter name
	Msg     string
	Err     error
}

// New returns the initial state.
func New(compliant bool) *P { return &P{Compliant: compliant} }

func isDigit(b byte) bool { return b >= '0' && b <= '9' }
func isGraph(b byte) bool { return b >= 33 && b <= 126 }
func isName(b byte) bool {
	return isGraph(b) && b != '=' && b != ']' && b != '"'
}

// UTF-8 decoder states: 0 between characters, else the bytes still expected.
const (
	U0   = 0
	UT1  = 1 // one tail byte
	UT2  = 2 // two tail bytes
	UT3  = 3 // three tail bytes
	UE0  = 4 // after E0: A0..BF, then one tail byte
	UED  = 5 // after ED: 80..9F, then one tail byte
	UF0  = 6 // after F0: 90..BF, then two tail bytes
	UF4  = 7 // after F4: 80..8F, then two tail bytes
	UBad = -1
)

// UStep advances the UTF-8 decoder (RFC 3629).
func UStep(u int, b byte) int {
	switch u {
	case U0:
		switch {
		case b < 0x80:
			return U0
		case b >= 0xC2 && b <= 0xDF:
			return UT1
		case b == 0xE0:
			return UE0
		case b == 0xED:
			return UED
		case b >= 0xE1 && b <= 0xEF:
			return UT2
		case b == 0xF0:
			return UF0
		case b >= 0xF1 && b <= 0xF3:
			return UT3
		case b == 0xF4:
			return UF4
		}
		return UBad
	case UT1:
		if b >= 0x80 && b <= 0xBF {
			return U0
		}
	case UT2:
		if b >= 0x80 && b <= 0xBF {
			return UT1
		}
	case UT3:
		if b >= 0x80 && b <= 0xBF {
			return UT2
		}
	case UE0:
		if b >= 0xA0 && b <= 0xBF {
			return UT1
		}
	case UED:
		if b >= 0x80 && b <= 0x9F {
			return UT1
		}
	case UF0:
		if b >= 0x90 && b <= 0xBF {
			return UT2
		}
	case UF4:
		if b >= 0x80 && b <= 0x8F {
			return UT2
		}
	}
	return UBad
}

func (s *P) fail(text string) {
	s.Err = fmt.Errorf("%s [col %d]", text, s.Idx)
	s.At = s.Ph
	s.Ph = Done
	s.N = 0
	s.U = 0
}

func (s *P) start(ph int) {
	s.Ph = ph
	s.N = 0
	s.Cur = ""
}

// Finished tells whether the outcome is already decided.
func (s *P) Finished() bool { return s.Ph == Done }

// Step reads a byte.
func (s *P) Step(b byte) {
	switch s.Ph {
	case Done:
		return
	case PriLt, PriFirst, Pri1, Pri19, PriTwo, PriOne, PriEnd0, PriEnd190, PriEnd191, PriEndTwo, PriEndOne:
		s.stepPri(b)
	case VerFirst, VerMore:
		s.stepVersion(b)
	case TsStart, TsNil, TsDate, TsFrac, TsOff, TsEnd:
		s.stepTimestamp(b)
	case HostFirst, Host:
		s.stepHost(b)
	case AppFirst, App:
		s.stepApp(b)
	case ProcFirst, Proc:
		s.stepProc(b)
	case MsgidFirst, Msgid:
		s.stepMsgid(b)
	case SDFirst, SDNil, SDIDFirst, SDID, SDName0, SDName, SDEq, SDVal, SDEsc, SDUtf, SDQuote, SDEnd:
		s.stepSD(b)
	default:
		s.stepMsg(b)
	}
	if s.Ph != Done {
		s.Idx++
	}
}

func (s *P) stepPri(b byte) {
	switch s.Ph {
	case PriLt:
		if b != '<' {
			s.fail(EPri)
			return
		}
		s.start(PriFirst)
		return
	case PriFirst:
		switch {
		case b == '0':
			s.Ph = PriEnd0
		case b == '1':
			s.Ph = Pri1
		case b >= '2' && b <= '9':
			s.Ph = PriOne
		default:
			s.fail(EPrival)
			return
		}
		s.Prio = int(b) - '0'
		return
	}
	if b == '>' {
		s.HasPrio = true
		s.start(VerFirst)
		return
	}
	switch s.Ph {
	case Pri1:
		switch {
		case b == '9':
			s.Ph = Pri19
		case b >= '0' && b <= '8':
			s.Ph = PriTwo
		default:
			s.fail(EPrival)
			return
		}
	case Pri19:
		switch b {
		case '0':
			s.Ph = PriEnd190
		case '1':
			s.Ph = PriEnd191
		default:
			s.fail(EPrival)
			return
		}
	case PriTwo, PriOne:
		if !isDigit(b) {
			s.fail(EPrival)
			return
		}
		if s.Ph == PriTwo {
			s.Ph = PriEndTwo
		} else {
			s.Ph = PriEndOne
		}
	default:
		s.fail(EPrival)
		return
	}
	s.Prio = s.Prio*10 + int(b) - '0'
}

func (s *P) stepVersion(b byte) {
	if s.Ph == VerFirst {
		if b < '1' || b > '9' {
			s.fail(EVersion)
			return
		}
		s.Ph = VerMore
		s.N = 1
		s.Ver1 = int(b) - '0'
		return
	}
	// Ver is set as soon as something follows the digits
	s.Ver = s.Ver1
	switch {
	case b == ' ':
		s.start(TsStart)
	case isDigit(b) && s.N < 3:
		s.N++
		s.Ver1 = s.Ver1*10 + int(b) - '0'
	case s.N == 1:
		s.How = 1
		s.fail(EParse)
	default:
		s.fail(EVersion)
	}
}

// OkDate tells whether b can be at the n-th position of YYYY-MM-DDThh:mm:ss
// given the previous byte.
func OkDate(n int, prev, b byte) bool {
	switch n {
	case 0, 1, 2, 3:
		return isDigit(b)
	case 4, 7:
		return b == '-'
	case 5: // month
		return b == '0' || b == '1'
	case 6:
		if prev == '0' {
			return b >= '1' && b <= '9'
		}
		return b >= '0' && b <= '2'
	case 8: // day
		return b >= '0' && b <= '3'
	case 9:
		if prev == '0' {
			return b >= '1' && b <= '9'
		}
		if prev == '3' {
			return b == '0' || b == '1'
		}
		return isDigit(b)
	case 10:
		return b == 'T'
	}
	return OkTime(n-11, prev, b)
}

// OkTime tells whether b can be at the n-th position of hh:mm:ss given the
// previous byte.
func OkTime(n int, prev, b byte) bool {
	switch n {
	case 0:
		return b >= '0' && b <= '2'
	case 1:
		if prev == '2' {
			return b >= '0' && b <= '3'
		}
		return isDigit(b)
	case 2, 5:
		return b == ':'
	case 3, 6:
		return b >= '0' && b <= '5'
	}
	return isDigit(b)
}

func (s *P) stepTimestamp(b byte) {
	switch s.Ph {
	case TsStart:
		if b == '-' {
			s.Ph = TsNil
			return
		}
		if !isDigit(b) {
			s.fail(ETs)
			return
		}
		s.Ph = TsDate
		s.N = 1
	case TsNil:
		if b != ' ' {
			s.fail(EParse)
			return
		}
		s.start(HostFirst)
		return
	case TsDate:
		if s.N == 19 {
			switch b {
			case '.':
				s.Ph = TsFrac
				s.N = 0
			case 'Z':
				s.Ph = TsEnd
				s.N = 0
			case '+', '-':
				s.Ph = TsOff
				s.N = 0
			default:
				s.fail(ETs)
				return
			}
			break
		}
		if !OkDate(s.N, s.prev(), b) {
			s.fail(ETs)
			return
		}
		s.N++
	case TsFrac:
		switch {
		case isDigit(b) && s.N < 6:
			s.N++
		case b == 'Z' && s.N > 0:
			s.Ph = TsEnd
			s.N = 0
		case (b == '+' || b == '-') && s.N > 0:
			s.Ph = TsOff
			s.N = 0
		default:
			s.fail(ETs)
			return
		}
	case TsOff:
		if !OkTime(s.N, s.prev(), b) {
			s.fail(ETs)
			return
		}
		s.N++
		if s.N == 5 {
			s.Ph = TsEnd
			s.N = 0
		}
	case TsEnd:
		// The timestamp is complete
		if !s.setTimestamp() {
			return
		}
		if b != ' ' {
			s.fail(EParse)
			return
		}
		s.start(HostFirst)
		return
	}
	s.Cur += string([]byte{b})
}

func (s *P) prev() byte { return s.Cur[len(s.Cur)-1] }

func (s *P) setTimestamp() bool {
	t, e := time.Parse(LayoutMic, s.Cur)
	if e != nil {
		s.How = 1
		s.fail(e.Error())
		return false
	}
	s.HasTs = true
	s.Ts = t
	return true
}

// field reads a byte of a header field of up to max printable characters.
// It tells whether the field is complete.
func (s *P) field(b byte, first bool, max int, text string) bool {
	if b == ' ' && !first {
		return true
	}
	if !isGraph(b) || s.N == max {
		s.fail(text)
		return false
	}
	s.N++
	s.Cur += string([]byte{b})
	return false
}

func (s *P) stepHost(b byte) {
	if s.field(b, s.Ph == HostFirst, 255, EHost) {
		s.Host = s.Cur
		s.start(AppFirst)
	} else if s.Ph != Done {
		s.Ph = Host
	}
}

func (s *P) stepApp(b byte) {
	if s.field(b, s.Ph == AppFirst, 48, EApp) {
		s.App = s.Cur
		s.start(ProcFirst)
	} else if s.Ph != Done {
		s.Ph = App
	}
}

func (s *P) stepProc(b byte) {
	if s.field(b, s.Ph == ProcFirst, 128, EProc) {
		s.Proc = s.Cur
		s.start(MsgidFirst)
	} else if s.Ph != Done {
		s.Ph = Proc
	}
}

func (s *P) stepMsgid(b byte) {
	if s.field(b, s.Ph == MsgidFirst, 32, EMsgid) {
		s.Msgid = s.Cur
		s.start(SDFirst)
	} else if s.Ph != Done {
		s.Ph = Msgid
	}
}

// endID adds the current element. It tells whether its id is new.
func (s *P) endID() bool {
	if _, dup := s.SD[s.Cur]; dup {
		s.How = 1
		if s.Cur == s.Elem {
			s.How = 2
		}
		s.fail(ESDDup)
		return false
	}
	s.Elem = s.Cur
	s.SD[s.Elem] = map[string]string{}
	s.HasSD = true
	return true
}

// badParam forgets the parameter in progress. Known finding: with a name that
// is repeated in the element, the parameter completed before is lost as well.
func (s *P) badParam() {
	delete(s.SD[s.Elem], s.Name)
	s.fail(ESDParam)
}

func (s *P) setParam() {
	v := s.Cur
	if len(s.Esc) > 0 {
		v = RemoveAt(v, s.Esc, s.Val0)
	}
	s.SD[s.Elem][s.Name] = v
}

func (s *P) stepSD(b byte) {
	switch s.Ph {
	case SDFirst:
		switch b {
		case '-':
			s.Ph = SDNil
		case '[':
			s.SD = map[string]map[string]string{}
			s.start(SDIDFirst)
		default:
			s.fail(ESD)
		}
	case SDNil:
		if b != ' ' {
			s.fail(EParse)
			return
		}
		s.startMsg()
	case SDIDFirst:
		if !isName(b) {
			s.fail(ESDID)
			return
		}
		s.Ph = SDID
		s.N = 1
		s.Cur += string([]byte{b})
	case SDID:
		switch {
		case b == ' ':
			if s.endID() {
				s.Name = ""
				s.start(SDName0)
			}
		case b == ']':
			if s.endID() {
				s.start(SDEnd)
			}
		case isName(b) && s.N < 32:
			s.N++
			s.Cur += string([]byte{b})
		default:
			s.badID()
		}
	case SDName0:
		if !isName(b) {
			s.fail(ESDParam)
			return
		}
		s.Ph = SDName
		s.N = 1
		s.Cur = string([]byte{b})
	case SDName:
		switch {
		case b == '=':
			s.Name = s.Cur
			s.start(SDEq)
		case isName(b) && s.N < 32:
			s.N++
			s.Cur += string([]byte{b})
		default:
			s.fail(ESDParam)
		}
	case SDEq:
		if b != '"' {
			s.badParam()
			return
		}
		s.start(SDVal)
		s.Esc = []int{}
		s.Val0 = s.Idx + 1
	case SDVal:
		switch {
		case b == '"':
			s.setParam()
			s.start(SDQuote)
			return
		case b == '\\':
			s.Esc = append(s.Esc, s.Idx)
			s.Ph = SDEsc
		case b == ']':
			s.fail(EEscape)
			return
		default:
			s.U = UStep(U0, b)
			if s.U == UBad {
				s.fail(EEscape)
				return
			}
			if s.U != U0 {
				s.Ph = SDUtf
			}
		}
		s.Cur += string([]byte{b})
	case SDEsc:
		if b != '"' && b != '\\' && b != ']' {
			s.fail(EEscape)
			return
		}
		s.Ph = SDVal
		s.Cur += string([]byte{b})
	case SDUtf:
		s.U = UStep(s.U, b)
		if s.U == UBad {
			s.badParam()
			return
		}
		if s.U == U0 {
			s.Ph = SDVal
		}
		s.Cur += string([]byte{b})
	case SDQuote:
		switch b {
		case ' ':
			s.Name = ""
			s.start(SDName0)
		case ']':
			s.start(SDEnd)
		default:
			s.badParam()
		}
	case SDEnd:
		switch b {
		case '[':
			s.start(SDIDFirst)
		case ' ':
			s.startMsg()
		default:
			s.fail(ESD)
		}
	}
}

// startMsg starts the MSG part. Only in compliant mode do its bytes matter.
func (s *P) startMsg() {
	s.InMsg = true
	if s.Compliant {
		s.start(MsgFirst)
	} else {
		s.start(MsgAny)
	}
}

// badID reports an invalid element id. An id seen before is reported as such.
func (s *P) badID() {
	if _, dup := s.SD[s.Cur]; dup {
		s.How = 1
		if s.Cur == s.Elem {
			s.How = 2
		}
		s.fail(ESDDup)
		return
	}
	s.fail(ESDID)
}

func (s *P) stepMsg(b byte) {
	switch s.Ph {
	case MsgFirst:
		s.Ph = MsgAny
		if b == 0xEF {
			s.Ph = MsgBom1
		}
	case MsgBom1:
		s.Ph = MsgAny
		if b == 0xBB {
			s.Ph = MsgBom2
		}
	case MsgBom2:
		s.Ph = MsgAny
		if b == 0xBF {
			s.Ph = MsgUtf
		}
	case MsgUtf:
		u := UStep(s.U, b)
		if u == UBad {
			s.Msg = s.Cur
			s.fail(EMsgNC)
			return
		}
		s.U = u
	}
	s.Cur += string([]byte{b})
}

// Finish reads the end of the input.
func (s *P) Finish() {
	s.EOF = s.Ph != Done
	switch s.Ph {
	case Done:
	case PriLt:
		s.fail(EPri)
	case PriFirst, Pri1, Pri19, PriTwo, PriOne, PriEnd0, PriEnd190, PriEnd191, PriEndTwo, PriEndOne:
		s.fail(EPrival)
	case VerFirst:
		s.fail(EVersion)
	case VerMore:
		if s.N == 1 {
			s.Ver = s.Ver1
			s.How = 1
			s.fail(EParse)
		} else {
			s.fail(EVersion)
		}
	case TsStart, TsDate, TsFrac, TsOff:
		s.fail(ETs)
	case TsNil:
		s.fail(EParse)
	case TsEnd:
		if s.setTimestamp() {
			s.fail(EParse)
		}
	case HostFirst, Host:
		s.fail(EHost)
	case AppFirst, App:
		s.fail(EApp)
	case ProcFirst, Proc:
		s.fail(EProc)
	case MsgidFirst, Msgid:
		s.fail(EMsgid)
	case SDFirst:
		s.fail(ESD)
	case SDIDFirst:
		s.fail(ESDID)
	case SDID:
		s.badID()
	case SDName0, SDName:
		s.fail(ESDParam)
	case SDEq, SDUtf, SDQuote:
		s.badParam()
	case SDVal, SDEsc:
		s.fail(EEscape)
	case MsgUtf:
		s.Msg = s.Cur
		if s.U != U0 {
			s.fail(EMsgNC)
			return
		}
		s.Ok = true
		s.Ph = Done
	case MsgFirst, MsgAny, MsgBom1, MsgBom2:
		s.Msg = s.Cur
		s.Ok = true
		s.Ph = Done
	default: // SDNil, SDEnd
		s.Ok = true
		s.Ph = Done
	}
}

// RemoveAt returns raw without the bytes at the given increasing positions,
// the first byte of raw having position off.
func RemoveAt(raw string, pos []int, off int) string {
	r := &Remover{Raw: raw, Off: off, Now: raw}
	for _, p := range pos {
		r.Step(p)
	}
	r.Finish()
	return r.Out
}

// Remover removes bytes.
type Remover struct {
	Raw  string
	Off  int
	N    int    // how many bytes were removed
	Last int    // how many were read
	Out  string // those kept
	Now  string // Raw without the bytes removed so far
}

// Step removes a byte after the ones already removed: its precondition is that
// the position is beyond them, and in Raw.
func (r *Remover) Step(p int) {
	gv.Assume(r.Off+r.Last <= p)
	gv.Assume(p < r.Off+len(r.Raw))
	gv.Assume(r.Last < len(r.Raw)) // which follows
	r.Out += r.Raw[r.Last : p-r.Off]
	r.Last = p - r.Off + 1
	r.N++
	r.Now = r.Out + r.Raw[r.Last:]
}

// Finish keeps the rest.
func (r *Remover) Finish() { r.Out = r.Now }

// Minimal tells whether a partial message can be reported.
func (s *P) Minimal() bool { return s.HasPrio && s.Ver != 0 }

// Absorbing tells whether any bytes can follow.
func (s *P) Absorbing() bool {
	return s.Ph == MsgAny
}

// Absorb reads all that follows.
func (s *P) Absorb(rest string) {
	s.Ph = MsgAny
	s.Cur += rest
	s.Idx += len(rest)
}
