// Package s3164 is the specification of the RFC3164 parser: a transducer that
// reads the input one byte at a time. It is written from the documented
// grammar, and knows nothing about the generated automaton.
package s3164

import (
	"fmt"
	"time"
)

// Phases.
const (
	PriLt    = iota // expecting '<'
	PriFirst        // expecting the first digit
	Pri1            // read 1
	Pri19           // read 19
	PriTwo          // read 10..18
	PriOne          // read 2..9
	PriEnd0         // number complete, only '>' can follow: 0,
	PriEnd190
	PriEnd191
	PriEndTwo // 100..189
	PriEndOne // 20..99
	TsStart   // expecting a timestamp
	TsMonth   // inside the name of the month, Mon is what was read
	TsStamp   // inside a Stamp timestamp after the month, N bytes read
	TsStampEnd
	TsDate // inside a RFC3339 timestamp, N bytes read
	TsZone // expecting its offset
	TsOff  // inside a numeric offset, N bytes read
	TsDateEnd
	HostFirst
	Host
	TextFirst // after the hostname
	Tag       // inside what may be a tag, N bytes read
	TagColon  // after "tag:"
	TagSp     // after "tag: "
	Content0  // after "tag["
	Content   // inside what may be a content, all visible so far
	ContentB  // after its ']'
	ContentC  // after its "]:"
	ContentS  // after "tag[content]: "
	ContentX  // like Content, after an invisible character: no text any more
	ContentXB
	ContentXC
	ContentXS
	Text
	Done
)

// Documented error texts.
const (
	EPrival  = "expecting a priority value in the range 1-191 or equal to 0"
	EPri     = "expecting a priority value within angle brackets"
	EStamp   = "expecting a Stamp timestamp"
	ERFC3339 = "expecting a Stamp or a RFC3339 timestamp"
	EHost    = "expecting an hostname (from 1 to max 255 US-ASCII characters)"
	ETag     = "expecting an alphanumeric tag (max 32 characters)"
	EParse   = "parsing error"
)

// Names of the months, by what was read of them.
const (
	MA = iota
	MAp
	MAu
	MD
	MDe
	MF
	MFe
	MJ
	MJa
	MJu
	MM
	MMa
	MN
	MNo
	MO
	MOc
	MS
	MSe
	MDone
	MNone
)

// P is the state of the transducer.
type P struct {
	RFC3339 bool
	Year    int
	Loc     *time.Location // the timezone to convert to
	Zone    *time.Location // the timezone of the input

	Ph  int `gv:"ctl"`
	Mon int `gv:"ctl"`
	N   int
	Ok  bool `gv:"ctl"`
	At  int  `gv:"ctl"` // the phase of the failure
	How int  `gv:"ctl"`
	EOF bool `gv:"ctl"` // the end of the input was read

	Idx int    // bytes read so far
	Cur string // bytes of the current field
	Raw string // bytes since the start of the tag

	HasPrio bool `gv:"ctl"`
	Prio    int
	HasTs   bool `gv:"ctl"`
	Ts      time.Time
	Host    string
	Tag     string
	Content string
	Text    string
	Err     error
}

// New returns the initial state.
func New(rfc3339 bool, year int, loc, zone *time.Location) *P {
	return &P{RFC3339: rfc3339, Year: year, Loc: loc, Zone: zone}
}

func isDigit(b byte) bool   { return b >= '0' && b <= '9' }
func isGraph(b byte) bool   { return b >= 33 && b <= 126 }
func isControl(b byte) bool { return b < 32 || b == 127 }

func (s *P) fail(text string) {
	s.Err = fmt.Errorf("%s [col %d]", text, s.Idx)
	s.At = s.Ph
	s.Ph = Done
	s.N = 0
	s.Mon = 0
}

func (s *P) start(ph int) {
	s.Ph = ph
	s.N = 0
	s.Cur = ""
}

// Finished tells whether the outcome is already decided.
func (s *P) Finished() bool { return s.Ph == Done }

// Step reads a byte.
func (s *P) Step(b byte) {
	switch s.Ph {
	case Done:
		return
	case PriLt, PriFirst, Pri1, Pri19, PriTwo, PriOne, PriEnd0, PriEnd190, PriEnd191, PriEndTwo, PriEndOne:
		s.stepPri(b)
	case TsStart, TsMonth, TsStamp, TsStampEnd:
		s.stepStamp(b)
	case TsDate, TsZone, TsOff, TsDateEnd:
		s.stepDate(b)
	case HostFirst, Host:
		s.stepHost(b)
	case TextFirst, Tag, TagColon, TagSp, Text:
		s.stepText(b)
	default:
		s.stepContent(b)
	}
	if s.Ph != Done {
		s.Idx++
	}
}

func (s *P) badPri(text string) {
	s.HasPrio = false
	s.fail(text)
}

func (s *P) stepPri(b byte) {
	switch s.Ph {
	case PriLt:
		if b != '<' {
			s.badPri(EPri)
			return
		}
		s.start(PriFirst)
		return
	case PriFirst:
		switch {
		case b == '0':
			s.Ph = PriEnd0
		case b == '1':
			s.Ph = Pri1
		case b >= '2' && b <= '9':
			s.Ph = PriOne
		default:
			s.badPri(EPrival)
			return
		}
		s.Prio = int(b) - '0'
		return
	}
	if b == '>' {
		s.HasPrio = true
		s.start(TsStart)
		return
	}
	switch s.Ph {
	case Pri1:
		switch {
		case b == '9':
			s.Ph = Pri19
		case b >= '0' && b <= '8':
			s.Ph = PriTwo
		default:
			s.badPri(EPrival)
			return
		}
	case Pri19:
		switch b {
		case '0':
			s.Ph = PriEnd190
		case '1':
			s.Ph = PriEnd191
		default:
			s.badPri(EPrival)
			return
		}
	case PriTwo, PriOne:
		if !isDigit(b) {
			s.badPri(EPrival)
			return
		}
		if s.Ph == PriTwo {
			s.Ph = PriEndTwo
		} else {
			s.Ph = PriEndOne
		}
	default:
		s.badPri(EPrival)
		return
	}
	s.Prio = s.Prio*10 + int(b) - '0'
}

// month reads a letter of the name of a month.
func month(m int, b byte) int {
	switch m {
	case MA:
		switch b {
		case 'p':
			return MAp
		case 'u':
			return MAu
		}
	case MAp:
		if b == 'r' {
			return MDone
		}
	case MAu:
		if b == 'g' {
			return MDone
		}
	case MD:
		if b == 'e' {
			return MDe
		}
	case MDe:
		if b == 'c' {
			return MDone
		}
	case MF:
		if b == 'e' {
			return MFe
		}
	case MFe:
		if b == 'b' {
			return MDone
		}
	case MJ:
		switch b {
		case 'a':
			return MJa
		case 'u':
			return MJu
		}
	case MJa:
		if b == 'n' {
			return MDone
		}
	case MJu:
		if b == 'n' || b == 'l' {
			return MDone
		}
	case MM:
		if b == 'a' {
			return MMa
		}
	case MMa:
		if b == 'r' || b == 'y' {
			return MDone
		}
	case MN:
		if b == 'o' {
			return MNo
		}
	case MNo:
		if b == 'v' {
			return MDone
		}
	case MO:
		if b == 'c' {
			return MOc
		}
	case MOc:
		if b == 't' {
			return MDone
		}
	case MS:
		if b == 'e' {
			return MSe
		}
	case MSe:
		if b == 'p' {
			return MDone
		}
	}
	return MNone
}

// firstLetter reads the first letter of the name of a month.
func firstLetter(b byte) int {
	switch b {
	case 'A':
		return MA
	case 'D':
		return MD
	case 'F':
		return MF
	case 'J':
		return MJ
	case 'M':
		return MM
	case 'N':
		return MN
	case 'O':
		return MO
	case 'S':
		return MS
	}
	return MNone
}

// okStamp tells whether b can be at the n-th position of " _d hh:mm:ss" given
// the previous byte.
func okStamp(n int, prev, b byte) bool {
	switch n {
	case 0, 3:
		return b == ' '
	case 1:
		return b == ' ' || b >= '1' && b <= '3'
	case 2:
		if prev == ' ' {
			return b >= '1' && b <= '9'
		}
		if prev == '3' {
			return b == '0' || b == '1'
		}
		return isDigit(b)
	}
	return okTime(n-4, prev, b)
}

// okDate tells whether b can be at the n-th position of YYYY-MM-DDThh:mm:ss
// given the previous byte.
func okDate(n int, prev, b byte) bool {
	switch n {
	case 0, 1, 2, 3:
		return isDigit(b)
	case 4, 7:
		return b == '-'
	case 5: // month
		return b == '0' || b == '1'
	case 6:
		if prev == '0' {
			return b >= '1' && b <= '9'
		}
		return b >= '0' && b <= '2'
	case 8: // day
		return b >= '0' && b <= '3'
	case 9:
		if prev == '0' {
			return b >= '1' && b <= '9'
		}
		if prev == '3' {
			return b == '0' || b == '1'
		}
		return isDigit(b)
	case 10:
		return b == 'T'
	}
	return okTime(n-11, prev, b)
}

// okTime tells whether b can be at the n-th position of hh:mm:ss given the
// previous byte.
func okTime(n int, prev, b byte) bool {
	switch n {
	case 0:
		return b >= '0' && b <= '2'
	case 1:
		if prev == '2' {
			return b >= '0' && b <= '3'
		}
		return isDigit(b)
	case 2, 5:
		return b == ':'
	case 3, 6:
		return b >= '0' && b <= '5'
	}
	return isDigit(b)
}

func (s *P) prev() byte { return s.Cur[len(s.Cur)-1] }

func (s *P) stepStamp(b byte) {
	switch s.Ph {
	case TsStart:
		if s.RFC3339 && isDigit(b) {
			s.Ph = TsDate
			s.N = 1
			break
		}
		m := firstLetter(b)
		if m == MNone {
			s.fail(EStamp)
			return
		}
		s.Mon = m
		s.Ph = TsMonth
	case TsMonth:
		m := month(s.Mon, b)
		if m == MNone {
			s.fail(EStamp)
			return
		}
		s.Mon = m
		if m == MDone {
			s.Mon = 0
			s.Ph = TsStamp
			s.N = 0
		}
	case TsStamp:
		if !okStamp(s.N, s.prev(), b) {
			s.fail(EStamp)
			return
		}
		s.N++
		if s.N == 12 {
			s.Ph = TsStampEnd
			s.N = 0
		}
	case TsStampEnd:
		if b != ' ' {
			s.fail(EParse)
			return
		}
		if s.setStamp() {
			s.start(HostFirst)
		}
		return
	}
	s.Cur += string([]byte{b})
}

// setStamp computes the timestamp out of a complete Stamp date: in the locale
// timezone, moved to the year, converted to the timezone.
func (s *P) setStamp() bool {
	t, e := time.Parse(time.Stamp, s.Cur)
	if e != nil {
		s.How = 1
		s.fail(e.Error())
		return false
	}
	if s.Zone != nil {
		t, _ = time.ParseInLocation(time.Stamp, s.Cur, s.Zone)
	}
	t = t.AddDate(s.Year, 0, 0)
	if s.Loc != nil {
		t = t.In(s.Loc)
	}
	s.HasTs = true
	s.Ts = t
	return true
}

func (s *P) stepDate(b byte) {
	switch s.Ph {
	case TsDate:
		if !okDate(s.N, s.prev(), b) {
			s.fail(EParse)
			return
		}
		s.N++
		if s.N == 19 {
			s.Ph = TsZone
			s.N = 0
		}
	case TsZone:
		switch b {
		case 'Z':
			s.Ph = TsDateEnd
		case '+', '-':
			s.Ph = TsOff
		default:
			s.fail(ERFC3339)
			return
		}
	case TsOff:
		if !okTime(s.N, s.prev(), b) {
			s.fail(ERFC3339)
			return
		}
		s.N++
		if s.N == 5 {
			s.Ph = TsDateEnd
			s.N = 0
		}
	case TsDateEnd:
		if b != ' ' {
			s.fail(EParse)
			return
		}
		t, e := time.Parse(time.RFC3339, s.Cur)
		if e != nil {
			s.How = 1
			s.fail(e.Error())
			return
		}
		s.HasTs = true
		s.Ts = t
		s.start(HostFirst)
		return
	}
	s.Cur += string([]byte{b})
}

func (s *P) stepHost(b byte) {
	if b == ' ' && s.Ph == Host {
		s.Host = s.Cur
		s.start(TextFirst)
		return
	}
	if !isGraph(b) || s.N == 255 {
		s.fail(EHost)
		return
	}
	s.Ph = Host
	s.N++
	s.Cur += string([]byte{b})
}

// toText starts the text of the message.
func (s *P) toText(b byte) {
	s.start(Text)
	s.Raw = string([]byte{b})
}

// notTag goes on with a text which looked like a tag.
func (s *P) noTag(b byte) {
	s.start(Text)
	s.Raw += string([]byte{b})
}

func (s *P) stepText(b byte) {
	if isControl(b) {
		if s.Ph == TextFirst {
			s.fail(ETag)
		} else {
			s.fail(EParse)
		}
		return
	}
	switch s.Ph {
	case TextFirst:
		if isGraph(b) && b != ':' && b != '[' {
			s.start(Tag)
			s.N = 1
			s.Cur = string([]byte{b})
			s.Raw = s.Cur
		} else {
			s.toText(b)
		}
	case Tag:
		switch {
		case b == ':':
			s.Tag = s.Cur
			s.How = 1
			s.start(TagColon)
			s.Raw += string([]byte{b})
		case b == '[':
			s.Tag = s.Cur
			s.How = 1
			s.start(Content0)
			s.Raw += string([]byte{b})
		case isGraph(b) && s.N < 32:
			s.N++
			s.Cur += string([]byte{b})
			s.Raw += string([]byte{b})
		default:
			s.noTag(b)
		}
	case TagColon:
		if b == ' ' {
			s.Ph = TagSp
			s.Raw += string([]byte{b})
		} else {
			s.noTag(b)
		}
	case TagSp:
		s.How = 2
		s.toText(b)
	case Text:
		s.Raw += string([]byte{b})
	}
}

// stepContent reads what may be the content of a tag.
func (s *P) stepContent(b byte) {
	switch s.Ph {
	case ContentS, ContentXS:
		if isControl(b) {
			s.fail(EParse)
			return
		}
		s.How = 2
		s.toText(b)
		return
	}
	plain := s.Ph == Content0 || s.Ph == Content || s.Ph == ContentB || s.Ph == ContentC
	if isControl(b) {
		plain = false
	}
	switch {
	case b == ']':
		s.Content = s.Cur
		s.Ph = ContentXB
		if plain {
			s.Ph = ContentB
		}
	case b == ':' && (s.Ph == ContentB || s.Ph == ContentXB):
		s.Ph = ContentXC
		if plain {
			s.Ph = ContentC
		}
	case b == ' ' && (s.Ph == ContentC || s.Ph == ContentXC):
		s.Ph = ContentXS
		if plain {
			s.Ph = ContentS
		}
	default:
		s.Ph = ContentX
		if plain {
			s.Ph = Content
		}
	}
	s.Cur += string([]byte{b})
	s.Raw += string([]byte{b})
}

// Finish reads the end of the input.
func (s *P) Finish() {
	s.EOF = s.Ph != Done
	switch s.Ph {
	case Done:
	case PriLt:
		s.badPri(EPri)
	case PriFirst, Pri1, Pri19, PriTwo, PriOne, PriEnd0, PriEnd190, PriEnd191, PriEndTwo, PriEndOne:
		s.badPri(EPrival)
	case TsStart, TsMonth, TsStamp:
		s.fail(EStamp)
	case TsZone, TsOff:
		s.fail(ERFC3339)
	case TsStampEnd, TsDate, TsDateEnd:
		s.fail(EParse)
	case HostFirst, Host:
		s.fail(EHost)
	case TextFirst:
		s.fail(ETag)
	case ContentX, ContentXB, ContentXC, ContentXS:
		s.fail(EParse)
	default:
		s.Ok = true
		if s.How == 1 {
			// not a tag after all
			s.Tag = ""
			s.Content = ""
		}
		s.Text = s.Raw
		s.Ph = Done
	}
}

// Minimal tells whether a partial message can be reported.
func (s *P) Minimal() bool { return s.HasPrio }
