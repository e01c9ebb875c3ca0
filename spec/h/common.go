package h

import (
	"verifspec/gv"
	"verifspec/s5424"

	"github.com/influxdata/go-syslog/v3/common"
)

// Removed is the contract of RemoveBytes (C50): c.RemoveBytes, which its callers
// are proved against, says the same of its result.
func Removed() {
	data := gv.Bytes("data")
	pos := gv.Ints("positions")
	off := gv.Int("offset", -1<<48, 1<<48)
	r := &s5424.Remover{Raw: string(data), Off: off, Now: string(data)}
	gv.GhostInts(pos, r)
	got := common.RemoveBytes(data, pos, off)
	gv.GhostEndInts(pos, r)
	gv.Assert("C50.RemoveBytes", string(got) == r.Out)
	gv.Assert("C50.RemoveBytes.len", len(got) == len(data)-len(pos))
	gv.Assert("C50.RemoveBytes.input", gv.Unchanged(data))
	gv.Assert("C50.RemoveBytes.fresh", gv.Fresh(got, data))
}

// escaper escapes a value.
type escaper struct {
	In  string
	I   int
	Out string
}

// Step reads a byte.
func (e *escaper) Step(b byte) {
	if b == '\\' || b == ']' || b == '"' {
		e.Out += `\`
	}
	e.Out += e.In[e.I : e.I+1]
	e.I++
}

func (e *escaper) Finish() {}

func (e *escaper) Finished() bool { return false }

// Escaped is the contract of EscapeBytes (C50).
func Escaped() {
	v := gv.Str("value")
	e := &escaper{In: v}
	gv.GhostStr(v, e)
	got := common.EscapeBytes(v)
	gv.GhostEndStr(v, e)
	gv.Assert("C50.EscapeBytes", got == e.Out)
}

// Decimal is the contract of UnsafeUTF8DecimalCodePointsToInt (C50), for up to
// 17 digits.
func Decimal() {
	in := gv.Bytes("digits")
	switch len(in) {
	case 0:
		decimal(in, 0)
	case 1:
		decimal(in, 1)
	case 2:
		decimal(in, 2)
	case 3:
		decimal(in, 3)
	case 4:
		decimal(in, 4)
	case 5:
		decimal(in, 5)
	case 6:
		decimal(in, 6)
	case 7:
		decimal(in, 7)
	case 8:
		decimal(in, 8)
	case 9:
		decimal(in, 9)
	case 10:
		decimal(in, 10)
	case 11:
		decimal(in, 11)
	case 12:
		decimal(in, 12)
	case 13:
		decimal(in, 13)
	case 14:
		decimal(in, 14)
	case 15:
		decimal(in, 15)
	case 16:
		decimal(in, 16)
	case 17:
		decimal(in, 17)
	}
}

func decimal(in []byte, k int) {
	want := 0
	for i := 0; i < k; i++ {
		gv.Assume(in[i] >= '0')
		gv.Assume(in[i] <= '9')
		want = want*10 + int(in[i]-'0')
	}
	gv.Assert("C50.decimal", common.UnsafeUTF8DecimalCodePointsToInt(in) == want)
	gv.Assert("C50.decimal.input", gv.Unchanged(in))
}
