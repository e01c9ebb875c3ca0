// Package gv is the specification vocabulary of the proof harnesses. The
// verifier gives every function here a logical meaning; compiled, they replay
// a harness on concrete inputs.
package gv

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Stepper is a specification transducer.
type Stepper interface {
	Step(b byte)
	Finish()
	Finished() bool
}

// Source gives the concrete inputs of a replay.
type Source struct {
	Bytess [][]byte
	Strs   []string
	Bools  []bool
	Ints   []int64
	Loops  int
	Got    []string // what was given, for the report
}

// S is the source of the replay in progress.
var S *Source

// Failures collects the failed assertions of the replay.
var Failures []string

// Skip is raised by an assumption which does not hold.
type Skip struct{}

// Loop is true an unknown number of times.
func Loop() bool {
	if S.Loops == 0 {
		return false
	}
	S.Loops--
	return true
}

// Bytes is any byte slice, owned by the caller.
func Bytes(name string) []byte {
	var b []byte
	if len(S.Bytess) > 0 {
		b, S.Bytess = S.Bytess[0], S.Bytess[1:]
	}
	S.Got = append(S.Got, fmt.Sprintf("%s=%q", name, b))
	c := append([]byte{}, b...)
	given = append(given, string(b))
	bufs = append(bufs, c)
	return c
}

var given []string
var bufs [][]byte

// Unchanged tells whether an input still has its first content.
func Unchanged(in []byte) bool {
	for i, b := range bufs {
		if len(b) == len(in) && (len(b) == 0 || &b[0] == &in[0]) && given[i] != string(in) {
			return false
		}
	}
	return true
}

// Str is any string.
func Str(name string) string {
	s := ""
	if len(S.Strs) > 0 {
		s, S.Strs = S.Strs[0], S.Strs[1:]
	}
	S.Got = append(S.Got, fmt.Sprintf("%s=%q", name, s))
	return s
}

// Bool is any boolean.
func Bool(name string) bool {
	b := false
	if len(S.Bools) > 0 {
		b, S.Bools = S.Bools[0], S.Bools[1:]
	}
	S.Got = append(S.Got, fmt.Sprintf("%s=%v", name, b))
	return b
}

// Int is any integer between lo and hi.
func Int(name string, lo, hi int) int {
	n := int64(lo)
	if len(S.Ints) > 0 {
		n, S.Ints = S.Ints[0], S.Ints[1:]
	}
	S.Got = append(S.Got, fmt.Sprintf("%s=%d", name, n))
	if int(n) < lo || int(n) > hi {
		panic(Skip{})
	}
	return int(n)
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Assert states an obligation; id is PROPERTY.name.
func Assert(id string, b bool) {
	if !b {
		Failures = append(Failures, id)
	}
}

// Requires states the precondition of a contract: an obligation of the caller.
func Requires(id string, b bool) { Assert(id, b) }

// IncIn tells whether pos is strictly increasing, between lo and hi.
func IncIn(pos []int, lo, hi int) bool {
	for _, x := range pos {
		if x < lo || x >= hi {
			return false
		}
		lo = x + 1
	}
	return true
}

// Ghost attaches a transducer to an input: the verifier steps it when the code
// under proof reads the next byte.
func Ghost(in []byte, s Stepper) {}

// GhostStr is Ghost for strings.
func GhostStr(in string, s Stepper) {}

// GhostMore tells whether the transducer has bytes to read.
func GhostMore(in []byte, s Stepper) bool { return pos[s] < len(in) }

// GhostMoreStr is GhostMore for strings.
func GhostMoreStr(in string, s Stepper) bool { return pos[s] < len(in) }

// IntStepper is a transducer over integers.
type IntStepper interface {
	Step(x int)
	Finish()
}

// Ints is any slice of integers, owned by the caller.
func Ints(name string) []int {
	n := int64(0)
	if len(S.Ints) > 0 {
		n, S.Ints = S.Ints[0], S.Ints[1:]
	}
	var v []int
	for ; n > 0; n-- {
		x := 0
		if len(S.Ints) > 0 {
			x, S.Ints = int(S.Ints[0]), S.Ints[1:]
		}
		v = append(v, x)
	}
	S.Got = append(S.Got, fmt.Sprintf("%s=%v", name, v))
	return v
}

// GhostInts is Ghost for integers.
func GhostInts(in []int, s IntStepper) {}

// GhostMoreInts is GhostMore for integers.
func GhostMoreInts(in []int, s IntStepper) bool { return posI[s] < len(in) }

// GhostStepInts is GhostStep for integers.
func GhostStepInts(in []int, s IntStepper) {
	x := in[posI[s]]
	posI[s]++
	s.Step(x)
}

// GhostEndInts is GhostEnd for integers.
func GhostEndInts(in []int, s IntStepper) {
	for GhostMoreInts(in, s) {
		GhostStepInts(in, s)
	}
	s.Finish()
}

// StrStepper is a transducer over strings.
type StrStepper interface {
	Step(x string)
	Finish()
}

// Sorted gives the keys of a map in order.
func Sorted(m map[string]string) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// SortedElements gives the ids of structured data in order.
func SortedElements(m map[string]map[string]string) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// GhostStrs is Ghost for strings.
func GhostStrs(in []string, s StrStepper) {}

// GhostMoreStrs is GhostMore for strings.
func GhostMoreStrs(in []string, s StrStepper) bool { return posS[s] < len(in) }

// GhostStepStrs is GhostStep for strings.
func GhostStepStrs(in []string, s StrStepper) {
	x := in[posS[s]]
	posS[s]++
	s.Step(x)
}

// GhostEndStrs is GhostEnd for strings.
func GhostEndStrs(in []string, s StrStepper) {
	for GhostMoreStrs(in, s) {
		GhostStepStrs(in, s)
	}
	s.Finish()
}

// GhostOffStrs is GhostOff for strings.
func GhostOffStrs(in []string) {}

var posS = map[StrStepper]int{}

var posI = map[IntStepper]int{}

var pos = map[Stepper]int{}

// Reset forgets the transducers.
func Reset() {
	posI = map[IntStepper]int{}
	posS = map[StrStepper]int{}
	pos = map[Stepper]int{}
	given, bufs, earlier = nil, nil, nil
}

// GhostStep makes the transducer read its next byte.
func GhostStep(in []byte, s Stepper) {
	b := in[pos[s]]
	pos[s]++
	s.Step(b)
}

// GhostStepStr is GhostStep for strings.
func GhostStepStr(in string, s Stepper) {
	b := in[pos[s]]
	pos[s]++
	s.Step(b)
}

// GhostEnd lets the transducer read whatever is left.
func GhostEnd(in []byte, s Stepper) {
	if a, ok := s.(Absorber); ok && a.Absorbing() {
		a.Absorb(GhostRest(in, s))
	}
	if s.Finished() {
		s.Finish()
		return
	}
	for GhostMore(in, s) {
		GhostStep(in, s)
		if s.Finished() {
			break
		}
	}
	s.Finish()
}

// GhostEndStr is GhostEnd for strings.
func GhostEndStr(in string, s Stepper) {
	if a, ok := s.(Absorber); ok && a.Absorbing() {
		a.Absorb(GhostRestStr(in, s))
	}
	if s.Finished() {
		s.Finish()
		return
	}
	for GhostMoreStr(in, s) {
		GhostStepStr(in, s)
		if s.Finished() {
			break
		}
	}
	s.Finish()
}

// Same tells whether two values are deeply equal, errors by their text.
func Same(a, b interface{}) bool {
	ea, oka := a.(error)
	eb, okb := b.(error)
	if oka && okb {
		return ea.Error() == eb.Error()
	}
	return reflect.DeepEqual(a, b)
}

// Mark starts a new allocation epoch.
func Mark() {}

// Fresh tells whether everything reachable from v was allocated since Mark,
// and is not reachable from anything else than v.
func Fresh(v interface{}, others ...interface{}) bool {
	mine := map[uintptr]uintptr{}
	spans(reflect.ValueOf(v), mine, map[uintptr]bool{}, true)
	theirs := map[uintptr]uintptr{}
	seen := map[uintptr]bool{}
	for _, o := range others {
		spans(reflect.ValueOf(o), theirs, seen, false)
	}
	for _, o := range earlier {
		spans(reflect.ValueOf(o), theirs, seen, false)
	}
	for _, b := range bufs {
		spans(reflect.ValueOf(b), theirs, seen, false)
	}
	earlier = append(earlier, v)
	for a, e := range mine {
		for b, f := range theirs {
			if a < f && b < e {
				return false
			}
		}
	}
	return true
}

var earlier []interface{}

// spans collects the memory reachable from a value, and that of its strings
// if asked for.
func spans(v reflect.Value, m map[uintptr]uintptr, seen map[uintptr]bool, strs bool) {
	add := func(p, n uintptr) {
		if n > 0 && m[p] < p+n {
			m[p] = p + n
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf((*time.Location)(nil)) || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		add(v.Pointer(), v.Type().Elem().Size())
		spans(v.Elem(), m, seen, strs)
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		add(v.Pointer(), 8)
		for _, k := range v.MapKeys() {
			spans(k, m, seen, strs)
			spans(v.MapIndex(k), m, seen, strs)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			spans(v.Index(i), m, seen, strs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spans(v.Field(i), m, seen, strs)
		}
	case reflect.Interface:
		if !v.IsNil() {
			spans(v.Elem(), m, seen, strs)
		}
	case reflect.String:
		if s := v.String(); strs && s != "" {
			add(uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)))
		}
	}
}

// Native tells whether the harness is being run, not proved.
func Native() bool { return true }

// GhostOff detaches the transducer of an input.
func GhostOff(in []byte) {}

// Absorber is a transducer which can read the rest of its input at once in
// some of its states.
type Absorber interface {
	Stepper
	Absorbing() bool
	Absorb(rest string)
}

// GhostRest is what the transducer did not read yet; it is read now.
func GhostRest(in []byte, s Stepper) string { return GhostRestStr(string(in), s) }

// GhostRestStr is GhostRest for strings.
func GhostRestStr(in string, s Stepper) string {
	p := pos[s]
	pos[s] = len(in)
	return in[p:]
}

// Location is any timezone, or nil.
func Location(name string) *time.Location {
	n := 0
	if len(S.Ints) > 0 {
		n, S.Ints = int(S.Ints[0]), S.Ints[1:]
	}
	l := Zones[((n%len(Zones))+len(Zones))%len(Zones)]
	if l != nil {
		S.Got = append(S.Got, fmt.Sprintf("%s=%s", name, l))
	}
	return l
}

// Zones are the timezones of the replays.
var Zones = []*time.Location{nil, time.FixedZone("E", 3*3600+1800), time.FixedZone("W", -11*3600), time.UTC, nyc()}

func nyc() *time.Location {
	if l, err := time.LoadLocation("America/New_York"); err == nil {
		return l
	}
	return time.FixedZone("N", -5*3600)
}

// MaybeStr is nil or any string.
func MaybeStr(name string) *string {
	s := Str(name)
	if s == "<nil>" {
		return nil
	}
	return &s
}

// MaybeU8 is nil or any byte.
func MaybeU8(name string) *uint8 {
	n := Int(name, -1, 255)
	if n < 0 {
		return nil
	}
	u := uint8(n)
	return &u
}

// MaybeTime is nil or any time.
func MaybeTime(name string) *time.Time {
	n := Int(name, -1, 1<<40)
	if n < 0 {
		return nil
	}
	t := time.Unix(int64(n>>10), int64(n&1023)*1000).In(Zones[1+n%4])
	return &t
}

// MaybeSD is nil or any structured data. The text form of a replay lists its
// elements, each followed by the names and values of its parameters: lines
// starting with '[', '=' and '"'.
func MaybeSD(name string) *map[string]map[string]string {
	s := Str(name)
	if s == "<nil>" {
		return nil
	}
	m := map[string]map[string]string{}
	id, n := "", ""
	for _, l := range strings.Split(s, "\x00") {
		switch {
		case l == "":
		case l[0] == '[':
			id = l[1:]
			m[id] = map[string]string{}
		case l[0] == '=' && m[id] != nil:
			n = l[1:]
			m[id][n] = ""
		case l[0] == '"' && m[id] != nil:
			m[id][n] = l[1:]
		}
	}
	return &m
}

// Clone is a deep copy of a message.
func Clone(v interface{}) interface{} { return clone(reflect.ValueOf(v)).Interface() }

func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem() == reflect.TypeOf(time.Location{}) {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(clone(v.Elem()))
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(clone(v.Field(i)))
		}
		return n
	case reflect.String:
		return reflect.ValueOf(strings.Clone(v.String())).Convert(v.Type())
	}
	return v
}

// UFInt, UFBool and UFStr are unknown functions of their arguments, for the
// contracts of what is not executed.
func UFInt(name string, args ...interface{}) int { panic("only in a proof") }

// UFBool is an unknown predicate.
func UFBool(name string, args ...interface{}) bool { panic("only in a proof") }

// UFStr is an unknown function.
func UFStr(name string, args ...interface{}) string { panic("only in a proof") }

// Havoc gives any content to a slice.
func Havoc(b []byte) {}

// GhostSkip makes the transducer of an input go on n bytes further.
func GhostSkip(in []byte, s Stepper, n int) { pos[s] += n }

// Wanted tells whether the caller of a contract uses its result i.
func Wanted(i int) bool { return true }

// Proof tells whether this is a proof, not a run.
func Proof() bool { return false }

// AssumeAbsent assumes that no byte of in[lo:hi] is b.
func AssumeAbsent(in []byte, lo, hi int, b byte) { panic("only in a proof") }

// Known tells whether the bytes are given in the harness.
func Known(in []byte) bool { panic("only in a proof") }
