// Command gover verifies harnesses.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/eng"
)

func main() {
	dir := flag.String("dir", "/verif/spec", "specification module")
	hn := flag.String("h", "", "harness")
	dump := flag.Int("dump", -1, "dump the invariants")
	zone := flag.Bool("zone", false, "dump the zones")
	limit := flag.Duration("t", 10*time.Minute, "time limit")
	stats := flag.Bool("stats", false, "statistics")
	keys := flag.String("keys", "", "print the keys of the cut points at a place")
	watch := flag.Int("watch", 0, "print the joins of a cut point")
	trace := flag.String("trace", "", "print the first cut point at a place")
	jsonOut := flag.String("json", "", "write the result to this file")
	fails := flag.Int("fails", 5, "failures to keep of each obligation")
	hist := flag.String("history", "", "PACKAGE:TYPE:METHOD - check that the method does not depend on the history of its receiver")
	globals := flag.Bool("globals", false, "check that nothing but initialization writes package-level state")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(6 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := eng.Load(*dir, "github.com/influxdata/go-syslog/v3", "verifspec", "./h", "./c")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	t0 = time.Now()
	e := eng.New(p)
	if *stats {
		e.Forks = map[string]int{}
	}
	e.DumpZone = *zone
	e.Trace = *trace
	e.Watch = *watch
	e.MaxFail = *fails
	if err := e.Init("verifspec/h"); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.Opaque["verifspec/s5424.RemoveAt"] = true
	e.Ctl = map[string]bool{"github.com/leodido/ragel-machinery/parser.cs": true}
	e.Unroll = strings.HasPrefix(*hn, "Options") // runs on given inputs
	e.Deepen(*hn == "Removed")
	if *hn != "Removed" { // which proves it
		e.Contracts["github.com/influxdata/go-syslog/v3/common.RemoveBytes"] = p.Func("verifspec/c", "RemoveBytes")
	}
	for name, c := range map[string]string{
		"bufio.NewReaderSize":            "NewReaderSize",
		"bufio.NewReader":                "NewReader",
		"(*bufio.Reader).ReadByte":       "Reader.ReadByte",
		"(*bufio.Reader).ReadBytes":      "Reader.ReadBytes",
		"(*bufio.Reader).UnreadByte":     "Reader.UnreadByte",
		"(*bufio.Reader).Peek":           "Reader.Peek",
		"(*bufio.Reader).Discard":        "Reader.Discard",
		"(*bytes.Buffer).Write":          "Buffer.Write",
		"(*bytes.Buffer).WriteByte":      "Buffer.WriteByte",
		"(*bytes.Buffer).WriteString":    "Buffer.WriteString",
		"(*bytes.Buffer).String":         "Buffer.String",
		"(*bytes.Buffer).Bytes":          "Buffer.Bytes",
		"(*bytes.Buffer).Len":            "Buffer.Len",
		"(*bytes.Buffer).Grow":           "Buffer.Grow",
		"(*bytes.Buffer).Reset":          "Buffer.Reset",
		"(*strings.Builder).Write":       "Builder.Write",
		"(*strings.Builder).WriteByte":   "Builder.WriteByte",
		"(*strings.Builder).WriteString": "Builder.WriteString",
		"(*strings.Builder).String":      "Builder.String",
		"(*strings.Builder).Len":         "Builder.Len",
		"(*strings.Builder).Grow":        "Builder.Grow",
		"(*strings.Builder).Reset":       "Builder.Reset",
		"fmt.Fprintf":                    "Fprintf",
		"io.WriteString":                 "WriteString",
		"strconv.ParseUint":              "ParseUint",
		"(*sync.Mutex).Lock":             "Lock",
		"(*sync.Mutex).Unlock":           "Unlock",
	} {
		e.Contracts[name] = p.Lookup("verifspec/c", c)
	}
	if strings.HasPrefix(*hn, "Text5424") {
		e.Contracts["github.com/influxdata/go-syslog/v3/common.EscapeBytes"] = p.Func("verifspec/c", "EscapeBytes")
	}
	machine := "(*github.com/influxdata/go-syslog/v3/rfc5424.machine).Parse"
	switch {
	case strings.HasPrefix(*hn, "Octet"), strings.HasPrefix(*hn, "Trailer"):
		e.Contracts[machine] = p.Lookup("verifspec/c", "Parse")
	case *hn == "Parser5424":
		e.Contracts[machine] = p.Lookup("verifspec/c", "LockedParse")
	case *hn == "Parser3164":
		e.Contracts[strings.Replace(machine, "5424", "3164", 1)] = p.Lookup("verifspec/c", "LockedParse3164")
	}
	fn := p.Func("verifspec/h", *hn)
	if fn == nil {
		fmt.Println("no harness", *hn)
		os.Exit(2)
	}
	if *globals {
		for g, bad := range p.Globals("github.com/influxdata/go-syslog/v3") {
			o := &eng.Obligation{ID: "C24.global " + g, N: 1, Simpl: 1}
			if len(bad) > 0 {
				o.Simpl = 0
			}
			for _, b := range bad {
				o.Failures = append(o.Failures, eng.Failure{ID: o.ID, Where: b})
			}
			e.Obl[o.ID] = o
		}
	}
	e.Prove(fn, time.Now().Add(*limit))
	fmt.Printf("%d cuts, %d paths, %d steps in %.1fs\n", e.Cuts(), e.Paths, e.Steps, time.Since(t0).Seconds())
	if *stats {
		e.Stats()
		e.Worst()
		e.PrintForks()
	}
	if *keys != "" {
		e.Keys(*keys)
	}
	for _, u := range e.Unsup {
		fmt.Println("UNSUPPORTED", u)
	}
	var ids []string
	for id := range e.Obl {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		o := e.Obl[id]
		fmt.Printf("%-30s n=%d simpl=%d smt=%d failed=%d\n", id, o.N, o.Simpl, o.SMT, o.N-o.Simpl-o.SMT)
		for i, f := range o.Failures {
			if i > 1 && *fails == 5 || f.Where == "" {
				break
			}
			fmt.Printf("   at %s\n   from %s\n   goal %s\n   path %s\n", f.Where, f.Cut, f.Goal, f.Trail)
		}
	}
	var history []string
	if *hist != "" {
		history = checkHistory(p, *hist)
		fmt.Println("history:", history)
	}
	if *jsonOut != "" {
		if err := writeJSON(*jsonOut, *hn, e, history, time.Since(t0).Seconds()); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	if *dump >= 0 {
		e.Dump(*dump)
	}
}

type obligation struct {
	N, Simpl, SMT int
	Failures      []eng.Failure
}

func checkHistory(p *eng.Prog, what string) []string {
	f := strings.Split(what, ":")
	pk := p.Pkgs[f[0]]
	if pk == nil {
		return []string{"no package " + f[0]}
	}
	tn, ok := pk.Members[f[1]].(*ssa.Type)
	if !ok {
		return []string{"no type " + what}
	}
	fn := p.SSA.LookupMethod(types.NewPointer(tn.Type()), pk.Pkg, f[2])
	if fn == nil {
		return []string{"no method " + what}
	}
	return eng.NewHistory(p, "github.com/influxdata/go-syslog/v3").Check(fn)
}

// writeJSON writes the result for the driver.
func writeJSON(file, harness string, e *eng.Eng, history []string, secs float64) error {
	keys := func(m map[string]bool) []string {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	r := struct {
		Harness      string
		Unsupported  []string
		Functions    []string
		Assumed      []string
		Contracts    []string
		Cuts         int
		Paths, Steps int64
		Seconds      float64
		History      []string
		Obligations  map[string]obligation
	}{History: history, Harness: harness, Unsupported: e.Unsup, Functions: keys(e.Funcs), Assumed: keys(e.Assumed), Contracts: keys(e.Used),
		Cuts: e.Cuts(), Paths: e.Paths, Steps: e.Steps, Seconds: secs, Obligations: map[string]obligation{}}
	for id, o := range e.Obl {
		x := obligation{N: o.N, Simpl: o.Simpl, SMT: o.SMT}
		for _, f := range o.Failures {
			if f.Where != "" && len(x.Failures) < 5 {
				x.Failures = append(x.Failures, f)
			}
		}
		r.Obligations[id] = x
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}
