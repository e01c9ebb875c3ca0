// Command search looks for a concrete input that makes an assertion of a
// harness fail on the real code. It is used to turn a failed obligation into a
// failing input, to replay one, and to test the specifications themselves.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"verifspec/gv"
)

// Case is one concrete run of a harness.
type Case struct {
	Harness string   `json:"harness"`
	Bytess  [][]byte `json:"bytes,omitempty"`
	Strs    []string `json:"strings,omitempty"`
	Bools   []bool   `json:"bools,omitempty"`
	Ints    []int64  `json:"ints,omitempty"`
	Loops   int      `json:"loops,omitempty"`

	Failed   []string `json:"failed,omitempty"`
	Readable []string `json:"readable,omitempty"`
}

type harness struct {
	run func()
	gen func(x *explorer)
}

var harnesses = map[string]harness{}

// explorer runs cases until one fails.
type explorer struct {
	name     string
	run      func()
	want     func(id string) bool
	rnd      *rand.Rand
	deadline time.Time
	n        int
	seen     int
	part     int
	parts    int
	found    map[string]*Case
	all      bool
	thorough bool
}

type stop struct{}

func (x *explorer) try(c Case) {
	x.seen++
	if x.seen%x.parts != x.part {
		return
	}
	x.n++
	if x.n&255 == 0 && time.Now().After(x.deadline) {
		panic(stop{})
	}
	c.Harness = x.name
	fails, got := runCase(x.run, c)
	for _, id := range fails {
		if x.want(id) && x.found[id] == nil {
			cc := c
			cc.Failed = fails
			cc.Readable = got
			x.found[id] = &cc
			if !x.all {
				panic(stop{})
			}
		}
	}
}

// runCase runs a harness on concrete inputs and returns the failed assertions.
func runCase(run func(), c Case) (fails, got []string) {
	src := &gv.Source{Bytess: c.Bytess, Strs: c.Strs, Bools: c.Bools, Ints: c.Ints, Loops: c.Loops}
	gv.S = src
	gv.Failures = nil
	gv.Reset()
	done := make(chan struct{})
	work := func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(gv.Skip); ok {
					gv.Failures = nil
					return
				}
				gv.Failures = append(gv.Failures, fmt.Sprintf("panic: %v", r))
			}
		}()
		run()
	}
	go work()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return []string{"no termination"}, src.Got
	}
	return gv.Failures, src.Got
}

func main() {
	hn := flag.String("h", "", "harness")
	want := flag.String("want", "", "comma separated prefixes of assertion ids (default: all)")
	limit := flag.Duration("t", 20*time.Second, "time limit")
	all := flag.Bool("all", false, "do not stop at the first failure")
	replay := flag.String("replay", "", "replay a case")
	out := flag.String("o", "", "write the case found to this file")
	finding := flag.String("finding", "", "check whether a known finding still fails")
	seed := flag.Int64("seed", 1, "random seed")
	part := flag.Int("part", 0, "try every -parts-th case, starting from this one")
	parts := flag.Int("parts", 1, "number of explorers at work")
	flag.Parse()
	if *finding != "" {
		f := findings[*finding]
		if f == nil {
			fmt.Println("no finding", *finding)
			os.Exit(2)
		}
		if f() {
			os.Exit(1)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		h, ok := harnesses[c.Harness]
		if !ok {
			fmt.Println("no harness", c.Harness)
			os.Exit(2)
		}
		f, got := runCase(h.run, c)
		fmt.Println("harness:", c.Harness)
		fmt.Println("inputs:", strings.Join(got, " "))
		fmt.Println("failed:", f)
		if len(f) > 0 {
			os.Exit(1)
		}
		return
	}
	h, ok := harnesses[*hn]
	if !ok {
		fmt.Println("no harness", *hn)
		os.Exit(2)
	}
	prefixes := strings.Split(*want, ",")
	x := &explorer{name: *hn, run: h.run, rnd: rand.New(rand.NewSource(*seed)), deadline: time.Now().Add(*limit), found: map[string]*Case{}, all: *all, part: *part, parts: *parts}
	x.want = func(id string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(id, p) {
				return true
			}
		}
		return false
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		h.gen(x)
	}()
	fmt.Printf("%d cases\n", x.n)
	if len(x.found) == 0 {
		return
	}
	for id, c := range x.found {
		fmt.Printf("FAILED %s: %v\n", id, c.Readable)
		if *out != "" {
			b, _ := json.MarshalIndent(c, "", " ")
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Println(err)
			}
		}
	}
	os.Exit(1)
}
