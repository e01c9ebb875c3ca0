package eng

import (
	"fmt"
	"os"
	"sort"
)

// Termination: every cycle of the graph of the cut points has a ranking. A
// ranking is a list of integers of the state, each of which moves in one
// direction only along all the edges which are left, and is bounded where it
// moves; the edges along which it moves are removed, until no cycle is left.
// The loops of the harness itself are not counted.

type edge struct {
	from, to int // numbers of cut points
	delta    map[string][2]int64
	src      map[string][2]int64 // bounds of the values at the source
	place    string
}

func (e *Eng) recordEdge(s *State, c *Cut, slots []*Term, names []string) {
	if s.from == nil || s.looped {
		return
	}
	ed := &edge{from: s.from.n, to: c.n, delta: map[string][2]int64{}, src: map[string][2]int64{}}
	at := map[string]*Term{}
	for i, n := range names {
		if slots[i].srt == SInt {
			at[n] = slots[i]
		}
	}
	for i, n := range s.from.names {
		x := s.from.slots[i]
		y := at[n]
		if x.srt != SInt || y == nil {
			continue
		}
		lo, hi := s.f.Bounds(e.t.SubI(y, x))
		ed.delta[n] = [2]int64{lo, hi}
		lo, hi = s.f.Bounds(x)
		ed.src[n] = [2]int64{lo, hi}
	}
	ed.place = c.desc
	e.edges = append(e.edges, ed)
}

// terminates ranks the cycles.
func (e *Eng) terminates() {
	o := &Obligation{ID: "termination"}
	e.rank(e.edges, o, 0)
	if o.N > 0 {
		e.Obl["termination"] = o
	}
}

func (e *Eng) rank(es []*edge, o *Obligation, depth int) {
	for _, comp := range components(es) {
		if depth == 0 {
			o.N++
		}
		names := map[string]int{}
		for _, d := range comp {
			for n := range d.delta {
				names[n]++
			}
		}
		var cand []string
		for n, k := range names {
			if k == len(comp) {
				cand = append(cand, n)
			}
		}
		sort.Strings(cand)
		best, left := "", comp
		for _, n := range cand {
			for _, up := range []bool{true, false} {
				if rest, ok := moves(comp, n, up); ok && len(rest) < len(left) {
					best, left = n, rest
				}
			}
		}
		if best == "" {
			for _, n := range cand {
				if overall(comp, n, true) || overall(comp, n, false) {
					best, left = n, nil
				}
			}
		}
		if best == "" {
			fail := Failure{Where: comp[0].place, Goal: fmt.Sprintf("a cycle of %d steps ends", len(comp))}
			o.N++ // one more than what was shown
			if os.Getenv("GOVER_RANK") != "" {
				for _, d := range comp {
					fmt.Println("EDGE", d.from, d.to, d.place[:40])
					for n, x := range d.delta {
						fmt.Println("    ", n, x, d.src[n])
					}
				}
			}
			if len(o.Failures) < 5 {
				o.Failures = append(o.Failures, fail)
			}
			continue
		}
		before := len(o.Failures)
		e.rank(left, o, depth+1)
		if depth == 0 && len(o.Failures) == before {
			o.Simpl++
		}
	}
}

// moves tells whether an integer moves in one direction along all the edges,
// and returns those along which it may not move.
func moves(es []*edge, n string, up bool) (rest []*edge, ok bool) {
	for _, d := range es {
		x, b := d.delta[n], d.src[n]
		if up {
			if x[0] < 0 {
				return nil, false
			}
			if x[0] >= 1 && b[1] < inf {
				continue
			}
		} else {
			if x[1] > 0 {
				return nil, false
			}
			if x[1] <= -1 && b[0] > -inf {
				continue
			}
		}
		rest = append(rest, d)
	}
	return rest, true
}

// overall tells whether an integer moves in one direction along every cycle:
// it does with a constant added at each cut point, the distances of a graph.
func overall(es []*edge, n string, up bool) bool {
	const big = 1 << 30
	k := int64(len(es) + 1)
	dist := map[int]int64{}
	w := make([]int64, len(es))
	for i, d := range es {
		x, b := d.delta[n], d.src[n]
		w[i] = x[0]
		if !up {
			w[i] = -x[1]
		}
		if w[i] < -big || up && b[1] >= inf || !up && b[0] <= -inf {
			return false
		}
		w[i] = min(w[i], big)*k - 1
		dist[d.from], dist[d.to] = 0, 0
	}
	for i := 0; i <= len(dist); i++ {
		ch := false
		for j, d := range es {
			if l := dist[d.from] + w[j]; l < dist[d.to] {
				dist[d.to] = l
				ch = true
			}
		}
		if !ch {
			return true
		}
	}
	return false // a cycle along which it need not move
}

// components returns the edges of each strongly connected component.
func components(es []*edge) [][]*edge {
	out := map[int][]*edge{}
	nodes := map[int]bool{}
	for _, d := range es {
		out[d.from] = append(out[d.from], d)
		nodes[d.from], nodes[d.to] = true, true
	}
	var ns []int
	for n := range nodes {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	index, low, on := map[int]int{}, map[int]int{}, map[int]bool{}
	comp := map[int]int{}
	var st []int
	next, ncomp := 1, 0
	type frame struct{ n, k int }
	for _, r := range ns {
		if index[r] != 0 {
			continue
		}
		work := []frame{{r, 0}}
		for len(work) > 0 {
			f := &work[len(work)-1]
			if f.k == 0 {
				index[f.n], low[f.n] = next, next
				next++
				st = append(st, f.n)
				on[f.n] = true
			}
			if f.k < len(out[f.n]) {
				m := out[f.n][f.k].to
				f.k++
				if index[m] == 0 {
					work = append(work, frame{m, 0})
				} else if on[m] {
					low[f.n] = min(low[f.n], index[m])
				}
				continue
			}
			n := f.n
			work = work[:len(work)-1]
			if len(work) > 0 {
				p := work[len(work)-1].n
				low[p] = min(low[p], low[n])
			}
			if low[n] == index[n] {
				ncomp++
				for {
					m := st[len(st)-1]
					st = st[:len(st)-1]
					on[m] = false
					comp[m] = ncomp
					if m == n {
						break
					}
				}
			}
		}
	}
	by := map[int][]*edge{}
	for _, d := range es {
		if comp[d.from] == comp[d.to] {
			by[comp[d.from]] = append(by[comp[d.from]], d)
		}
	}
	var ks []int
	for k := range by {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var r [][]*edge
	for _, k := range ks {
		r = append(r, by[k])
	}
	return r
}
