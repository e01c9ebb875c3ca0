package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifspec/gv"
)

// ctlKey is the control state of a specification transducer.
func ctlKey(s gv.Stepper) string {
	v := reflect.ValueOf(s).Elem()
	var sb strings.Builder
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("gv") == "ctl" {
			fmt.Fprint(&sb, v.Field(i).Interface(), ",")
		}
	}
	if f := v.FieldByName("N"); f.IsValid() {
		fmt.Fprint(&sb, f.Int())
	}
	return sb.String()
}

// boring tells whether a control state is in the middle of a long field.
func boring(s gv.Stepper) bool {
	f := reflect.ValueOf(s).Elem().FieldByName("N")
	if !f.IsValid() {
		return false
	}
	n := f.Int()
	for _, l := range []int64{32, 48, 128, 255} {
		if n >= l-1 && n <= l+1 {
			return false
		}
	}
	return n > 20
}

// node is a control state with an input that reaches it.
type node struct {
	prefix []byte
	key    string
	tail   []byte // completes the input
	boring bool
	hasEnd bool
	next   map[byte]string
}

// states explores the control states of a transducer.
func states(mk func() gv.Stepper, seed int) map[string]*node {
	nodes := map[string]*node{}
	var order []*node
	run := func(in []byte) gv.Stepper {
		s := mk()
		for _, b := range in {
			if s.Finished() {
				break
			}
			s.Step(b)
		}
		return s
	}
	add := func(in []byte) string {
		s := run(in)
		if s.Finished() {
			return ""
		}
		k := ctlKey(s)
		if nodes[k] == nil {
			n := &node{prefix: in, key: k, next: map[byte]string{}, boring: boring(s)}
			nodes[k] = n
			order = append(order, n)
			s.Finish()
			if okOf(s) {
				n.hasEnd = true
				n.tail = []byte{}
			}
		}
		return k
	}
	add(nil)
	for i := 0; i < len(order); i++ {
		n := order[i]
		for c := 0; c < 256; c++ {
			b := byte(c*(2*seed+1) + 97*seed + 48)
			in := append(append([]byte{}, n.prefix...), b)
			if k := add(in); k != "" {
				n.next[b] = k
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(order) - 1; i >= 0; i-- {
			n := order[i]
			for c := 0; c < 256; c++ {
				b := byte(c + 48)
				if k, ok := n.next[b]; ok {
					m := nodes[k]
					if m.hasEnd && (!n.hasEnd || len(m.tail)+1 < len(n.tail)) {
						n.hasEnd = true
						n.tail = append([]byte{b}, m.tail...)
						ch = true
					}
				}
			}
		}
	}
	return nodes
}

func okOf(s gv.Stepper) bool {
	return reflect.ValueOf(s).Elem().FieldByName("Ok").Bool()
}

func cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// walkBytes tries every byte and the end of input in every control state.
func walkBytes(ns map[string]*node, try func(in []byte)) {
	var list []*node
	for _, n := range ns {
		list = append(list, n)
	}
	// shortest first
	for i := range list {
		for j := i; j > 0 && (len(list[j].prefix) < len(list[j-1].prefix) || len(list[j].prefix) == len(list[j-1].prefix) && string(list[j].prefix) < string(list[j-1].prefix)); j-- {
			list[j], list[j-1] = list[j-1], list[j]
		}
	}
	for _, n := range list {
		try(n.prefix)
		try(cat(n.prefix, n.tail))
	}
	for _, n := range list {
		if n.boring {
			continue
		}
		for c := 0; c < 256; c++ {
			in := cat(n.prefix, []byte{byte(c)})
			try(in)
			if n.hasEnd {
				try(cat(in, n.tail))
			}
			if k, ok := n.next[byte(c)]; ok && ns[k].hasEnd {
				try(cat(in, ns[k].tail))
			}
		}
	}
}
