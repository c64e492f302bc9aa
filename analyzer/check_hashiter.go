package main

// M05: iterating a hash table.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M05", "shape analysis of an iteration from its first step to its last, over a table of any number of slots and chains of any length", checkHashIter)
}

// istate is a state between two calls of the iterator
type istate struct {
	st   *sst
	ends bool // it has said that there is nothing more
}

func checkHashIter(c *Check) {
	const name = "collection.HashIterator"
	c.guard("decided", name, func() {
		h := newHashInfo(c)
		mk := c.need("collection.Hash.Iterator")
		fns := map[string]*ssa.Function{}
		for _, m := range []string{"Next", "HasNext", "Peek"} {
			fns[m] = c.need(name + "." + m)
			if fns[m] == nil {
				return
			}
		}
		if mk == nil {
			return
		}
		x, n := h.shape()
		st := newSst()
		obj, arr, _ := h.object(x, st, n)
		a := st.heap[arr]
		a.curSet, a.rest = true, st.id()
		st.ghost = []sitem{segItem(a.rest)}
		add := func(rule, m, bad string) {
			c.oblige(rule, name+"."+m, bad == "", func() string { return bad })
		}
		seen := map[string]bool{}
		var work []istate
		push := func(o *sst, ends bool) {
			o.ret = nil
			x.widen, x.before = len(seen) > 20, map[string]sInt{}
			x.fold(o, nil, nil)
			x.widen = false
			if o.dead {
				return
			}
			k := fmt.Sprint(ends) + x.canon(o)
			if !seen[k] {
				seen[k] = true
				work = append(work, istate{o, ends})
			}
			if len(seen) > 400 {
				panic(undecided{"no invariant found for the iteration"})
			}
		}
		x.start(st, mk, sPtr{obj, ""})
		var it sPtr
		for _, o := range x.run(st) {
			if o.panicV != "" {
				c.fail("no-crash", fname(mk), "%s", o.panicV)
				continue
			}
			i, ok := o.ret[0].(sIface)
			if ok {
				it, ok = i.v.(sPtr)
			}
			if !ok {
				panic(undecided{"Iterator does not return an iterator"})
			}
			o.roots = append(append([]int(nil), o.roots...), it.obj)
			push(o, false)
		}
		call := func(s *sst, m string) []*sst {
			s = s.clone()
			s.visits = map[string]int{}
			x.start(s, fns[m], it)
			var outs []*sst
			for _, o := range x.run(s) {
				if o.panicV != "" {
					add("no-crash", m, o.panicV)
					continue
				}
				add("no-crash", m, "")
				bad := ""
				for _, nd := range o.heap {
					if nd.node != nil && !nd.pristine && !nd.alloc || nd.isArr && !nd.pristine {
						bad = "iterating modifies the table"
					}
				}
				if o.heap[obj].cells[h.array] != sv(sArr{arr}) || bad != "" {
					add("unchanged", m, "iterating modifies the table")
				} else {
					add("unchanged", m, "")
				}
				o.marks = map[string]*smark{}
				outs = append(outs, o)
			}
			return outs
		}
		entry := func(o *sst) (sitem, bool) { // the entry a call returned
			v := o.ret[0]
			if i, ok := v.(sIface); ok {
				v = i.v
			}
			p, ok := v.(sPtr)
			if !ok || o.heap[p.obj] == nil || o.heap[p.obj].node != n {
				return sitem{}, false
			}
			ob := o.heap[p.obj]
			return sitem{kind: 'e', k: o.cell(ob, n.key), v: o.cell(ob, n.val)}, true
		}
		isNil := func(o *sst) bool { _, ok := o.ret[0].(sNil); return ok }
		all := func(o *sst) string {
			if was, got := o.flat(o.ghost), o.flat(o.moved); !sameItems(was, got) {
				return fmt.Sprintf("the iteration ends after %s where the table holds %s", showItems(got), showItems(was))
			}
			return ""
		}
		next := func(s *sst, ends bool, must int, want sitem) {
			for _, o := range call(s, "Next") {
				if isNil(o) {
					bad := ""
					if must == 1 {
						bad = "there is no next entry though there was said to be one"
					}
					add("agree", "Next", bad)
					add("complete", "Next", all(o))
					push(o, true)
					continue
				}
				e, ok := entry(o)
				bad := ""
				switch {
				case !ok:
					bad = "what is returned is not an entry"
				case ends || must == 2:
					bad = "there is a next entry though there was said to be none"
				case must == 1 && want.k != nil && !sameItem(want, e):
					bad = "the next entry is not the one peeked at"
				}
				add("agree", "Next", bad)
				if !ok {
					continue
				}
				bad = ""
				if posIn(o.flat(o.ghost), e) == len(o.flat(o.ghost)) {
					bad = "an entry is returned that is not in the table"
				} else if mv := o.flat(o.moved); posIn(mv, e) < len(mv) {
					bad = "an entry is returned a second time"
				}
				add("yields", "Next", bad)
				if bad != "" {
					continue
				}
				o.moved = append(o.moved, e)
				push(o, false)
			}
		}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			next(w.st, w.ends, 0, sitem{})
			for _, o := range call(w.st, "HasNext") {
				b, ok := o.ret[0].(sBool)
				if !ok {
					add("agree", "HasNext", "what HasNext says is not determined")
					continue
				}
				bad := ""
				if bool(b) && w.ends {
					bad = "an iteration that has ended says there is more"
				}
				add("agree", "HasNext", bad)
				if !b {
					add("complete", "HasNext", all(o))
				}
				must := 2
				if b {
					must = 1
				}
				next(o, w.ends, must, sitem{})
				push(o, w.ends || !bool(b))
			}
			for _, o := range call(w.st, "Peek") {
				if isNil(o) {
					add("complete", "Peek", all(o))
					next(o, w.ends, 2, sitem{})
					push(o, true)
					continue
				}
				e, ok := entry(o)
				bad := ""
				if !ok {
					bad = "what is returned is not an entry"
				}
				add("agree", "Peek", bad)
				if ok {
					next(o, w.ends, 1, e)
					push(o, w.ends)
				}
			}
		}
		x.terminates(func(construct, bad string) { c.oblige("ends", construct, bad == "", func() string { return bad }) })
		c.items["states between calls"] = len(seen)
		c.items["states executed"] = x.steps
	})
	c.min["no-crash"] = 3
	c.min["complete"] = 2
}
