package main

// M03: the iterator of the sorted tree.
//
// An iterator stands for the sequence of entries still to come, restricted to
// its range: the entry it is at (unless already yielded), the right subtree
// of that entry's node, and for every node on its path, from the top, its
// entry and right subtree. Every operation is run from an arbitrary such
// iterator, and what it yields and leaves is compared with that sequence.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M03", "shape analysis of the tree iterator: what it yields and leaves against the sequence it stood for, from an arbitrary state, loops folded to invariants", checkIter)
}

type iterShape struct {
	x                              *shape
	n                              *nodeType
	typ                            typeT
	paths, curr, pos, startF, endF string
	p0, p1                         int64
	haveP1                         bool
}

func checkIter(c *Check) {
	it := &iterShape{}
	it.typ = c.r.typ("collection.AVLIterator")
	if it.typ == nil {
		panic(undecided{"AVLIterator not found"})
	}
	mk := func() *shape {
		x := newShape(c)
		x.sorted = true
		if it.n != nil {
			x.nodes = []*nodeType{it.n}
		}
		it.n = x.nodeOf("collection.AVLNode")
		if it.n.list() {
			panic(undecided{"AVLNode is not a tree node"})
		}
		tree := c.r.typ("collection.AVLTree")
		x.owner = func(t typeT) bool { return identical(t, tree) }
		it.x = x
		return x
	}
	mk()
	one := func(what string, want func(typeT) bool) string {
		fs := fieldOf(it.typ, want)
		if len(fs) != 1 {
			panic(undecided{"the iterator does not have one " + what})
		}
		return fmt.Sprint(fs[0])
	}
	np := ptrTo(it.n.named)
	it.paths = one("path", func(t typeT) bool { return isSliceOf(t, np) })
	it.curr = one("current node", func(t typeT) bool { return identical(t, np) })
	it.pos = one("position", isIntT)
	// ---- construction
	names := []string{"collection.AVLTree.RangeIterator", "collection.AVLTree.Iterator"}
	for _, name := range names {
		fn := c.need(name)
		if fn == nil {
			continue
		}
		name := name
		c.guard("decided", name, func() { it.construct(c, mk(), name, fn) })
	}
	if it.startF == "" || it.endF == "" {
		panic(undecided{"the iterator does not keep its range"})
	}
	for _, m := range []string{"Next", "HasNext", "Peek"} {
		name := "collection.AVLIterator." + m
		fn := c.need(name)
		if fn == nil {
			continue
		}
		m := m
		c.guard("decided", name, func() { it.operate(c, mk, name, m, fn) })
	}
	c.min["yields"] = 3
	c.min["starts"] = 2
}

// at runs f on every state in which the current node is known
func (it *iterShape) at(o *sst, id int, f func(o *sst)) {
	if a, ok := o.heap[id].cells[it.curr].(sAbs); ok {
		for _, p := range it.x.materialise(o, a.id) {
			it.at(p, id, f)
		}
		return
	}
	f(o)
}

// rest is the sequence an iterator stands for
func (it *iterShape) rest(o *sst, id int) ([]sitem, string) {
	ob := o.heap[id]
	n := it.n
	var r []sitem
	switch cur := o.cell(ob, it.curr).(type) {
	case sNil:
	case sPtr:
		nd := o.heap[cur.obj]
		if nd == nil || nd.node != n {
			return nil, "the current node is not a node"
		}
		pos, ok := o.cell(ob, it.pos).(sInt)
		switch {
		case ok && pos == sInt{0, it.p0}:
			r = append(r, sitem{kind: 'e', k: o.cell(nd, n.key), v: o.cell(nd, n.val)})
		case ok && it.haveP1 && pos == sInt{0, it.p1}:
		default:
			return nil, fmt.Sprintf("the iterator is left at position %v of a node", showInt(o.cell(ob, it.pos)))
		}
		r = append(r, o.seqOf(o.cell(nd, n.links[1]))...)
	default:
		return nil, "the current node is not determined"
	}
	s, ok := o.cell(ob, it.paths).(sStk)
	if !ok {
		if _, isNil := o.cell(ob, it.paths).(sNil); !isNil {
			return nil, "the path is not determined"
		}
	}
	for i := len(s.items) - 1; i >= 0; i-- {
		p, ok := s.items[i].(sPtr)
		if !ok {
			return nil, "something else than a node is on the path"
		}
		nd := o.heap[p.obj]
		r = append(r, sitem{kind: 'e', k: o.cell(nd, n.key), v: o.cell(nd, n.val)})
		r = append(r, o.seqOf(o.cell(nd, n.links[1]))...)
	}
	if s.base != 0 {
		r = append(r, o.flat([]sitem{segItem(s.base)})...)
	}
	return r, ""
}

func showInt(v sv) string {
	if i, ok := v.(sInt); ok && i.base == 0 {
		return fmt.Sprint(i.k)
	}
	return "?"
}

// iterView is one final state seen from the sequence there was at the start
type iterView struct {
	g          []sitem
	rs, re     []uint8
	onS, onE   bool // the range has a start / an end
	offS, offE bool // known not to have one
	j          int  // the sequence left begins here
	left       []sitem
	bad        string
}

func (it *iterShape) view(o *sst, id, start, end int) *iterView {
	v := &iterView{}
	x := it.x
	x.saturate(o, []int{start, end})
	if o.dead {
		return nil
	}
	v.g = o.flat(o.ghost)
	v.rs, v.re = x.rels(o, v.g, start), x.rels(o, v.g, end)
	v.onS, v.onE = o.nilk[start] == 2, o.nilk[end] == 2
	v.offS, v.offE = o.nilk[start] == 1, o.nilk[end] == 1
	v.left, v.bad = it.rest(o, id)
	if v.bad != "" {
		return v
	}
	v.j = len(v.g) - len(v.left)
	ok := v.j >= 0
	for i := 0; ok && i < len(v.left); i++ {
		ok = sameItem(v.g[v.j+i], v.left[i])
	}
	if !ok {
		v.bad = fmt.Sprintf("the iterator stands for %s after it stood for %s", showItems(v.left), showItems(v.g))
	}
	for _, ob := range o.heap {
		if ob.node == it.n && !ob.pristine && !ob.alloc && v.bad == "" {
			v.bad = "iterating modifies the tree"
		}
	}
	return v
}

// drop: the item lies outside of the range
func (v *iterView) drop(i int) bool {
	return v.onS && v.rs[i]&^rLT == 0 || v.onE && v.re[i]&rLT == 0
}

// keep: the item is an entry in the range
func (v *iterView) keep(i int) bool {
	return v.g[i].kind == 'e' && (v.offS || v.rs[i]&rLT == 0) && (v.offE || v.re[i]&^rLT == 0)
}

func (v *iterView) dropAll(from, to int) string {
	for i := from; i < to; i++ {
		if !v.drop(i) {
			return fmt.Sprintf("%s is passed over though it may lie in the range", showItems(v.g[i:i+1]))
		}
	}
	return ""
}

// bounds checks that the range the iterator keeps still restricts what is left
func (it *iterShape) bounds(o *sst, id, start, end int, v *iterView) string {
	ob := o.heap[id]
	for _, b := range []struct {
		f    string
		tok  int
		off  bool
		what string
	}{{it.startF, start, v.offS, "start"}, {it.endF, end, v.offE, "end"}} {
		switch w := o.cell(ob, b.f).(type) {
		case sTok:
			if w.id != b.tok {
				return "the " + b.what + " of the range is replaced"
			}
		case sNil:
			if b.off {
				continue
			}
			for i := v.j; i < len(v.g); i++ {
				ok := v.drop(i) && b.what == "start" && v.onE && v.re[i]&rLT == 0
				if b.what == "start" && v.rs[i]&rLT == 0 || b.what == "end" && v.re[i]&^rLT == 0 {
					ok = true
				}
				if !ok {
					return "the " + b.what + " of the range is forgotten while entries beyond it are left"
				}
			}
		default:
			return "the " + b.what + " of the range is not determined"
		}
	}
	return ""
}

func (it *iterShape) construct(c *Check, x *shape, name string, fn *ssa.Function) {
	st := newSst()
	treeT := c.r.typ("collection.AVLTree")
	rootF := fieldOf(treeT, func(t typeT) bool { return identical(t, ptrTo(it.n.named)) })
	if len(rootF) != 1 {
		panic(undecided{"AVLTree does not have one root"})
	}
	id := st.newObj(treeT)
	t := x.newTree(st, it.n, ht{})
	st.ghost = []sitem{st.trees[t.id].items[0]}
	st.heap[id].cells[fmt.Sprint(rootF[0])] = t
	args := []sv{sPtr{id, ""}}
	start, end := st.tok(), st.tok()
	switch len(fn.Params) {
	case 1:
		st.nilk[start.id], st.nilk[end.id] = 1, 1
	case 3:
		args = append(args, start, end)
	default:
		panic(undecided{"unexpected parameters"})
	}
	st.spec = []int{start.id, end.id}
	x.start(st, fn, args...)
	outs := x.run(st)
	if len(outs) == 0 {
		c.fail("starts", name, "no path returns")
	}
	x.terminates(func(_, bad string) { c.oblige("ends", name, bad == "", func() string { return bad }) })
	for _, o := range outs {
		if o.panicV != "" {
			ok := o.expl && o.nilk[start.id] == 2 && o.nilk[end.id] == 2 && o.fact(start.id, end.id) == rGT
			c.oblige("no-crash", name, ok, func() string { return o.panicV })
			continue
		}
		c.ok("no-crash", name)
		i, ok := o.ret[0].(sIface)
		var p sPtr
		if ok {
			p, ok = i.v.(sPtr)
		}
		if !ok || o.heap[p.obj] == nil || !identical(o.heap[p.obj].typ, it.typ) {
			c.fail("starts", name, "does not return a tree iterator")
			continue
		}
		// which field keeps which bound
		ob := o.heap[p.obj]
		for k, v := range ob.cells {
			if v == sv(start) {
				if it.startF != "" && it.startF != k {
					c.fail("starts", name, "the start of the range is kept in different places")
				}
				it.startF = k
			}
			if v == sv(end) {
				if it.endF != "" && it.endF != k {
					c.fail("starts", name, "the end of the range is kept in different places")
				}
				it.endF = k
			}
		}
	}
	if it.startF == "" || it.endF == "" {
		c.fail("starts", name, "the iterator does not keep its range")
		return
	}
	for _, o := range outs {
		if o.panicV != "" {
			continue
		}
		i, ok := o.ret[0].(sIface)
		if !ok {
			continue
		}
		p, ok := i.v.(sPtr)
		if !ok {
			continue
		}
		it.at(o, p.obj, func(o *sst) {
			if _, ok := o.cell(o.heap[p.obj], it.curr).(sPtr); ok {
				if w, ok := o.cell(o.heap[p.obj], it.pos).(sInt); ok && w.base == 0 {
					it.p0 = w.k
				}
			}
			v := it.view(o, p.obj, start.id, end.id)
			if v == nil {
				return
			}
			bad := v.bad
			if bad == "" {
				bad = v.dropAll(0, v.j)
			}
			if bad == "" {
				bad = it.bounds(o, p.obj, start.id, end.id, v)
			}
			c.oblige("starts", name, bad == "", func() string { return bad })
		})
	}
}

func (it *iterShape) operate(c *Check, mk func() *shape, name, op string, fn *ssa.Function) {
	type fin struct {
		o          *sst
		id         int
		start, end int
	}
	run := func(form int) []fin {
		x := mk()
		st := newSst()
		id := st.newObj(it.typ)
		ob := st.heap[id]
		st.roots = []int{id}
		start, end := st.tok(), st.tok()
		st.spec = []int{start.id, end.id}
		ob.cells[it.startF], ob.cells[it.endF] = start, end
		base := st.id()
		ob.cells[it.paths] = sStk{base: base}
		switch form {
		case 0: // no current node
			ob.cells[it.curr] = sNil{}
			st.ghost = []sitem{segItem(base)}
			pi := st.id()
			ob.cells[it.pos] = sInt{pi, 0}
			lo, hi := it.p0, it.p0
			if it.haveP1 {
				if it.p1 < lo {
					lo = it.p1
				}
				if it.p1 > hi {
					hi = it.p1
				}
			}
			st.lo[pi], st.hi[pi] = lo, hi
		case 1, 2:
			p := st.newNode(x, it.n, false)
			nd := st.heap[p]
			ob.cells[it.curr] = sPtr{p, ""}
			r := st.trees[nd.cells[it.n.links[1]].(sAbs).id].items[0]
			e := sitem{kind: 'e', k: nd.cells[it.n.key], v: nd.cells[it.n.val]}
			if form == 1 {
				ob.cells[it.pos] = sInt{0, it.p0}
				st.ghost = []sitem{e, r, segItem(base)}
			} else {
				ob.cells[it.pos] = sInt{0, it.p1}
				st.ghost = []sitem{r, segItem(base)}
			}
		}
		x.measure = func(o *sst) ([]sitem, bool) {
			its, bad := it.rest(o, id)
			return its, bad == ""
		}
		x.start(st, fn, sPtr{id, ""})
		var fs []fin
		for _, o := range x.run(st) {
			fs = append(fs, fin{o, id, start.id, end.id})
		}
		x.terminates(func(_, bad string) { c.oblige("ends", name, bad == "", func() string { return bad }) })
		return fs
	}
	nonNil := func(v sv) (sPtr, bool) {
		i, ok := v.(sIface)
		if !ok {
			return sPtr{}, false
		}
		p, ok := i.v.(sPtr)
		return p, ok
	}
	all := run(1)
	if op == "Next" {
		// the position after a yield
		for _, f := range all {
			if f.o.panicV != "" {
				continue
			}
			if _, ok := nonNil(f.o.ret[0]); !ok {
				continue
			}
			ob := f.o.heap[f.id]
			if _, ok := f.o.cell(ob, it.curr).(sPtr); !ok {
				continue
			}
			if w, ok := f.o.cell(ob, it.pos).(sInt); ok && w.base == 0 && w.k != it.p0 {
				if it.haveP1 && it.p1 != w.k {
					c.fail("yields", name, "yielding leaves the iterator at different positions")
				}
				it.p1, it.haveP1 = w.k, true
			}
		}
	}
	all = append(all, run(0)...)
	if it.haveP1 {
		all = append(all, run(2)...)
	}
	for _, f := range all {
		if f.o.panicV != "" {
			c.fail("no-crash", name, "%s", f.o.panicV)
			continue
		}
		c.ok("no-crash", name)
		it.at(f.o, f.id, func(o *sst) {
			v := it.view(o, f.id, f.start, f.end)
			if v == nil {
				return
			}
			bad := v.bad
			if bad == "" {
				bad = it.outcome(o, op, v)
			}
			if bad == "" {
				bad = it.bounds(o, f.id, f.start, f.end, v)
			}
			c.oblige("yields", name, bad == "", func() string { return bad })
		})
	}
}

// outcome compares a result with the sequence
func (it *iterShape) outcome(o *sst, op string, v *iterView) string {
	res := o.ret[0]
	some := false
	entry := sitem{}
	if op == "HasNext" {
		b, ok := res.(sBool)
		if !ok {
			return "the answer is not determined"
		}
		some = bool(b)
	} else {
		switch r := res.(type) {
		case sNil:
		case sIface:
			p, ok := r.v.(sPtr)
			if !ok || !identical(r.typ, ptrTo(it.n.named)) {
				return "yields something that is neither nil nor an entry"
			}
			nd := o.heap[p.obj]
			if nd == nil || nd.node != it.n {
				return "yields something that is not an entry"
			}
			some = true
			entry = sitem{kind: 'e', k: o.cell(nd, it.n.key), v: o.cell(nd, it.n.val)}
		default:
			return "yields something that is neither nil nor an entry"
		}
	}
	if !some {
		if bad := v.dropAll(0, len(v.g)); bad != "" {
			return "the iteration ends early: " + bad
		}
		return ""
	}
	at := v.j
	if op == "Next" {
		at = v.j - 1
	}
	if at < 0 || at >= len(v.g) {
		if op == "Next" {
			return "an entry is yielded that is not one of those to come, or that stays to come"
		}
		return "there is no next entry"
	}
	if bad := v.dropAll(0, at); bad != "" {
		return bad
	}
	if !v.keep(at) {
		return "what comes next is not known to lie in the range"
	}
	if op != "HasNext" && !sameItem(entry, v.g[at]) {
		return fmt.Sprintf("yields %s where %s comes next", showItems([]sitem{entry}), showItems(v.g[at:at+1]))
	}
	return ""
}
