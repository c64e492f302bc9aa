package main

// M01, M02: the balanced tree.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", "shape analysis of the tree operations: every path from an arbitrary balanced ordered tree, recursion by contract", func(c *Check) { checkTree(c, "M01") })
	register("M02", "shape analysis of the tree operations: entries before and after on every path, recursion by contract", func(c *Check) { checkTree(c, "M02") })
}

var treeOps = []struct{ name, op string }{
	{"collection.AVLTree.Put", "put"}, {"collection.AVLTree.Remove", "remove"}, {"collection.AVLTree.Get", "get"},
}

func treeShape(c *Check) (*shape, *nodeType) {
	x := newShape(c)
	x.sorted, x.heights = true, true
	n := x.nodeOf("collection.AVLNode")
	if n.list() || n.bal == "" {
		panic(undecided{"AVLNode does not look like a node of a balanced tree"})
	}
	tree := c.r.typ("collection.AVLTree")
	x.owner = func(t typeT) bool { return identical(t, tree) }
	return x, n
}

func checkTree(c *Check, prop string) {
	for _, t := range treeOps {
		fn := c.need(t.name)
		if fn == nil {
			continue
		}
		for _, rec := range c.r.recursiveIn(fn) {
			verifyRec(c, prop, t.op, rec)
		}
		c.guard("decided", t.name, func() {
			x := verifyTop(c, prop, t.op, t.name, fn)
			for rec := range x.needNil {
				if !contractNil[rec] { // the body was not yet tried on an empty tree
					contractNil[rec] = true
					verifyRec(c, prop, t.op, rec)
				}
			}
		})
	}
	if prop == "M02" {
		c.guard("decided", "collection.AVLTree.Size", func() { verifySize(c) })
	}
	c.guard("decided", "collection.AVLTree", func() {
		onlyThere(c, []string{"collection.AVLTree", "collection.AVLNode"})
		madeEmpty(c, "collection.AVLTree")
	})
	c.items["states executed"] = c.steps
	if prop == "M01" {
		c.min["ordered"] = 2
		c.min["balanced"] = 2
	} else {
		c.min["content"] = 3
		c.min["result"] = 3
	}
}

// oblig collects obligations so that they can be discarded
type oblig struct {
	rule, construct string
	ok              bool
	detail          string
}

func flush(c *Check, os []oblig) {
	for _, o := range os {
		o := o
		c.oblige(o.rule, o.construct, o.ok, func() string { return o.detail })
	}
}

func allOK(os []oblig) bool {
	for _, o := range os {
		if !o.ok {
			return false
		}
	}
	return true
}

// verifyRec shows that the body of a recursive function satisfies the
// contract its recursive calls are replaced by
func verifyRec(c *Check, prop, op string, fn *ssa.Function) {
	name := fname(fn)
	c.guard("decided", name, func() {
		first := bodyObligations(c, op, fn, false)
		if !allOK(first) {
			if other := bodyObligations(c, op, fn, true); allOK(other) {
				contractNeg[fn] = true
				first = other
			}
		}
		keep := map[string]string{"ordered": "M01", "balanced": "M01", "flag": "M01", "content": "M02", "result": "M02", "ends": "M02"}
		var os []oblig
		for _, o := range first {
			if p := keep[o.rule]; p == "" || p == prop {
				os = append(os, o)
			}
		}
		flush(c, os)
	})
}

var contractNeg = map[*ssa.Function]bool{}
var contractNil = map[*ssa.Function]bool{}

func bodyObligations(c *Check, op string, fn *ssa.Function, neg bool) []oblig {
	name := fname(fn)
	var os []oblig
	add := func(rule string, bad string) {
		os = append(os, oblig{rule, name, bad == "", bad})
	}
	run := func(nilRoot bool) *shape {
		x, n := treeShape(c)
		s := x.sigOf(fn, n)
		x.hooks[fn] = x.contract(op, s, n, neg)
		x.body = true
		st := newSst()
		k := st.tok()
		st.nilk[k.id] = 2
		st.spec = []int{k.id}
		val := sv(st.tok())
		args := make([]sv, len(fn.Params))
		h0 := ht{}
		if nilRoot {
			args[s.root] = sNil{}
		} else {
			h0 = st.hvar(1)
			st.hkeep = h0.v
			t := x.newTree(st, n, h0)
			st.ghost = []sitem{st.trees[t.id].items[0]}
			args[s.root] = t
		}
		args[s.key] = k
		if s.value >= 0 {
			args[s.value] = val
		}
		x.start(st, fn, args...)
		outs := x.run(st)
		if len(outs) == 0 {
			add("content", "no path returns")
		}
		bad := ""
		if len(x.recur) > 0 {
			bad = "recurses without going down the tree: it may not end"
		}
		add("ends", bad)
		x.terminates(func(_, bad string) { add("ends", bad) })
		for _, o := range outs {
			if o.panicV != "" {
				add("no-crash", o.panicV)
				continue
			}
			add("no-crash", "")
			root := o.ret[s.res]
			old := sv(sNil{})
			if s.old >= 0 {
				old = o.ret[s.old]
			}
			tree := root
			if op == "get" {
				// the result is the entry; the tree must be as it was
				old, tree = root, nil
				for _, ob := range o.heap {
					if ob.node != nil && !ob.pristine && !ob.alloc {
						add("content", "looking up modifies the tree")
					}
				}
			}
			x.treeOutcome(o, n, op, k.id, val, tree, old, add)
			if op == "get" {
				continue
			}
			h, bad := x.heightOf(o, root)
			add("balanced", bad)
			if bad != "" || s.done < 0 {
				continue
			}
			d, ok := o.ret[s.done].(sBool)
			if !ok {
				add("flag", "the flag that tells whether the height changed is not determined")
				continue
			}
			unchanged := bool(d) != neg
			want := o.hval(h0)
			if want.v != h.v {
				add("flag", "the height of the result is not related to the height before")
				continue
			}
			diff := h.o - want.o
			_, isNil := old.(sNil)
			switch {
			case unchanged && diff != 0:
				add("flag", fmt.Sprintf("the height changes by %d but is reported unchanged", diff))
			case !unchanged && op == "put" && (diff != 1 || !isNil):
				add("flag", fmt.Sprintf("the height changes by %d but is reported grown", diff))
			case !unchanged && op == "remove" && (diff != -1 || isNil):
				add("flag", fmt.Sprintf("the height changes by %d but is reported shrunk", diff))
			case !unchanged && op == "put" && h.v == 0 && h.o < 2, unchanged, op == "remove":
				add("flag", "")
			default: // grown to at least 2: the root leans to one side
				bal := "the root of a grown subtree is evenly balanced"
				if p, ok := root.(sPtr); ok {
					ob := o.heap[p.obj]
					if b, ok := o.cell(ob, n.bal).(sInt); ok && b.base == 0 && b.k != 0 {
						bal = ""
					}
				}
				if a, ok := root.(sAbs); ok && o.trees[a.id].nonzero {
					bal = ""
				}
				add("flag", bal)
			}
		}
		return x
	}
	x := run(false)
	contractNil[fn] = contractNil[fn] || x.needNil[fn]
	if contractNil[fn] {
		run(true)
	}
	return os
}

// treeOutcome checks content and result of one path
func (x *shape) treeOutcome(o *sst, n *nodeType, op string, k int, val sv, tree, old sv, add func(string, string)) contentRes {
	if tree == nil { // unmodified: what the ghost says
		t := x.newTree(o, n, ht{})
		o.trees[t.id].items = o.flat(o.ghost)
		tree = t
	}
	var res contentRes
	if n.list() {
		res = x.listContent(o, tree, op, k, val)
	} else {
		res = x.content(o, tree, op, k, val)
	}
	if o.dead {
		return res
	}
	add("content", res.bad)
	if op != "get" && !n.list() {
		add("ordered", res.order)
	}
	if res.bad != "" {
		return res
	}
	if !res.found {
		if _, ok := old.(sNil); ok {
			add("result", "")
		} else {
			add("result", "an entry is returned though the key was not in the tree")
		}
		return res
	}
	p, ok := old.(sPtr)
	if !ok {
		add("result", "no entry is returned though the key was in the tree")
		return res
	}
	ob := o.heap[p.obj]
	if ob == nil || ob.node != n {
		add("result", "the result is not an entry")
		return res
	}
	kk := tokID(o.cell(ob, n.key))
	switch {
	case kk == 0 || o.fact(kk, tokID(res.k)) != rEQ && o.fact(kk, k) != rEQ:
		add("result", "the entry returned has another key")
	case o.cell(ob, n.val) != res.v:
		add("result", "the entry returned does not have the value the key had")
	default:
		add("result", "")
	}
	return res
}

// verifyTop checks the operations of the tree itself
func verifyTop(c *Check, prop, op, name string, fn *ssa.Function) *shape {
	x, n := treeShape(c)
	for _, rec := range c.r.recursiveIn(fn) {
		x.hooks[rec] = x.contract(op, x.sigOf(rec, n), n, contractNeg[rec])
	}
	treeT := c.r.typ("collection.AVLTree")
	rootF := fieldOf(treeT, func(t typeT) bool { return identical(t, ptrTo(n.named)) })
	sizeF := fieldOf(treeT, isIntT)
	if len(rootF) != 1 || len(sizeF) != 1 {
		panic(undecided{"AVLTree does not have one root and one size"})
	}
	st := newSst()
	k := st.tok()
	st.nilk[k.id] = 2
	st.spec = []int{k.id}
	val := sv(st.tok())
	id := st.newObj(treeT)
	st.roots = []int{id}
	size := st.id()
	t := x.newTree(st, n, st.hvar(0))
	st.ghost = []sitem{st.trees[t.id].items[0]}
	rp, sp := fmt.Sprint(rootF[0]), fmt.Sprint(sizeF[0])
	st.heap[id].cells[rp] = t
	st.heap[id].cells[sp] = sInt{size, 0}
	args := []sv{sPtr{id, ""}}
	for _, p := range fn.Params[1:] {
		switch {
		case identical(p.Type(), n.keyT):
			args = append(args, k)
		case identical(p.Type(), n.valT):
			args = append(args, val)
		default:
			panic(undecided{"unexpected parameter"})
		}
	}
	x.start(st, fn, args...)
	outs := x.run(st)
	if len(outs) == 0 {
		c.fail("content", name, "no path returns")
	}
	add := func(rule, bad string) {
		p := map[string]string{"ordered": "M01", "balanced": "M01", "content": "M02", "result": "M02", "size": "M02", "ends": "M02"}[rule]
		if p == "" || p == prop {
			c.oblige(rule, name, bad == "", func() string { return bad })
		}
	}
	x.terminates(func(_, bad string) { add("ends", bad) })
	for _, o := range outs {
		if o.panicV != "" {
			add("no-crash", o.panicV)
			continue
		}
		add("no-crash", "")
		ob := o.heap[id]
		root := o.cell(ob, rp)
		res := x.treeOutcome(o, n, op, k.id, val, root, o.ret[0], add)
		if o.dead {
			continue
		}
		_, bad := x.heightOf(o, root)
		add("balanced", bad)
		if res.bad != "" {
			continue
		}
		want := int64(0)
		if op == "put" && !res.found {
			want = 1
		}
		if op == "remove" && res.found {
			want = -1
		}
		got, ok := o.cell(ob, sp).(sInt)
		if !ok || got.base != size {
			add("size", "the size is no longer related to what it was")
		} else if got.k != want {
			add("size", fmt.Sprintf("the size changes by %d where the number of entries changes by %d", got.k, want))
		} else {
			add("size", "")
		}
	}
	return x
}

func verifySize(c *Check) {
	fn := c.need("collection.AVLTree.Size")
	if fn == nil {
		return
	}
	x, _ := treeShape(c)
	treeT := c.r.typ("collection.AVLTree")
	sizeF := fieldOf(treeT, isIntT)
	st := newSst()
	id := st.newObj(treeT)
	size := sInt{st.id(), 0}
	st.heap[id].cells[fmt.Sprint(sizeF[0])] = size
	x.start(st, fn, sPtr{id, ""})
	for _, o := range x.run(st) {
		c.oblige("result", fname(fn), o.panicV == "" && len(o.ret) == 1 && o.ret[0] == sv(size), func() string { return "does not return the size" })
	}
}

// madeEmpty: whoever makes a tree leaves its root nil and its size 0
func madeEmpty(c *Check, name string) {
	t := c.r.typ(name)
	for _, fn := range c.r.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !identical(derefT(a.Type()), t) {
					continue
				}
				bad := ""
				for _, u := range *a.Referrers() {
					fa, ok := u.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, w := range *fa.Referrers() {
						s, ok := w.(*ssa.Store)
						if !ok || s.Addr != ssa.Value(fa) {
							continue
						}
						k, isC := s.Val.(*ssa.Const)
						if !isC || k.Value != nil && k.Value.ExactString() != "0" {
							bad = "a new tree is not empty: " + c.r.pos(s.Pos())
						}
					}
				}
				c.oblige("constructed", fname(fn), bad == "", func() string { return bad })
			}
		}
	}
}
