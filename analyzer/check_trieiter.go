package main

// T02: iterating the keys of a trie.
//
// A key iterator stands for the sequence of nodes still to come: the node it
// is at and all below it, then what is left of every iterator over children
// on its path, from the top, each node followed by those below it. Every
// operation is run from an arbitrary such iterator: nodes, and what is left
// of an iterator over children, come into view as the code asks for them, and
// the path is of any length. The iterators over children are their contract
// (M03). Where an iteration starts, and the full key of a node, are decided
// on the chain of nodes from the root to it.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T02", "shape analysis of the trie iterator: what it yields and leaves against the sequence of nodes it stood for, from an arbitrary state; full keys and starts on chains of nodes", checkTrieIter)
}

const (
	tiFull, tiVal, tiBelow           = "~full", "~val", "~below"
	tiSeg, tiID, tiState, tiC, tiRem = "~seg", "~id", "~state", "~child", "~rest"
	tiNode                           = "~node"
)

type trieIter struct {
	c                  *Check
	iterT, nodeT, mapT typeT
	childT             typeT // an iterator over children
	ni, ci             typeT // the interfaces
	paths, cur         string
	others             []string
}

func checkTrieIter(c *Check) {
	t := &trieIter{c: c, iterT: c.r.typ("util.TrieKeyIterator"), nodeT: c.r.typ("util.TrieNode"), mapT: c.r.typ("collection.SortedMap"), childT: c.r.typ("collection.AVLIterator"), ni: c.r.typ("util.ITrieNode"), ci: c.r.typ("collection.ISortedMapIterator")}
	if t.iterT == nil || t.nodeT == nil || t.mapT == nil || t.childT == nil || t.ni == nil || t.ci == nil {
		panic(undecided{"the types of the trie iterator were not found"})
	}
	ps := fieldOf(t.iterT, func(ft typeT) bool { return isSliceOf(ft, t.ci) })
	if len(ps) != 1 {
		panic(undecided{"the iterator does not have one path"})
	}
	t.paths = fmt.Sprint(ps[0])
	ns := fieldOf(t.iterT, func(ft typeT) bool { return identical(ft, t.ni) })
	for _, n := range []string{"util.TrieNode", "util.MappedTrieNode"} {
		if fn := c.need(n + ".FullKey"); fn != nil {
			n := n
			c.guard("decided", fname(fn), func() { t.fullKey(n, fn) })
		}
	}
	var made *ssa.Function
	if fn := c.need("util.NewTrieKeyIterator"); fn != nil {
		made = fn
		c.guard("decided", fname(fn), func() { t.construct(fn, ns) })
	}
	if t.cur == "" {
		c.fail("starts", fname(made), "the iterator does not keep the node it starts at")
		return
	}
	for _, n := range []string{"util.Trie", "util.MappedTrie"} {
		for _, m := range []string{"Iterator", "KeyIterator"} {
			if fn := c.need(n + "." + m); fn != nil {
				n := n
				c.guard("decided", fname(fn), func() { t.begin(n, fn) })
			}
		}
	}
	for _, m := range []string{"Next", "HasNext", "Peek"} {
		if fn := c.need("util.TrieKeyIterator." + m); fn != nil {
			m := m
			c.guard("decided", fname(fn), func() { t.operate(m, fn) })
		}
	}
	c.items["states executed"] = c.steps
	c.min["full-key"] = 2
	c.min["starts"] = 5
	c.min["yields"] = 2
	c.min["has-next"] = 1
	c.min["no-crash"] = 3
}

// ---------------------------------------------------------------- the model

func (t *trieIter) newSeg(st *sst) (int, int) {
	o := st.newObj(types.Typ[types.Int])
	s := st.id()
	st.heap[o].cells[tiID] = sTok{s}
	st.heap[o].cells[tiState] = sInt{}
	return o, s
}

func (t *trieIter) newNode(st *sst) int {
	id := st.newObj(t.nodeT)
	k := st.tok()
	st.nilk[k.id] = 2
	st.heap[id].cells[tiFull] = k
	st.heap[id].cells[tiVal] = st.tok()
	b, _ := t.newSeg(st)
	st.heap[id].cells[tiBelow] = sPtr{b, ""}
	return id
}

func (t *trieIter) newIter(st *sst, seg sv) sv {
	id := st.newObj(t.childT)
	st.heap[id].cells[tiSeg] = seg
	return sIface{ptrTo(t.childT), sPtr{id, ""}}
}

func (t *trieIter) node(id int) sv { return sIface{ptrTo(t.nodeT), sPtr{id, ""}} }

// segment behind a cell
func (t *trieIter) seg(st *sst, id int, cell string) (*sobj, int) {
	p, ok := st.heap[id].cells[cell].(sPtr)
	if !ok {
		panic(undecided{"not a sequence of children"})
	}
	o := st.heap[p.obj]
	return o, o.cells[tiID].(sTok).id
}

// empty decides whether a sequence of children is
func (t *trieIter) empty(st *sst, o *sobj, id int) bool {
	switch o.cells[tiState] {
	case sv(sInt{0, 1}):
		return true
	case sv(sInt{0, 2}), sv(sInt{0, 3}):
		return false
	}
	panic(needFork{func(s *sst) []*sst {
		a, b := s.clone(), s.clone()
		for i, n := range []*sst{a, b} {
			for _, so := range n.heap {
				if so.cells[tiID] == sv(sTok{id}) {
					so.cells[tiState] = sInt{0, int64(i + 1)}
				}
			}
		}
		a.exp[id] = nil
		b.full[id] = true
		return []*sst{a, b}
	}})
}

// first child of a sequence that has one
func (t *trieIter) first(st *sst, o *sobj, id int) int {
	if o.cells[tiState] != sv(sInt{0, 3}) {
		n := t.newNode(st)
		below := st.heap[n].cells[tiBelow].(sPtr).obj
		r, rid := t.newSeg(st)
		o.cells[tiState] = sInt{0, 3}
		o.cells[tiC] = sPtr{n, ""}
		o.cells[tiRem] = sPtr{r, ""}
		st.exp[id] = []sitem{t.entry(st, n), segItem(st.heap[below].cells[tiID].(sTok).id), segItem(rid)}
	}
	return o.cells[tiC].(sPtr).obj
}

func (t *trieIter) entry(st *sst, n int) sitem {
	return sitem{kind: 'e', k: st.heap[n].cells[tiFull], v: st.heap[n].cells[tiVal]}
}

// items of a sequence of children, each followed by those below it
func (t *trieIter) items(st *sst, v sv) []sitem {
	p, ok := v.(sPtr)
	if !ok {
		panic(undecided{"not a sequence of children"})
	}
	o := st.heap[p.obj]
	switch o.cells[tiState] {
	case sv(sInt{0, 1}):
		return nil
	case sv(sInt{0, 3}):
		n := o.cells[tiC].(sPtr).obj
		r := []sitem{t.entry(st, n)}
		r = append(r, t.items(st, st.heap[n].cells[tiBelow])...)
		return append(r, t.items(st, o.cells[tiRem])...)
	}
	return []sitem{segItem(o.cells[tiID].(sTok).id)}
}

// rest is the sequence a key iterator stands for
func (t *trieIter) rest(st *sst, id int) (r []sitem, bad string) {
	ob := st.heap[id]
	cur := st.cell(ob, t.cur)
	if i, ok := cur.(sIface); ok {
		cur = i.v
	}
	switch v := cur.(type) {
	case sNil:
	case sPtr:
		n := st.heap[v.obj]
		if n == nil || n.cells[tiBelow] == nil {
			return nil, "the current node is not a node"
		}
		r = append(r, t.entry(st, v.obj))
		r = append(r, t.items(st, n.cells[tiBelow])...)
	default:
		return nil, "the current node is not determined"
	}
	switch s := st.cell(ob, t.paths).(type) {
	case sNil:
	case sStk:
		for i := len(s.items) - 1; i >= 0; i-- {
			f, ok := s.items[i].(sIface)
			var p sPtr
			if ok {
				p, ok = f.v.(sPtr)
			}
			if !ok || st.heap[p.obj] == nil || st.heap[p.obj].cells[tiSeg] == nil {
				return nil, "something else than an iterator over children is on the path"
			}
			r = append(r, t.items(st, st.heap[p.obj].cells[tiSeg])...)
		}
		if s.base != 0 {
			r = append(r, st.flat([]sitem{segItem(s.base)})...)
		}
	default:
		return nil, "the path is not determined"
	}
	return st.flat(r), ""
}

// ptrOf is the object behind a pointer or an interface holding one
func (t *trieIter) ptrOf(v sv, what, cell string, st *sst) int {
	if i, ok := v.(sIface); ok {
		v = i.v
	}
	switch p := v.(type) {
	case sNil:
		panic(crash{"a method of a nil " + what + " is called"})
	case sPtr:
		if o := st.heap[p.obj]; o != nil && o.cells[cell] != nil {
			return p.obj
		}
	}
	panic(undecided{"something else than a " + what + " is used"})
}

func (t *trieIter) shape() *shape {
	x := newShape(t.c)
	x.stackOf = func(e types.Type) bool { return identical(e, t.ci) }
	x.stackElem = func(st *sst) (sv, []sitem) {
		o, s := t.newSeg(st)
		return t.newIter(st, sPtr{o, ""}), []sitem{segItem(s)}
	}
	x.refold = func(*sst, *ssa.BasicBlock, []*ssa.Phi) {}
	node := func(name string, h func(x *shape, st *sst, n int) sv) {
		x.invoke[name] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
			x.setRes(st, []sv{h(x, st, t.ptrOf(recv, "node", tiBelow, st))})
			return nil
		}
	}
	node("FullKey", func(x *shape, st *sst, n int) sv { return st.heap[n].cells[tiFull] })
	node("Value", func(x *shape, st *sst, n int) sv { return st.heap[n].cells[tiVal] })
	size := func(st *sst, o *sobj, id int) sv {
		if t.empty(st, o, id) {
			return sInt{}
		}
		l := st.id()
		st.lo[l] = 1
		return sInt{l, 0}
	}
	node("ChildSize", func(x *shape, st *sst, n int) sv {
		o, id := t.seg(st, n, tiBelow)
		return size(st, o, id)
	})
	node("Children", func(x *shape, st *sst, n int) sv {
		// a node without children may not have a map of them
		if o, id := t.seg(st, n, tiBelow); t.empty(st, o, id) {
			switch o.cells["~nomap"] {
			case nil:
				panic(needFork{func(s *sst) []*sst {
					a, b := s.clone(), s.clone()
					for i, n := range []*sst{a, b} {
						for _, so := range n.heap {
							if so.cells[tiID] == sv(sTok{id}) {
								so.cells["~nomap"] = sBool(i == 0)
							}
						}
					}
					return []*sst{a, b}
				}})
			case sv(sBool(true)):
				return sNil{}
			}
		}
		m := st.newObj(t.mapT)
		st.heap[m].cells[tiSeg] = st.heap[n].cells[tiBelow]
		return sPtr{m, ""}
	})
	for _, m := range []string{"PutChild", "RemoveChild", "SetValue", "SetOffset", "Encode", "Decode"} {
		m := m
		x.invoke[m] = func(*shape, *sst, sv, []sv) []*sst {
			panic(crash{"iterating modifies the trie (" + m + ")"})
		}
	}
	if fn := t.c.need("collection.SortedMap.Iterator"); fn != nil {
		x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv {
			m := t.ptrOf(args[0], "map of children", tiSeg, st)
			return []sv{t.newIter(st, st.heap[m].cells[tiSeg])}
		})
	}
	if fn := t.c.r.fn("collection.SortedMap.Size"); fn != nil {
		x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv {
			o, id := t.seg(st, t.ptrOf(args[0], "map of children", tiSeg, st), tiSeg)
			return []sv{size(st, o, id)}
		})
	}
	iter := func(name string, h func(st *sst, i int, o *sobj, id int) []sv) {
		x.invoke[name] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
			i := t.ptrOf(recv, "iterator over children", tiSeg, st)
			o, id := t.seg(st, i, tiSeg)
			x.setRes(st, h(st, i, o, id))
			return nil
		}
	}
	take := func(move bool) func(st *sst, i int, o *sobj, id int) []sv {
		return func(st *sst, i int, o *sobj, id int) []sv {
			if t.empty(st, o, id) {
				return []sv{sNil{}, sNil{}}
			}
			n := t.first(st, o, id)
			if move {
				st.heap[i].cells[tiSeg] = o.cells[tiRem]
			}
			k := st.tok()
			st.nilk[k.id] = 2
			return []sv{k, t.node(n)}
		}
	}
	iter("HasNext", func(st *sst, i int, o *sobj, id int) []sv { return []sv{sBool(!t.empty(st, o, id))} })
	iter("Next", take(true))
	iter("Peek", take(false))
	return x
}

// ---------------------------------------------------------------- operations

func (t *trieIter) operate(m string, fn *ssa.Function) {
	name := fname(fn)
	for i := 0; i < 4; i++ {
		x := t.shape()
		st := newSst()
		id := st.newObj(t.iterT)
		ob := st.heap[id]
		ob.cells[t.cur], ob.cells[t.paths] = sNil{}, sNil{}
		root := t.newNode(st)
		for _, f := range t.others {
			ob.cells[f] = t.node(root)
		}
		if i&1 != 0 {
			n := t.newNode(st)
			ob.cells[t.cur] = t.node(n)
			b := st.heap[n].cells[tiBelow].(sPtr).obj
			st.ghost = append(st.ghost, t.entry(st, n), segItem(st.heap[b].cells[tiID].(sTok).id))
		}
		if i&2 != 0 {
			b := st.id()
			ob.cells[t.paths] = sStk{base: b}
			st.ghost = append(st.ghost, segItem(b))
		}
		st.roots = []int{id}
		x.start(st, fn, sPtr{id, ""})
		outs := x.run(st)
		if len(outs) == 0 {
			t.c.fail("no-crash", name, "no path returns")
		}
		for _, o := range outs {
			msg := o.panicV
			t.c.oblige("no-crash", name, msg == "", func() string { return msg })
			if msg != "" {
				continue
			}
			g := o.flat(o.ghost)
			left, bad := t.rest(o, id)
			rule := "yields"
			if m == "HasNext" {
				rule = "has-next"
				more, ok := o.ret[0].(sBool)
				some := false
				for _, it := range g {
					some = some || it.kind == 'e' || o.full[it.id]
				}
				switch {
				case bad != "":
				case !ok:
					bad = "what is returned does not depend on what is left"
				case bool(more) && !some:
					bad = "says there is more though there may be nothing left"
				case !bool(more) && len(g) > 0:
					bad = "says there is nothing left though there may be more"
				}
			} else if bad == "" {
				switch {
				case len(g) == 0:
					if !sameSv(o, o.ret[0], sNil{}) || !sameSv(o, o.ret[1], sNil{}) {
						bad = "something is returned when nothing is left"
					}
				case g[0].kind != 'e':
					bad = "returns without having looked whether there is a node left"
				case !sameSv(o, o.ret[0], g[0].k):
					bad = "what is returned is not the key of the next node"
				case !sameSv(o, o.ret[1], g[0].v):
					bad = "what is returned is not the value of the next node"
				}
				if m == "Next" && len(g) > 0 {
					g = g[1:]
				}
			}
			if bad == "" {
				same := len(g) == len(left)
				for i := 0; same && i < len(g); i++ {
					same = sameItem(g[i], left[i])
				}
				if !same {
					bad = fmt.Sprintf("what is left is %s, not %s", showItems(left), showItems(g))
				}
			}
			t.c.oblige(rule, name, bad == "", func() string { return bad })
		}
	}
}

// ---------------------------------------------------------------- chains

// chain is a root and nodes below it, each a child of the one before
type chain struct {
	nodes []int
	subs  []sv // the key of each; the root has none
	keys  int
}

const tiKey = "~subs"

func (t *trieIter) keyObj(st *sst, subs []sv) sv {
	kt := t.c.r.typ("util.Key")
	id := st.newObj(kt)
	st.heap[id].cells[tiKey] = sStk{items: subs}
	return sIface{ptrTo(kt), sPtr{id, ""}}
}

func subTok(v sv) sv {
	if s, ok := v.(sStk); ok && s.base == 0 && len(s.items) == 1 {
		return s.items[0]
	}
	return nil
}

func (t *trieIter) chainShape(nodeT typeT, depth int) (*shape, *sst, *chain) {
	x := newShape(t.c)
	st := newSst()
	bs := types.NewSlice(types.Typ[types.Byte])
	x.stackOf = func(e types.Type) bool { return identical(e, t.ci) || identical(e, bs) }
	x.refold = func(*sst, *ssa.BasicBlock, []*ssa.Phi) {}
	ch := &chain{}
	for i := 0; i <= depth; i++ {
		n := st.newObj(nodeT)
		k := sStk{}
		if i > 0 {
			w := st.tok()
			st.nilk[w.id] = 2
			k.items = []sv{w}
		}
		ch.nodes = append(ch.nodes, n)
		ch.subs = append(ch.subs, k)
		st.roots = append(st.roots, n)
		st.heap[n].cells["~n"] = sInt{0, int64(i)}
	}
	at := func(st *sst, v sv) int {
		n := t.ptrOf(v, "node", "~n", st)
		return int(st.heap[n].cells["~n"].(sInt).k)
	}
	node := func(i int) sv { return sIface{ptrTo(nodeT), sPtr{ch.nodes[i], ""}} }
	x.invoke["FullKey"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		i := at(st, recv)
		if i > depth {
			panic(undecided{"the full key of a node beside the chain"})
		}
		x.setRes(st, []sv{t.keyObj(st, ch.subs[1:i+1])})
		return nil
	}
	x.invoke["GetChild"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		i := at(st, recv)
		if len(args) != 1 {
			panic(undecided{"GetChild"})
		}
		w := subTok(args[0])
		if w == nil {
			panic(undecided{"a child is looked up by something else than a sub key"})
		}
		if i < depth && subTok(ch.subs[i+1]) == w {
			x.setRes(st, []sv{node(i + 1)})
			return nil
		}
		// a child of the same name may be elsewhere, or not
		a, b := st.clone(), st.clone()
		x.setRes(a, []sv{sNil{}})
		s := b.newObj(nodeT)
		b.heap[s].cells["~n"] = sInt{0, int64(depth + 1)}
		if i == depth && b.heap[ch.nodes[depth]].cells["~leaf"] == sv(sBool(true)) {
			x.setRes(st, []sv{sNil{}})
			return nil
		}
		x.setRes(b, []sv{sIface{ptrTo(nodeT), sPtr{s, ""}}})
		return []*sst{a, b}
	}
	x.invoke["Value"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		at(st, recv)
		x.setRes(st, []sv{st.tok()})
		return nil
	}
	x.invoke["ToString"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		x.setRes(st, []sv{sUnk{st.id()}})
		return nil
	}
	key := func(st *sst, v sv) sStk {
		return st.heap[t.ptrOf(v, "key", tiKey, st)].cells[tiKey].(sStk)
	}
	keyM := func(name string, h func(st *sst, k sStk, args []sv) sv) {
		x.invoke[name] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
			x.setRes(st, []sv{h(st, key(st, recv), args)})
			return nil
		}
		if fn := t.c.r.fn("util.Key." + name); fn != nil {
			x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv { return []sv{h(st, key(st, args[0]), args[1:])} })
		}
	}
	keyM("IsEmpty", func(st *sst, k sStk, args []sv) sv { return sBool(len(k.items) == 0) })
	keyM("Key", func(st *sst, k sStk, args []sv) sv { return k })
	keyM("SubKeyAt", func(st *sst, k sStk, args []sv) sv {
		if i, ok := args[0].(sInt); ok && i.base == 0 {
			if i.k < 0 || int(i.k) >= len(k.items) {
				panic(crash{"a sub key beyond the end of a key"})
			}
			return k.items[i.k]
		}
		panic(undecided{"a sub key at an unknown position"})
	})
	if fn := t.c.r.fn("util.NewKey"); fn != nil {
		x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv { return []sv{t.keyObj(st, nil).(sIface).v} })
	}
	add := func(x *shape, st *sst, recv sv, args []sv) []*sst {
		id := t.ptrOf(recv, "key", tiKey, st)
		if len(args) != 1 {
			panic(undecided{"Add"})
		}
		s, ok := args[0].(sStk)
		if _, isNil := args[0].(sNil); isNil || ok && s.base == 0 && len(s.items) == 0 {
			panic(crash{"an empty sub key is added to a key"})
		}
		if !ok {
			panic(undecided{"something else than a sub key is added to a key"})
		}
		o := st.heap[id]
		k := o.cells[tiKey].(sStk)
		o.cells[tiKey] = sStk{items: append(append([]sv(nil), k.items...), s)}
		x.setRes(st, []sv{recv})
		return nil
	}
	x.invoke["Add"] = add
	if fn := t.c.r.fn("util.Key.Add"); fn != nil {
		x.hooks[fn] = func(x *shape, st *sst, args []sv) []*sst { return add(x, st, args[0], args[1:]) }
	}
	return x, st, ch
}

func (t *trieIter) fullKey(nodeName string, fn *ssa.Function) {
	mapped := nodeName == "util.MappedTrieNode"
	ti := newTrieInfo(t.c, mapped)
	for d := 0; d <= 3; d++ {
		x, st, ch := t.chainShape(ti.nodeT, d)
		for i, n := range ch.nodes {
			o := st.heap[n]
			o.cells[ti.parent] = sNil{}
			if i > 0 {
				o.cells[ti.parent] = sIface{ptrTo(ti.nodeT), sPtr{ch.nodes[i-1], ""}}
			}
			o.cells[ti.key] = ch.subs[i]
			if i == 0 && !mapped {
				o.cells[ti.key] = sNil{}
			}
			if mapped {
				o.cells[ti.decoded] = sBool(true)
			}
		}
		x.hooks[fn] = func(x *shape, st *sst, args []sv) []*sst { return x.invoke["FullKey"](x, st, args[0], nil) }
		x.start(st, fn, sPtr{ch.nodes[d], ""})
		outs := x.run(st)
		if len(outs) == 0 {
			t.c.fail("full-key", fname(fn), "no path returns")
		}
		for _, o := range outs {
			bad := o.panicV
			if bad == "" {
				v := o.ret[0]
				if i, ok := v.(sIface); ok {
					v = i.v
				}
				p, ok := v.(sPtr)
				var k sStk
				if ok {
					k, ok = o.heap[p.obj].cells[tiKey].(sStk)
				}
				if !ok {
					bad = "what is returned is not a key"
				} else {
					same := len(k.items) == d
					for i := 0; same && i < d; i++ {
						same = subTok(k.items[i]) != nil && subTok(k.items[i]) == subTok(ch.subs[i+1])
					}
					if !same {
						bad = fmt.Sprintf("the full key of a node %d levels below the root is not made of the keys of the nodes on the way to it, in order", d)
					}
				}
			}
			t.c.oblige("full-key", fname(fn), bad == "", func() string { return bad })
		}
	}
}

// started checks that an iterator is at a node (-1: at none) with no path yet
func (t *trieIter) started(o *sst, v sv, ch *chain, want int, ns []int) string {
	if i, ok := v.(sIface); ok {
		v = i.v
	}
	p, ok := v.(sPtr)
	if !ok || o.heap[p.obj] == nil || !identical(o.heap[p.obj].typ, t.iterT) {
		return "what is returned is not a key iterator"
	}
	ob := o.heap[p.obj]
	switch s := o.cell(ob, t.paths).(type) {
	case sNil:
	case sStk:
		if s.base != 0 || len(s.items) != 0 {
			return "a new iterator is on its way already"
		}
	default:
		return "the path is not determined"
	}
	is := func(f string, n int) bool {
		w := o.cell(ob, f)
		if i, ok := w.(sIface); ok {
			w = i.v
		}
		if n < 0 {
			_, ok := w.(sNil)
			return ok
		}
		return w == sv(sPtr{ch.nodes[n], ""})
	}
	if t.cur == "" {
		for _, f := range ns {
			if f := fmt.Sprint(f); is(f, want) {
				if t.cur == "" {
					t.cur = f
				}
			} else {
				t.others = append(t.others, f)
			}
		}
		if t.cur == "" {
			return "the iterator does not keep the node it starts at"
		}
	}
	if !is(t.cur, want) {
		if want < 0 {
			return "an iterator over nothing has a node"
		}
		return fmt.Sprintf("the iterator does not start at the node asked for, %d levels below the root", want)
	}
	return ""
}

func (t *trieIter) outcome(x *shape, st *sst, fn *ssa.Function, ch *chain, want int, ns []int, args ...sv) {
	x.start(st, fn, args...)
	outs := x.run(st)
	if len(outs) == 0 {
		t.c.fail("starts", fname(fn), "no path returns")
	}
	for _, o := range outs {
		bad := o.panicV
		if bad == "" {
			bad = t.started(o, o.ret[0], ch, want, ns)
		}
		t.c.oblige("starts", fname(fn), bad == "", func() string { return bad })
	}
}

func (t *trieIter) construct(fn *ssa.Function, ns []int) {
	if len(fn.Params) != 2 {
		panic(undecided{"unexpected parameters"})
	}
	for _, d := range []int{1, 0, 2, 3} {
		x, st, ch := t.chainShape(t.nodeT, d)
		node := func(i int) sv { return sIface{ptrTo(t.nodeT), sPtr{ch.nodes[i], ""}} }
		t.outcome(x, st, fn, ch, d, ns, node(0), node(d))
		if t.cur == "" {
			return
		}
	}
	x, st, ch := t.chainShape(t.nodeT, 0)
	t.outcome(x, st, fn, ch, 0, ns, sIface{ptrTo(t.nodeT), sPtr{ch.nodes[0], ""}}, sNil{})
}

func (t *trieIter) begin(trie string, fn *ssa.Function) {
	mapped := trie == "util.MappedTrie"
	ti := newTrieInfo(t.c, mapped)
	run := func(d, missing int, key func(st *sst, ch *chain) []sv, want int) {
		x, st, ch := t.chainShape(ti.nodeT, d)
		tr := st.newObj(ti.trieT)
		st.roots = append(st.roots, tr)
		st.heap[tr].cells[ti.root] = sIface{ptrTo(ti.nodeT), sPtr{ch.nodes[0], ""}}
		if mapped {
			i, ok := accessed(t.c.r.fn("util.MappedTrie.IsDecoded"))
			if !ok {
				panic(undecided{"MappedTrie.IsDecoded does not return a field"})
			}
			st.heap[tr].cells[fmt.Sprint(i)] = sBool(true)
		}
		st.heap[ch.nodes[d]].cells["~leaf"] = sBool(true)
		t.outcome(x, st, fn, ch, want, nil, append([]sv{sPtr{tr, ""}}, key(st, ch)...)...)
	}
	if len(fn.Params) == 1 {
		run(1, 0, func(*sst, *chain) []sv { return nil }, 0)
		return
	}
	if len(fn.Params) != 2 {
		panic(undecided{"unexpected parameters"})
	}
	run(1, 0, func(*sst, *chain) []sv { return []sv{sNil{}} }, 0)
	for d := 0; d <= 3; d++ {
		d := d
		run(d, 0, func(st *sst, ch *chain) []sv { return []sv{t.keyObj(st, ch.subs[1:])} }, d)
		for more := 1; more <= 2; more++ {
			run(d, more, func(st *sst, ch *chain) []sv {
				subs := append([]sv(nil), ch.subs[1:]...)
				for i := 0; i < more; i++ {
					w := st.tok()
					st.nilk[w.id] = 2
					subs = append(subs, sStk{items: []sv{w}})
				}
				return []sv{t.keyObj(st, subs)}
			}, -1)
		}
	}
}
