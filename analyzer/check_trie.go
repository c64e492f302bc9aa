package main

// T01: setting, clearing and looking up a key of a trie.
//
// The state describes the nodes of the path of the key that the code holds,
// each with its depth relative to how far the key has been read; the rest of
// the trie is everything that is consistent with that: a child has its parent
// as parent and its key as key. Nodes come into view when the code follows a
// link, and go out of view at loop heads. The maps of children are their
// contract (M06). Every effect on the trie is checked where it happens.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T01", "shape analysis along the path of the key, of any length, in any trie; nodes come into view as links are followed, loops folded to invariants", checkTrie)
}

// sSub is a part of the key, by its position
type sSub struct {
	list int
	pos  sInt
}

// sKeyOf is the part of the key a node stands for
type sKeyOf struct{ node int }

// sSome: there is one, not in view
type sSome struct{}

func (v sSub) canon(c *canonizer) string   { return "sub" + c.v(v.pos) }
func (v sKeyOf) canon(c *canonizer) string { return "keyof" + c.n(v.node) }

const (
	tDepth = "~depth"
	tRoot  = "~root"
	tLink  = "~linked"
	tChild = "~child"
	tOther = "~others"
)

type trieInfo struct {
	c              *Check
	x              *shape
	trieT, nodeT   typeT
	mapT           typeT
	root           string // field of the trie
	parent, childs string // fields of a node
	key, data      string
	decoded        string
	mapped         bool
	list, ghost    int
	rootID, trieID int
	keyTok         sTok
	readonly       bool
}

// accessed is the field an accessor returns
func accessed(fn *ssa.Function) (int, bool) {
	if fn == nil || len(fn.Params) == 0 {
		return 0, false
	}
	got := map[int]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			v := r.Results[0]
			if ct, ok := v.(*ssa.ChangeInterface); ok {
				v = ct.X
			}
			u, ok := v.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if ok && fa.X == ssa.Value(fn.Params[0]) {
				got[fa.Field] = true
			}
		}
	}
	if len(got) != 1 {
		return 0, false
	}
	for k := range got {
		return k, true
	}
	return 0, false
}

func newTrieInfo(c *Check, mapped bool) *trieInfo {
	t := &trieInfo{c: c, mapped: mapped}
	tn, nn := "util.Trie", "util.TrieNode"
	if mapped {
		tn, nn = "util.MappedTrie", "util.MappedTrieNode"
	}
	t.trieT, t.nodeT, t.mapT = c.r.typ(tn), c.r.typ(nn), c.r.typ("collection.SortedMap")
	ni := c.r.typ("util.ITrieNode")
	if t.trieT == nil || t.nodeT == nil || t.mapT == nil || ni == nil {
		panic(undecided{"the types of the trie were not found"})
	}
	rs := fieldOf(t.trieT, func(ft typeT) bool { return identical(ft, ni) || identical(ft, ptrTo(t.nodeT)) })
	if len(rs) != 1 {
		panic(undecided{tn + " does not have one root"})
	}
	t.root = fmt.Sprint(rs[0])
	for _, a := range []struct {
		m string
		p *string
	}{{"Parent", &t.parent}, {"Children", &t.childs}, {"NodeKey", &t.key}, {"Value", &t.data}} {
		i, ok := accessed(c.r.fn(nn + "." + a.m))
		if !ok {
			panic(undecided{nn + "." + a.m + " does not return a field"})
		}
		*a.p = fmt.Sprint(i)
	}
	if mapped {
		i, ok := accessed(c.r.fn(nn + ".IsDecoded"))
		if !ok {
			panic(undecided{nn + ".IsDecoded does not return a field"})
		}
		t.decoded = fmt.Sprint(i)
	}
	return t
}

func (t *trieInfo) nodePtr(id int) sv { return sIface{ptrTo(t.nodeT), sPtr{id, ""}} }

// newNode brings a node into view
func (t *trieInfo) newNode(st *sst, depth sInt, parent sv) int {
	id := st.newObj(t.nodeT)
	m := st.newObj(t.mapT)
	o := st.heap[id]
	o.cells[t.childs] = sPtr{m, ""}
	o.cells[t.key] = sKeyOf{id}
	o.cells[tDepth] = depth
	o.cells[tLink] = sBool(true)
	if parent != nil {
		o.cells[t.parent] = parent
	}
	if t.decoded != "" {
		o.cells[t.decoded] = sBool(true)
	}
	b := st.id()
	st.lo[b] = 0
	st.heap[m].cells[tOther] = sInt{b, 0}
	return id
}

func (t *trieInfo) is(st *sst, id int, typ typeT) bool {
	o := st.heap[id]
	return o != nil && identical(o.typ, typ)
}

func (t *trieInfo) flag(st *sst, id int, k string) bool {
	b, ok := st.heap[id].cells[k].(sBool)
	return ok && bool(b)
}

// owner is the node a map of children belongs to
func (t *trieInfo) owner(st *sst, v sv) (int, int) {
	p, ok := v.(sPtr)
	if !ok {
		if _, isN := v.(sNil); isN {
			panic(crash{"nil dereference"})
		}
		panic(undecided{fmt.Sprintf("children: %T", v)})
	}
	for id, o := range st.heap {
		if identical(o.typ, t.nodeT) && o.cells[t.childs] == sv(p) {
			return id, p.obj
		}
	}
	panic(undecided{"the map does not belong to a node"})
}

// subkey is what a key of a map of children stands for
func (t *trieInfo) subkey(st *sst, v sv) sv {
	if i, ok := v.(sIface); ok {
		v = i.v
	}
	p, ok := v.(sPtr)
	if !ok {
		panic(undecided{"unknown key of a child"})
	}
	for _, k := range sortedCells(st.heap[p.obj]) {
		switch w := st.heap[p.obj].cells[k].(type) {
		case sSub, sKeyOf:
			return w
		}
	}
	panic(undecided{"unknown key of a child"})
}

// place checks that a key of a map is that of the path at the node; if the
// key is that of a node, it is returned
func (t *trieInfo) place(st *sst, own int, key sv) int {
	d, ok := st.heap[own].cells[tDepth].(sInt)
	switch k := key.(type) {
	case sSub:
		if !ok || d.base != k.pos.base {
			panic(undecided{"the depth of the node is not known"})
		}
		if d != k.pos {
			panic(crash{fmt.Sprintf("part %+d of the key is looked for among the children of a node at depth %+d", k.pos.k, d.k)})
		}
		return 0
	case sKeyOf:
		c := st.heap[k.node]
		if c == nil {
			panic(undecided{"the key of an unknown node"})
		}
		p := t.parentOf(st, k.node)
		if i, ok := p.(sIface); !ok || i.v != sv(sPtr{own, ""}) {
			panic(crash{"a child is looked for in a node that is not its parent"})
		}
		return k.node
	}
	panic(undecided{"unknown key of a child"})
}

func (t *trieInfo) parentOf(st *sst, id int) sv {
	o := st.heap[id]
	if v, ok := o.cells[t.parent]; ok {
		return v
	}
	v, _ := t.lazyParent(st, id)
	return v
}

// lazyParent brings the parent of a node into view
func (t *trieInfo) lazyParent(st *sst, id int) (sv, bool) {
	o := st.heap[id]
	if !identical(o.typ, t.nodeT) || !t.flag(st, id, tLink) {
		return nil, false
	}
	if t.flag(st, id, tRoot) {
		o.cells[t.parent] = sNil{}
		return sNil{}, true
	}
	d := o.cells[tDepth].(sInt)
	up := sInt{d.base, d.k - 1}
	set := func(s *sst, p int) {
		s.heap[id].cells[t.parent] = t.nodePtr(p)
		m := s.heap[p].cells[t.childs].(sPtr)
		s.heap[m.obj].cells[tChild] = t.nodePtr(id)
	}
	for other, q := range st.heap {
		if other == id || !identical(q.typ, t.nodeT) || !t.flag(st, other, tLink) {
			continue
		}
		e, ok := q.cells[tDepth].(sInt)
		switch {
		case !ok || e == up:
			if !ok {
				panic(undecided{"the depth of a node is not known"})
			}
			set(st, other)
			return o.cells[t.parent], true
		case t.flag(st, other, tRoot):
		case e.base != up.base:
			panic(undecided{"two nodes of the path of which the order is not known"})
		}
	}
	if d.base == 0 {
		if d.k < 2 {
			panic(undecided{"depth"})
		}
		p := t.newNode(st, up, nil)
		set(st, p)
		return o.cells[t.parent], true
	}
	panic(needFork{func(s *sst) []*sst {
		var r []*sst
		if lo, ok := s.lo[d.base]; !ok || lo+d.k <= 1 {
			a := s.clone()
			a.rebase(d.base, sInt{0, 1 - d.k})
			set(a, t.rootID)
			r = append(r, a)
		}
		b := s.clone()
		if lo, ok := b.lo[d.base]; !ok || lo+d.k < 2 {
			b.lo[d.base] = 2 - d.k
		}
		set(b, t.newNode(b, up, nil))
		return append(r, b)
	}})
}

// rebase puts base + k everywhere as to + k
func (st *sst) rebase(base int, to sInt) {
	st.subst(func(v sv) (sv, bool) {
		switch v := v.(type) {
		case sInt:
			if v.base == base {
				return sInt{to.base, v.k + to.k}, true
			}
		case sSub:
			if v.pos.base == base {
				return sSub{v.list, sInt{to.base, v.pos.k + to.k}}, true
			}
		}
		return nil, false
	})
	for _, m := range st.marks {
		ints, cur := map[string]sInt{}, map[int]sInt{}
		for k, v := range m.ints {
			if v.base == base {
				v = sInt{to.base, v.k + to.k}
			}
			ints[k] = v
		}
		for k, v := range m.cur {
			if v.base == base {
				v = sInt{to.base, v.k + to.k}
			}
			cur[k] = v
		}
		m.ints, m.cur = ints, cur
	}
	for _, o := range st.heap {
		if o.isArr && o.cursor.base == base {
			o.cursor = sInt{to.base, o.cursor.k + to.k}
		}
		if o.isArr && o.length.base == base {
			o.length = sInt{to.base, o.length.k + to.k}
		}
	}
}

// child is what a node has for the next part of the key
func (t *trieInfo) child(st *sst, own, m int) sv {
	switch v := st.heap[m].cells[tChild].(type) {
	case sNil, sIface:
		return v
	case sSome:
		d := st.heap[own].cells[tDepth].(sInt)
		id := t.newNode(st, sInt{d.base, d.k + 1}, t.nodePtr(own))
		st.heap[m].cells[tChild] = t.nodePtr(id)
		return st.heap[m].cells[tChild]
	}
	panic(needFork{func(s *sst) []*sst {
		a, b := s.clone(), s.clone()
		a.heap[m].cells[tChild] = sNil{}
		b.heap[m].cells[tChild] = sSome{}
		return []*sst{a, b}
	}})
}

func (t *trieInfo) known(st *sst, v sv) int8 {
	switch v := v.(type) {
	case sNil:
		return 1
	case sTok:
		return st.nilk[v.id]
	case sIface:
		return 2
	}
	return 0
}

func (t *trieInfo) event(st *sst) {
	if t.readonly {
		panic(crash{"a lookup changes the trie"})
	}
}

// atEnd: the node is the one of the whole key
func (t *trieInfo) atEnd(st *sst, id int) bool {
	l := st.heap[t.list]
	d, ok := st.heap[id].cells[tDepth].(sInt)
	if l == nil || !ok {
		panic(undecided{"the position of a node is not known"})
	}
	return l.fin && d == l.cursor
}

func (t *trieInfo) shape() (*shape, *sst) {
	x := newShape(t.c)
	t.x = x
	st := newSst()
	t.trieID = st.newObj(t.trieT)
	t.rootID = t.newNode(st, sInt{}, sNil{})
	st.heap[t.rootID].cells[tRoot] = sBool(true)
	st.heap[t.trieID].cells[t.root] = t.nodePtr(t.rootID)
	if t.mapped {
		i, ok := accessed(t.c.r.fn("util.MappedTrie.IsDecoded"))
		if !ok {
			panic(undecided{"MappedTrie.IsDecoded does not return a field"})
		}
		st.heap[t.trieID].cells[fmt.Sprint(i)] = sBool(true)
	}
	t.ghost = st.newObj(t.trieT)
	t.keyTok = st.tok()
	st.nilk[t.keyTok.id] = 2
	// the key
	t.list = st.id()
	st.heap[t.list] = &sobj{typ: types.NewSlice(types.NewSlice(types.Typ[types.Byte])), cells: map[string]sv{}, isArr: true, plain: true, pristine: true, orig: map[string]int{}, curSet: true}
	st.roots = []int{t.trieID, t.ghost, t.list, t.rootID}
	isKey := func(recv sv) {
		if recv != sv(t.keyTok) {
			if _, ok := recv.(sNil); ok {
				panic(crash{"a nil key is used"})
			}
			panic(undecided{"another key is used"})
		}
	}
	x.invoke["IsEmpty"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		isKey(recv)
		x.setRes(st, []sv{sBool(st.heap[t.list].length == sInt{})})
		return nil
	}
	x.invoke["Key"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		isKey(recv)
		x.setRes(st, []sv{sArr{t.list}})
		return nil
	}
	x.invoke["EstBufSize"] = func(x *shape, st *sst, recv sv, args []sv) []*sst {
		switch r := recv.(type) {
		case sNil:
			panic(crash{"a method of a nil value is called"})
		case sTok:
			if x.tokNil(st, r.id) {
				panic(crash{"a method of a nil value is called"})
			}
		case sIface:
			if fn := t.c.r.prog.LookupMethod(r.typ, nil, "EstBufSize"); fn != nil {
				x.enterCall(st, fn, []sv{r.v})
				return nil
			}
		}
		x.setRes(st, []sv{sInt{st.id(), 0}})
		return nil
	}
	hook := func(op string, h func(st *sst, own, m int, args []sv) sv) {
		fn := t.c.need("collection.SortedMap." + op)
		if fn == nil {
			return
		}
		x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv {
			own, m := t.owner(st, args[0])
			return []sv{h(st, own, m, args[1:])}
		})
	}
	hook("Get", func(st *sst, own, m int, args []sv) sv {
		if n := t.place(st, own, t.subkey(st, args[0])); n != 0 {
			if !t.flag(st, n, tLink) {
				return sNil{}
			}
			return t.nodePtr(n)
		}
		v := t.child(st, own, m)
		if _, ok := v.(sNil); ok {
			st.heap[t.ghost].cells["~absent"] = sBool(true)
		}
		return v
	})
	hook("Put", func(st *sst, own, m int, args []sv) sv {
		t.event(st)
		key := t.subkey(st, args[0])
		i, ok := args[1].(sIface)
		var p sPtr
		if ok {
			p, ok = i.v.(sPtr)
		}
		if !ok || !t.is(st, p.obj, t.nodeT) {
			panic(crash{"something else than a node becomes a child"})
		}
		n := st.heap[p.obj]
		if t.flag(st, p.obj, tLink) {
			panic(crash{"a node that is in the trie becomes a child"})
		}
		sub, ok := key.(sSub)
		if !ok {
			panic(undecided{"the key of the new child is not known"})
		}
		t.place(st, own, key)
		if _, ok := t.child(st, own, m).(sNil); !ok {
			panic(crash{"a child takes the place of another one, and what is below that is lost"})
		}
		if q, ok := st.cell(n, t.parent).(sIface); !ok || q.v != sv(sPtr{own, ""}) {
			panic(crash{"a node becomes a child without having the node as its parent"})
		}
		if st.cell(n, t.key) != sv(key) {
			panic(crash{"a node becomes a child under another key than its own"})
		}
		if t.known(st, st.cell(n, t.data)) != 1 {
			panic(crash{"a new node has a value"})
		}
		cm, ok := st.cell(n, t.childs).(sPtr)
		if !ok || !t.is(st, cm.obj, t.mapT) {
			panic(crash{"a new node has no map for its children"})
		}
		if st.heap[cm.obj].cells[tOther] != sv(sInt{}) || st.heap[cm.obj].cells[tChild] != sv(sNil{}) {
			panic(crash{"a new node has children"})
		}
		for other, o := range st.heap {
			if other != p.obj && identical(o.typ, t.nodeT) && o.cells[t.childs] == sv(cm) {
				panic(crash{"two nodes share their children"})
			}
		}
		for _, l := range leafPaths(t.nodeT, "") {
			if _, ok := n.cells[l]; !ok {
				n.cells[l] = zeroSv(cellType(t.nodeT, l))
			}
		}
		n.alloc = false
		n.cells[t.key] = sKeyOf{p.obj}
		n.cells[tDepth] = sInt{sub.pos.base, sub.pos.k + 1}
		n.cells[tLink] = sBool(true)
		st.heap[m].cells[tChild] = t.nodePtr(p.obj)
		delete(st.heap[t.ghost].cells, "~absent")
		return sNil{}
	})
	hook("Remove", func(st *sst, own, m int, args []sv) sv {
		t.event(st)
		id := t.place(st, own, t.subkey(st, args[0]))
		if id == 0 {
			v := t.child(st, own, m)
			i, ok := v.(sIface)
			if !ok {
				return sNil{}
			}
			id = i.v.(sPtr).obj
		}
		if !t.flag(st, id, tLink) {
			return sNil{}
		}
		n := st.heap[id]
		if t.known(st, st.cell(n, t.data)) != 1 {
			panic(crash{"a node is removed that may have a value"})
		}
		cm := st.cell(n, t.childs).(sPtr)
		if _, ok := t.child(st, id, cm.obj).(sNil); !ok {
			panic(crash{"a node is removed that may have children"})
		}
		if b := st.heap[cm.obj].cells[tOther].(sInt); b != (sInt{}) {
			if hi, ok := st.hi[b.base]; !ok || hi+b.k > 0 {
				panic(crash{"a node is removed that may have children"})
			}
		}
		n.cells[tLink] = sBool(false)
		st.heap[m].cells[tChild] = sNil{}
		return t.nodePtr(id)
	})
	hook("Size", func(st *sst, own, m int, args []sv) sv {
		b := st.heap[m].cells[tOther].(sInt)
		if _, ok := t.child(st, own, m).(sNil); !ok {
			b.k++
		}
		return b
	})
	if fn := t.c.need("collection.NewSortedMap"); fn != nil {
		x.hookFn(fn, func(x *shape, st *sst, args []sv) []sv {
			m := st.newObj(t.mapT)
			st.heap[m].cells[tChild], st.heap[m].cells[tOther] = sNil{}, sInt{}
			return []sv{sPtr{m, ""}}
		})
	}
	x.lazy = func(st *sst, id int, path string) (sv, bool) {
		if path == t.parent {
			return t.lazyParent(st, id)
		}
		return nil, false
	}
	x.onWrite = func(st *sst, id int, path string, v sv) {
		switch {
		case id == t.trieID:
			if path == t.root {
				panic(crash{"the root is replaced"})
			}
			t.event(st)
		case t.is(st, id, t.mapT):
			panic(crash{"the children of a node are changed directly"})
		case t.is(st, id, t.nodeT) && !st.heap[id].alloc:
			t.event(st)
			switch path {
			case t.parent, t.childs, t.key:
				panic(crash{"the place of a node in the trie is changed"})
			case t.data:
				if !t.flag(st, id, tLink) {
					return
				}
				if !t.atEnd(st, id) {
					panic(crash{"the value of another key is changed"})
				}
				g := st.heap[t.ghost]
				if _, ok := g.cells["~old"]; !ok {
					g.cells["~old"] = st.cell(st.heap[id], path)
				}
				g.cells["~new"] = v
			}
		}
	}
	x.rank = func(st *sst, v sv) (sInt, bool) {
		if i, ok := v.(sIface); ok {
			v = i.v
		}
		if p, ok := v.(sPtr); ok && t.is(st, p.obj, t.nodeT) {
			d, ok := st.heap[p.obj].cells[tDepth].(sInt)
			return d, ok
		}
		return sInt{}, false
	}
	x.refold = t.fold
	return x, st
}

// fold takes out of view the nodes no variable points at
func (t *trieInfo) fold(st *sst, b *ssa.BasicBlock, phis []*ssa.Phi) {
	named := map[int]bool{t.rootID: true}
	var mark func(v sv)
	mark = func(v sv) {
		switch v := v.(type) {
		case sIface:
			mark(v.v)
		case sTup:
			for _, w := range v {
				mark(w)
			}
		case sKeyOf:
			mark(sPtr{v.node, ""})
		case sPtr:
			o := st.heap[v.obj]
			if o == nil || named[v.obj] {
				return
			}
			switch {
			case identical(o.typ, t.nodeT):
				named[v.obj] = true
				if !t.flag(st, v.obj, tLink) {
					for _, w := range o.cells {
						mark(w)
					}
				}
			case identical(o.typ, t.mapT):
				for id, n := range st.heap {
					if identical(n.typ, t.nodeT) && n.cells[t.childs] == sv(v) {
						mark(sPtr{id, ""})
					}
				}
			default:
				named[v.obj] = true
				for _, w := range o.cells {
					mark(w)
				}
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range sortedEnv(f) {
			mark(f.env[v])
		}
	}
	for _, v := range st.ret {
		mark(v)
	}
	hidden := func(v sv) bool {
		i, ok := v.(sIface)
		if !ok {
			return false
		}
		p, ok := i.v.(sPtr)
		return ok && t.is(st, p.obj, t.nodeT) && !named[p.obj]
	}
	for id, o := range st.heap {
		if !named[id] || !identical(o.typ, t.nodeT) || !t.flag(st, id, tLink) {
			continue
		}
		if hidden(o.cells[t.parent]) {
			delete(o.cells, t.parent)
		}
		if m, ok := o.cells[t.childs].(sPtr); ok && st.heap[m.obj] != nil && hidden(st.heap[m.obj].cells[tChild]) {
			st.heap[m.obj].cells[tChild] = sSome{}
		}
	}
	l := st.heap[t.list]
	c := l.cursor
	if c == (sInt{}) {
		return
	}
	// positions relative to how far the key has been read
	nb := st.id()
	st.lo[nb] = 1
	near := func(v sv) (sInt, bool) {
		i, ok := v.(sInt)
		if ok && i.base == c.base && i.k-c.k <= 1 && c.k-i.k <= 1 {
			return sInt{nb, i.k - c.k}, true
		}
		return sInt{}, false
	}
	if !l.fin {
		for _, p := range phis {
			f := st.frames[len(st.frames)-1]
			if n, ok := near(f.env[p]); ok {
				f.env[p] = n
			}
		}
		for id, o := range st.heap {
			if !named[id] || !identical(o.typ, t.nodeT) || t.flag(st, id, tRoot) {
				continue
			}
			if n, ok := near(o.cells[tDepth]); ok {
				o.cells[tDepth] = n
				if q, ok := o.cells[t.parent].(sIface); ok && q.v == sv(sPtr{t.rootID, ""}) {
					delete(o.cells, t.parent)
					m := st.heap[t.rootID].cells[t.childs].(sPtr)
					st.heap[m.obj].cells[tChild] = sSome{}
				}
			}
		}
		st.subst(func(v sv) (sv, bool) {
			if s, ok := v.(sSub); ok {
				if n, ok := near(s.pos); ok {
					return sSub{s.list, n}, true
				}
			}
			return nil, false
		})
		l.cursor = sInt{nb, 0}
		return
	}
	// the key has been read: depths that go on changing
	if !t.x.widen {
		return
	}
	bases := map[int]int{}
	for id, o := range st.heap {
		if !named[id] || !identical(o.typ, t.nodeT) || t.flag(st, id, tRoot) {
			continue
		}
		d, ok := o.cells[tDepth].(sInt)
		if !ok || d == c {
			continue
		}
		if bases[d.base] == 0 {
			bases[d.base] = st.id()
			st.lo[bases[d.base]] = 1
			bases[-1-d.base] = int(d.k)
		}
		if int64(bases[-1-d.base]) != d.k {
			return // several: leave it
		}
		o.cells[tDepth] = sInt{bases[d.base], 0}
	}
}

func checkTrie(c *Check) {
	for _, mapped := range []bool{false, true} {
		mapped := mapped
		name := "util.Trie"
		if mapped {
			name = "util.MappedTrie"
		}
		if fn := c.need(name + ".Get"); fn != nil {
			c.guard("decided", fname(fn), func() { newTrieInfo(c, mapped).get(fn) })
		}
		if !mapped {
			if fn := c.need(name + ".Set"); fn != nil {
				c.guard("decided", fname(fn), func() { newTrieInfo(c, mapped).set(fn) })
			}
		}
	}
	if fn := c.need("util.NewTrie"); fn != nil {
		c.guard("decided", fname(fn), func() { newTrieInfo(c, false).create(fn) })
	}
	c.items["states executed"] = c.steps
	c.min["no-crash"] = 3
	c.min["looks-up"] = 2
	c.min["sets"] = 1
	c.min["returns"] = 1
	c.min["ends"] = 3
}

// starts are the states before an operation: an empty key, and one that is not
func (t *trieInfo) starts() []*sst {
	_, st := t.shape()
	a, b := st.clone(), st.clone()
	a.heap[t.list].fin = true
	l := b.id()
	b.lo[l] = 1
	b.heap[t.list].length = sInt{l, 0}
	return []*sst{a, b}
}

func (t *trieInfo) run(fn *ssa.Function, s *sst, args ...sv) []*sst {
	t.x.start(s, fn, args...)
	var r []*sst
	for _, o := range t.x.run(s) {
		msg := o.panicV
		t.c.oblige("no-crash", fname(fn), msg == "", func() string { return msg })
		if msg == "" {
			r = append(r, o)
		}
	}
	t.x.terminates(func(construct, bad string) { t.c.oblige("ends", construct, bad == "", func() string { return bad }) })
	return r
}

// end is the node of the whole key, if it is in view
func (t *trieInfo) end(o *sst) int {
	for id, n := range o.heap {
		if identical(n.typ, t.nodeT) && t.flag(o, id, tLink) && t.atEnd(o, id) {
			return id
		}
	}
	return 0
}

func (t *trieInfo) get(fn *ssa.Function) {
	for _, s := range t.starts() {
		t.readonly = true
		for _, o := range t.run(fn, s, sPtr{t.trieID, ""}, t.keyTok) {
			bad := ""
			if n := t.end(o); n != 0 {
				if !sameSv(o, o.ret[0], o.cell(o.heap[n], t.data)) {
					bad = "what is returned is not the value of the key"
				}
			} else if !t.flag(o, t.ghost, "~absent") {
				bad = "returns without having looked for the whole key"
			} else if !sameSv(o, o.ret[0], sNil{}) {
				bad = "something is returned for a key that is not there"
			}
			t.c.oblige("looks-up", fname(fn), bad == "", func() string { return bad })
		}
	}
}

func (t *trieInfo) set(fn *ssa.Function) {
	for i := 0; i < 2; i++ {
		for _, s := range t.starts() {
			var d sv = sNil{}
			if i == 1 {
				v := s.tok()
				s.nilk[v.id] = 2
				d = v
			}
			for _, o := range t.run(fn, s, sPtr{t.trieID, ""}, t.keyTok, d) {
				g := o.heap[t.ghost]
				old, wrote := g.cells["~old"]
				bad := ""
				switch {
				case wrote:
					if !sameSv(o, g.cells["~new"], d) {
						bad = "the value the key has afterwards is not the one given"
					}
				case t.flag(o, t.ghost, "~absent"):
					old = sNil{}
					if i == 1 {
						bad = "the value is not stored"
					}
				default:
					if n := t.end(o); n != 0 && i == 0 {
						old = o.cell(o.heap[n], t.data)
						if !sameSv(o, old, sNil{}) {
							bad = "the value is not cleared"
						}
					} else {
						bad = "the value is not stored"
					}
				}
				t.c.oblige("sets", fname(fn), bad == "", func() string { return bad })
				if bad == "" {
					t.c.oblige("returns", fname(fn), sameSv(o, o.ret[0], old), func() string { return "what is returned is not the value the key had before" })
				}
			}
		}
	}
}

// create: a new trie has a root with no value and no children
func (t *trieInfo) create(fn *ssa.Function) {
	x, st := t.shape()
	st.roots = nil
	x.onWrite = nil
	x.start(st, fn)
	for _, o := range x.run(st) {
		bad := o.panicV
		if bad == "" {
			p, ok := o.ret[0].(sPtr)
			var r sPtr
			if ok {
				var i sIface
				if i, ok = o.cell(o.heap[p.obj], t.root).(sIface); ok {
					r, ok = i.v.(sPtr)
				}
			}
			switch {
			case !ok || !t.is(o, r.obj, t.nodeT):
				bad = "there is no root"
			case t.known(o, o.cell(o.heap[r.obj], t.parent)) != 1:
				bad = "the root has a parent"
			case t.known(o, o.cell(o.heap[r.obj], t.data)) != 1:
				bad = "the root has a value"
			default:
				m, ok := o.cell(o.heap[r.obj], t.childs).(sPtr)
				if !ok || o.heap[m.obj].cells[tOther] != sv(sInt{}) || o.heap[m.obj].cells[tChild] != sv(sNil{}) {
					bad = "the root does not have an empty map of children"
				}
			}
		}
		t.c.oblige("created", fname(fn), bad == "", func() string { return bad })
	}
}
