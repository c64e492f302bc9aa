package main

// Tables of chains.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type typeT = types.Type

func identical(a, b types.Type) bool { return types.Identical(a, b) }
func ptrTo(t types.Type) types.Type  { return types.NewPointer(t) }
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sMark stands for the bytes a hash function is given
type sMark struct{}

func (x *shape) loadArr(st *sst, id int, o *sobj, path string) sv {
	v, ok := o.cells[path]
	if !ok {
		panic(undecided{"read of an unknown part of a table"})
	}
	return v
}

func (x *shape) storeArr(st *sst, id int, o *sobj, path string, v sv) {
	if _, ok := o.cells[path]; !ok {
		panic(undecided{"write to an unknown part of a table"})
	}
	o.cells[path] = v
}

func (x *shape) makeSlice(st *sst, n sv, in *ssa.MakeSlice) sv {
	elem := in.Type().Underlying().(*types.Slice).Elem()
	e := x.nodeFor(derefT(elem))
	i, ok := n.(sInt)
	if x.stackOf != nil && x.stackOf(elem) && i == (sInt{}) {
		return sStk{}
	}
	if e == nil || !e.list() || !ok {
		panic(undecided{"make"})
	}
	if x.lowInt(st, i) < 0 {
		panic(crash{"a table is made with a size that may be negative"})
	}
	id := st.id()
	st.heap[id] = &sobj{typ: in.Type(), cells: map[string]sv{}, isArr: true, alloc: true, length: i, orig: map[string]int{}, elem: e}
	return sArr{id}
}

// newTable makes a table that was there before, of unknown content
func (x *shape) newTable(st *sst, t types.Type, n *nodeType) int {
	id := st.id()
	l := st.id()
	st.lo[l] = 1
	st.heap[id] = &sobj{typ: t, cells: map[string]sv{}, isArr: true, pristine: true, length: sInt{l, 0}, orig: map[string]int{}, elem: n}
	return id
}

// chain gives the path of the chain of a key's slot
func (x *shape) chain(st *sst, o *sobj, tok int) string {
	for _, k := range sortedOrig(o) {
		t := 0
		fmt.Sscan(k[1:], &t)
		if t == tok || st.fact(t, tok) == rEQ {
			return k
		}
		if !o.alloc { // what is in a chain belongs to its slot
			for _, it := range st.flat([]sitem{segItem(o.orig[k])}) {
				if it.kind == 'e' && tokID(it.k) == tok {
					return k
				}
			}
		}
	}
	if !o.alloc && len(o.orig) > 0 {
		panic(undecided{"the slot of another key is used"})
	}
	// any other slot may be the same one
	x.absorb(st, o)
	k := fmt.Sprintf("@%d", tok)
	t := x.newTree(st, o.elem, ht{})
	o.orig[k] = st.trees[t.id].items[0].id
	o.cells[k] = t
	return k
}

func sortedOrig(o *sobj) []string {
	var ks []string
	for k := range o.orig {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *shape) indexArr(st *sst, b sArr, i sv) sv {
	o := st.heap[b.obj]
	switch i := i.(type) {
	case sSlot:
		if a := st.heap[i.arr]; i.arr != b.obj && (a == nil || a.length != o.length) {
			panic(crash{"a slot number of another table is used: it may be out of range"})
		}
		if x.slotBy != nil {
			x.slotBy[i.by] = true
		}
		return sPtr{b.obj, x.chain(st, o, i.tok)}
	case sInt:
		key := fmt.Sprintf("#%d+%d", i.base, i.k)
		if _, ok := o.cells[key]; ok {
			return sPtr{b.obj, key}
		}
		if !o.curSet || i != o.cursor {
			panic(undecided{"access to a table other than slot by slot or by hash"})
		}
		if !o.more {
			panic(crash{"index may be out of range"})
		}
		if o.plain {
			o.cells[key] = sSub{b.obj, o.cursor}
			o.more = false
			o.cursor.k++
			return sPtr{b.obj, key}
		}
		c, r := st.id(), st.id()
		st.exp[o.rest] = []sitem{segItem(c), segItem(r)}
		o.rest, o.more = r, false
		o.cursor.k++
		id := st.id()
		st.trees[id] = &stree{items: []sitem{segItem(c)}, node: o.elem}
		o.cells[key] = sAbs{id}
		return sPtr{b.obj, key}
	}
	panic(undecided{fmt.Sprintf("index %T into a table", i)})
}

// cmpCursor compares the position of an enumeration with the length of the table
func (x *shape) cmpCursor(st *sst, op token.Token, a, b sInt) (sv, bool) {
	for id, o := range st.heap {
		if !o.isArr || !o.curSet {
			continue
		}
		switch {
		case a.base == o.cursor.base && a.k < o.cursor.k && b == o.length:
			r, _ := cmpInt(op, -1)
			return sBool(r), true
		case b.base == o.cursor.base && b.k < o.cursor.k && a == o.length:
			r, _ := cmpInt(op, 1)
			return sBool(r), true
		case a == o.cursor && b == o.length:
		case b == o.cursor && a == o.length:
			sw := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			op = sw[op]
		default:
			continue
		}
		switch op {
		case token.LEQ:
			return sBool(true), true
		case token.GTR:
			return sBool(false), true
		}
		if !o.more && !o.fin {
			id := id
			panic(needFork{func(s *sst) []*sst {
				p, q := s.clone(), s.clone()
				p.heap[id].more = true
				q.heap[id].fin = true
				if !q.heap[id].plain {
					q.exp[q.heap[id].rest] = nil
				}
				return []*sst{p, q}
			}})
		}
		r, _ := cmpInt(op, -1)
		if o.fin {
			r, _ = cmpInt(op, 0)
		}
		return sBool(r), true
	}
	return nil, false
}

// freeze: what is part of a structure the state no longer follows must not be written to
func (st *sst) freeze(v sv) {
	switch v := v.(type) {
	case sPtr:
		o := st.heap[v.obj]
		if o == nil || o.node == nil || o.frozen {
			return
		}
		o.frozen = true
		for _, l := range o.node.links {
			st.freeze(st.cell(o, l))
		}
	case sAbs:
		st.trees[v.id].frozen = true
		for _, it := range st.trees[v.id].items {
			if it.kind == 'n' {
				st.freeze(sPtr{it.id, ""})
			}
		}
	}
}

// absorb accounts for what was put into the chains of a new table
func (x *shape) absorb(st *sst, o *sobj) {
	for _, k := range sortedOrig(o) {
		tok := 0
		fmt.Sscan(k[1:], &tok)
		got := st.seqOf(o.cells[k])
		was := st.flat([]sitem{segItem(o.orig[k])})
		for _, w := range was {
			i := posIn(got, w)
			if i == len(got) {
				st.note("entries already in a slot of the new table are lost")
				continue
			}
			got = append(append([]sitem(nil), got[:i]...), got[i+1:]...)
		}
		for _, e := range got {
			switch {
			case e.kind != 'e':
				st.note("a chain is put into a slot that its entries may not belong to")
			case tokID(e.k) != tok && st.fact(tokID(e.k), tok) != rEQ:
				st.note("an entry is put into a slot that is not its own")
			}
			st.moved = append(st.moved, e)
			if st.into != 0 && st.heap[st.into] != o {
				st.note("entries go into two tables")
			}
			for id, p := range st.heap {
				if p == o {
					st.into = id
				}
			}
		}
		st.freeze(o.cells[k])
		delete(o.cells, k)
		delete(o.orig, k)
	}
}

// total is what the chain of a key accounts for: what it holds, and if the
// table was rebuilt, what the old chain held for what the new one held then
func (x *shape) total(st *sst, o *sobj, key string) []sitem {
	its := st.seqOf(o.cells[key])
	if !o.snapOK {
		return its
	}
	r := st.flat(o.snap)
	for _, w := range st.flat([]sitem{segItem(o.orig[key])}) {
		i := posIn(its, w)
		if i == len(its) {
			if i = posIn(r, w); i == len(r) {
				return append(r, segItem(st.id())) // something is missing
			}
			r = append(append([]sitem(nil), r[:i]...), r[i+1:]...)
			continue
		}
		its = append(append([]sitem(nil), its[:i]...), its[i+1:]...)
	}
	return append(r, its...)
}

func (x *shape) settleArrays(st *sst) {
	for _, id := range x.reach(st).objs {
		o := st.heap[id]
		if !o.isArr {
			continue
		}
		if o.alloc {
			x.absorb(st, o)
		}
		for _, k := range sortedCells(o) {
			if strings.HasPrefix(k, "#") {
				delete(o.cells, k)
			}
		}
	}
}

// invHash: the hash of a key under the hash function given
func invHash(x *shape, st *sst, recv sv, args []sv) []*sst {
	if _, ok := recv.(sNil); ok {
		panic(crash{"hash of a nil key"})
	}
	t, ok := unwrapTok(recv)
	if !ok || len(args) != 1 {
		panic(undecided{"hash of something else than a key"})
	}
	if x.tokNil(st, t) {
		panic(crash{"hash of a nil key"})
	}
	f, ok := args[0].(sFn)
	if !ok {
		panic(undecided{"hash by an unknown function"})
	}
	x.setRes(st, []sv{sHashV{t, x.hashBy(st, f)}})
	return nil
}

// hashBy names a hash function by what it calls on the bytes
func (x *shape) hashBy(st *sst, f sFn) string {
	if f.fn.Blocks == nil {
		return fname(f.fn)
	}
	y := newShape(x.c)
	y.nodes, y.owner, y.seedBase = x.nodes, x.owner, x.seedBase
	s := st.clone()
	s.frames = nil
	s.visits = map[string]int{}
	s.marks = map[string]*smark{}
	y.start(s, f.fn, sMark{})
	for i, fv := range f.fn.FreeVars {
		s.frames[0].env[fv] = f.bind[i]
	}
	by := ""
	for _, o := range y.run(s) {
		if o.panicV != "" {
			panic(crash{o.panicV})
		}
		h, ok := o.ret[0].(sHashV)
		if !ok || by != "" && h.by != by {
			panic(undecided{"the hash function is not determined"})
		}
		by = h.by
	}
	return by
}

// markCall: a function applied to the bytes being hashed
func (x *shape) markCall(st *sst, fn string, args []sv) bool {
	marked := false
	var p []string
	for _, a := range args {
		switch a := a.(type) {
		case sMark:
			marked = true
			p = append(p, "bytes")
		case sInt:
			switch a.base {
			case 0:
				p = append(p, fmt.Sprint(a.k))
			case x.seedBase:
				p = append(p, fmt.Sprintf("seed%+d", a.k))
			default:
				p = append(p, "something that varies")
			}
		case sPtr:
			p = append(p, "object")
		default:
			p = append(p, fmt.Sprintf("%T", a))
		}
	}
	if marked {
		x.setRes(st, []sv{sHashV{0, fn + "(" + strings.Join(p, ",") + ")"}})
	}
	return marked
}

func isSliceOf(t, e types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), e)
}
