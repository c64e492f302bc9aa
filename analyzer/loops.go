package main

// Loops. A loop is summarised by an inductive description of its state at
// the start of iteration k, for an arbitrary k >= 0: each variable and each
// modified memory location is constant, an affine function of k, a prefix
// sum, a content grown by one body per iteration, ... or an unknown function
// of k limited by linear invariants. A description is proposed from the effect
// of one arbitrary iteration, and accepted only if it holds on entry and is
// preserved by every path through the body.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tnode struct {
	id    string
	ty    types.Type
	init  Value
	kind  string // const affine sum layout rec unknown | same acc | grow pref | struct
	L     Lin    // integer template
	step  Lin    // rec: the next value
	c     *Content
	kids  []*tnode
	tries map[string]int
	nonn  bool // unknown, but never nil
	own   bool // unknown, but always nil or an array the function made
	lv    *Term
	cand  int
	tail  *Content
	keep  bool // fill: the elements from k on are those on entry
	sign  int  // a layout it may follow goes up (1) or down (-1)
}

type nv struct {
	st *State
	v  Value
}

type loopCtx struct {
	x     *Exec
	k     *Term
	mark  string
	sk    map[string]skTmpl
	entry *State
	inv   []con
	seen  map[string]bool
	drift map[string]int
	mults []int64 // what the loop multiplies by
}

func (lc *loopCtx) node(id string, ty types.Type, v Value) *tnode {
	n := &tnode{id: id, ty: ty, init: v, kind: "const", tries: map[string]int{}}
	if s, ok := v.(VStruct); ok {
		n.kind = "struct"
		su := ty.Underlying().(*types.Struct)
		for i := range s.F {
			n.kids = append(n.kids, lc.node(fmt.Sprintf("%s.%d", id, i), su.Field(i).Type(), s.F[i]))
		}
	}
	return n
}

func (lc *loopCtx) term(n *tnode, sfx string) *Term {
	return mkTerm("lv:"+n.id+sfx, lc.mark, LT(lc.k))
}

// value is the header value at iteration k; objects it needs are put into st
func (lc *loopCtx) value(st *State, n *tnode) Value {
	switch n.kind {
	case "const":
		return n.init
	case "struct":
		f := make([]Value, len(n.kids))
		for i, k := range n.kids {
			f[i] = lc.value(st, k)
		}
		return VStruct{f}
	case "affine", "sum", "layout", "rec":
		return VInt{n.L}
	case "same":
		s := n.init.(VSlice)
		return VSlice{Obj: s.Obj, Path: s.Path, Off: intOf(lc.value(st, n.kids[0])), Len: intOf(lc.value(st, n.kids[1])), Cap: intOf(lc.value(st, n.kids[2])), Nil: s.Nil}
	case "acc":
		s, _ := n.init.(VSlice)
		o := mkTerm("new:acc:"+n.id+":"+typeKey(n.ty), lc.mark, LT(lc.k))
		objType[o] = types.NewArray(elemType(n.ty), -1)
		ln := n.c.length()
		slack := setRange(lc.term(n, ".slack"), big0, pow2(40))
		st.heap[o] = VArr{content(append(append([]Seg{}, n.c.segs...), Seg{K: 'z', N: LT(slack)})...)}
		r := VSlice{Obj: o, Off: LC(0), Len: ln, Cap: ln.add(LT(slack))}
		if s.Obj == nil || s.Nil != nil {
			r.Nil = lc.term(n, ".nil")
			if n.nonn {
				c := condNil(r.Nil)
				st.facts[c.k] = fact{c, false}
			}
		}
		return r
	case "grow":
		return VStr{n.c}
	case "pref":
		return VArr{n.c}
	case "fill":
		src := mkTerm("fill:"+n.id, lc.mark, LT(lc.k))
		rest := lc.term(n, ".rest")
		for _, t := range []*Term{src, rest} {
			if objType[t] == nil {
				objType[t] = types.NewArray(elemType(n.ty), -1)
			}
		}
		total := n.init.(VArr).C.length()
		if n.keep {
			post := lc.entry.sub(n.init.(VArr).C, LT(lc.k), total.sub(LT(lc.k)))
			return VArr{content(append([]Seg{{K: 'b', Src: src, Off: LC(0), N: LT(lc.k)}}, post.segs...)...)}
		}
		return VArr{content(Seg{K: 'b', Src: src, Off: LC(0), N: LT(lc.k)}, Seg{K: 'b', Src: rest, Off: LT(lc.k), N: total.sub(LT(lc.k))})}
	}
	// unknown
	switch v := n.init.(type) {
	case VArr:
		src := lc.term(n, ".arr")
		if objType[src] == nil {
			objType[src] = n.ty
		}
		return VArr{content(Seg{K: 'b', Src: src, Off: LC(0), N: v.C.length()})}
	case VInt:
		t := lc.term(n, "")
		if lo, hi, ok := sizeRange(n.ty); ok {
			setRange(t, lo, hi)
		}
		n.lv = t
		return VInt{LT(t)}
	}
	t := lc.term(n, "")
	n.lv = t
	if n.nonn {
		c := condNil(t)
		st.facts[c.k] = fact{c, false}
	}
	r := symVal(t, n.ty)
	if q, ok := r.(VSlice); ok {
		if n.own {
			madeInLoop[q.Obj] = true
		} else {
			delete(madeInLoop, q.Obj)
		}
	}
	return r
}

// madeInLoop: arrays of unknown slices that are among those the function made
var madeInLoop = map[*Term]bool{}

func (lc *loopCtx) next(l Lin) Lin { return substLin1(lc.k, LT(lc.k).addc(1)).L(l) }
func (lc *loopCtx) nextC(c *Content) *Content {
	return substLin1(lc.k, LT(lc.k).addc(1)).C(c)
}

// verify: every new value is the template at k+1
func (lc *loopCtx) verify(n *tnode, news []nv) bool {
	switch n.kind {
	case "const":
		for _, w := range news {
			if !w.st.eqVal(w.v, n.init) {
				return false
			}
		}
		return true
	case "struct":
		ok := true
		for i, k := range n.kids {
			if !lc.verify(k, fieldNews(news, i)) {
				ok = false
			}
		}
		return ok
	case "rec":
		s := newSubst()
		s.lin[n.acc()] = n.L
		s.lin[mkTerm("%rk")] = LT(lc.k)
		want := s.L(n.step)
		for _, w := range news {
			i, ok := w.v.(VInt)
			if !ok || !w.st.eqL(i.L, w.st.decided(want)) {
				return false
			}
		}
		return true
	case "affine", "sum", "layout":
		want := lc.next(n.L)
		for _, w := range news {
			i, ok := w.v.(VInt)
			if !ok || !w.st.eqL(i.L, want) {
				if debugLoop && ok && n.kind == "layout" {
					fmt.Fprintf(os.Stderr, "  layout mismatch: got %s\n%s\n", i.L, w.st.dump())
				}
				return false
			}
		}
		return true
	case "same":
		s := n.init.(VSlice)
		for _, w := range news {
			q, ok := w.v.(VSlice)
			if !ok || q.Obj != s.Obj || !w.st.eqPath(q.Path, s.Path) || q.Nil != s.Nil {
				return false
			}
		}
		ok := true
		for i, k := range n.kids {
			if !lc.verify(k, sliceNews(news, i)) {
				ok = false
			}
		}
		return ok
	case "acc":
		want := lc.nextC(n.c)
		for _, w := range news {
			q, ok := w.v.(VSlice)
			if !ok {
				return false
			}
			if q.Obj != nil && !isAlloc(q.Obj) {
				return false
			}
			if !w.st.eqContent(w.st.bytesOf(q), want) {
				if debugLoop {
					fmt.Fprintf(os.Stderr, "  acc %s mismatch:\n    got  %s\n    want %s\n", n.id, w.st.norm(w.st.bytesOf(q)), w.st.norm(want))
				}
				return false
			}
			if n.nonn && w.st.isNil(q) != -1 {
				n.nonn = false
				return false
			}
			if (q.Obj == nil || q.Nil != nil && w.st.isNil(q) != -1) && n.init.(VSlice).Obj != nil && n.init.(VSlice).Nil == nil {
				return false
			}
		}
		return true
	case "grow":
		want := lc.nextC(n.c)
		for _, w := range news {
			q, ok := w.v.(VStr)
			if !ok || !w.st.eqContent(q.C, want) {
				return false
			}
		}
		return true
	case "pref":
		want := lc.nextC(n.c)
		for _, w := range news {
			q, ok := w.v.(VArr)
			if !ok || !w.st.eqContent(q.C, want) {
				if debugLoop && ok {
					fmt.Fprintf(os.Stderr, "  pref %s mismatch:\n    got  %s\n    want %s\n", n.id, w.st.norm(q.C), w.st.norm(want))
				}
				return false
			}
		}
		return true
	}
	if n.kind == "fill" {
		// the elements before k are left alone and the k-th is not nil
		src := mkTerm("fill:"+n.id, lc.mark, LT(lc.k))
		total := n.init.(VArr).C.length()
		for _, w := range news {
			a, ok := w.v.(VArr)
			if !ok || !w.st.ge(total.sub(LT(lc.k)).addc(-1)) {
				return false
			}
			pre := w.st.sub(a.C, LC(0), LT(lc.k))
			if !w.st.eqContent(pre, content(Seg{K: 'b', Src: src, Off: LC(0), N: LT(lc.k)})) {
				return false
			}
			e := w.st.at(a.C, LT(lc.k), elemType(n.ty))
			if e == nil || w.st.isNil(e) != -1 {
				return false
			}
			if f, ok := e.(VIface); ok && w.st.isNil(f.V) != -1 {
				return false
			}
			if n.keep {
				k1, n1 := LT(lc.k).addc(1), total.sub(LT(lc.k)).addc(-1)
				if !w.st.eqContent(w.st.sub(a.C, k1, n1), w.st.sub(n.init.(VArr).C, k1, n1)) {
					return false
				}
			}
		}
		return true
	}
	if n.own {
		for _, w := range news {
			if q, ok := w.v.(VSlice); !ok || q.Obj != nil && !isAlloc(q.Obj) && !madeInLoop[q.Obj] {
				n.own = false
				return false
			}
		}
	}
	if n.nonn {
		for _, w := range news {
			if w.st.isNil(w.v) != -1 {
				n.nonn = false
				return false
			}
		}
	}
	return true
}

func fieldNews(news []nv, i int) []nv {
	var r []nv
	for _, w := range news {
		if s, ok := w.v.(VStruct); ok {
			r = append(r, nv{w.st, s.F[i]})
		}
	}
	return r
}

func sliceNews(news []nv, i int) []nv {
	var r []nv
	for _, w := range news {
		if s, ok := w.v.(VSlice); ok && s.Obj != nil {
			r = append(r, nv{w.st, VInt{[]Lin{s.Off, s.Len, s.Cap}[i]}})
		}
	}
	return r
}

// propose finds a better or weaker description after a round; it returns
// whether the description changed
func (lc *loopCtx) propose(n *tnode, news []nv, ok bool) bool {
	if len(news) == 0 {
		return false
	}
	try := func(kind string, max int) bool {
		if n.tries[kind] >= max {
			return false
		}
		n.tries[kind]++
		return true
	}
	switch n.kind {
	case "struct":
		ch := false
		for i, k := range n.kids {
			fn := fieldNews(news, i)
			if lc.propose(k, fn, lc.verify(k, fn)) {
				ch = true
			}
		}
		return ch
	case "same":
		for _, w := range news {
			q, okk := w.v.(VSlice)
			s := n.init.(VSlice)
			if !okk || q.Obj != s.Obj || !w.st.eqPath(q.Path, s.Path) || q.Nil != s.Nil {
				n.kind = "unknown"
				n.nonn = lc.entry.isNil(n.init) == -1
				return true
			}
		}
		ch := false
		for i, k := range n.kids {
			// what is cut off its front moves its start up, and its length down
			k.sign = 1
			if i > 0 {
				k.sign = -1
			}
			fn := sliceNews(news, i)
			if lc.propose(k, fn, lc.verify(k, fn)) {
				ch = true
			}
		}
		return ch
	}
	if ok && n.kind != "unknown" && !(n.kind == "acc" && n.tail != nil) && !n.keep {
		return false
	}
	switch init := n.init.(type) {
	case VInt:
		cur := Lin{}
		switch n.kind {
		case "const":
			cur = init.L
		case "unknown":
			cur = LT(n.lv)
		default:
			n.kind = "unknown"
			return true
		}
		// a common difference
		d, same := lc.commonDiff(news, cur)
		if same {
			if c, isc := d.int(); isc && c != 0 && try("affine", 1) {
				n.kind, n.L = "affine", init.L.add(LT(lc.k).mulc(c))
				return true
			}
			if _, isc := d.int(); n.kind == "unknown" && !isc && lc.layoutGuess(n, init) {
				return true
			}
			if n.kind == "unknown" && !d.dep(n.lv) && !lc.depUnknownSelf(d) {
				st := news[0].st
				if st.ge(d) && try("sum", 2) {
					body := lc.sumBody(st, d)
					n.kind, n.L = "sum", init.L.add(psumLin(body, LT(lc.k)))
					return true
				}
				if st.ge(d.neg()) && try("sum", 2) {
					body := lc.sumBody(st, d.neg())
					n.kind, n.L = "sum", init.L.sub(psumLin(body, LT(lc.k)))
					return true
				}
			}
		}
		if n.kind == "const" {
			n.kind = "unknown"
			return true
		}
		if lc.layoutGuess(n, init) {
			return true
		}
		// a recurrence
		if e, okr := lc.commonRec(news, n.lv); okr && try("rec", 2) {
			s := newSubst()
			s.lin[n.lv] = LT(n.acc())
			s.lin[lc.k] = LT(mkTerm("%rk"))
			n.step = s.L(e)
			t := mkTerm("rec", init.L, LT(lc.k), n.step)
			setRange(t, n.lv.lo, n.lv.hi)
			n.kind, n.L = "rec", LT(t)
			return true
		}
		return false
	case VSlice:
		if n.kind == "const" {
			allSame, allAlloc := true, true
			for _, w := range news {
				q, okk := w.v.(VSlice)
				if !okk {
					n.kind = "unknown"
					return true
				}
				if q.Obj == nil || q.Obj != init.Obj || q.Nil != init.Nil {
					allSame = false
				}
				if q.Obj == nil || !isAlloc(q.Obj) {
					allAlloc = allAlloc && q.Obj == nil
				}
			}
			if allSame {
				n.kind = "same"
				for i, l := range []Lin{init.Off, init.Len, init.Cap} {
					n.kids = append(n.kids, lc.node(fmt.Sprintf("%s.%d", n.id, i), types.Typ[types.Int], VInt{l}))
				}
				return true
			}
			if allAlloc && try("acc", 1) {
				n.kind = "acc"
				ic := lc.entry.bytesOf(init)
				n.c, n.tail = lc.growUnknown(n, ic)
				return true
			}
			n.kind = "unknown"
			n.nonn = lc.entry.isNil(init) == -1
			return true
		}
		if n.kind == "acc" {
			if c, okg := lc.growGuess(n, news, func(w nv) *Content {
				if q, okk := w.v.(VSlice); okk {
					return w.st.bytesOf(q)
				}
				return nil
			}); okg && try("rep", 3) {
				n.c = content(append(append([]Seg{}, lc.entry.bytesOf(init).segs...), Seg{K: 'r', Lo: LC(0), Hi: LT(lc.k), Body: c})...)
				n.tail = nil
				return true
			}
			if ok {
				return false
			}
			if n.tail == nil {
				// the repetition failed: back to an unknown tail
				if try("reguess", 2) {
					n.c, n.tail = lc.growUnknown(n, lc.entry.bytesOf(init))
					return true
				}
			}
			if n.tail != nil && len(news) > 1 && try("wait", 1) {
				// what is appended may depend on a variable not described yet
				return true
			}
			if n.tail != nil {
				n.tries["unkprefix"]++
				// an unknown content altogether
				if n.tries["unkprefix"] == 1 {
					lc.wholeUnknown(n)
					n.own = init.Obj == nil || isAlloc(init.Obj)
					return true
				}
				// its length cannot be kept track of
			}
			n.kind = "unknown"
			n.nonn = false
			n.own = init.Obj == nil || isAlloc(init.Obj)
			return true
		}
		if !ok {
			return true // nonn was dropped
		}
		return false
	case VStr:
		switch n.kind {
		case "const":
			n.kind = "grow"
			n.c, n.tail = lc.growUnknown(n, init.C)
			return true
		case "grow":
			if c, okg := lc.growGuess(n, news, func(w nv) *Content {
				if q, okk := w.v.(VStr); okk {
					return q.C
				}
				return nil
			}); okg && try("rep", 3) {
				n.c = content(append(append([]Seg{}, init.C.segs...), Seg{K: 'r', Lo: LC(0), Hi: LT(lc.k), Body: c})...)
				n.tail = nil
				return true
			}
			if ok {
				return false
			}
			n.kind = "unknown"
			return true
		}
		return false
	case VArr:
		if n.kind == "const" {
			n.kind = "unknown"
			return true
		}
		if n.kind == "pref" {
			n.kind = "unknown"
			return true
		}
		if n.kind == "fill" && ok && !n.keep {
			return false
		}
		if c, okp := lc.prefGuess(n, init.C, news); okp && try("pref", 4) {
			n.kind, n.c, n.keep = "pref", c, false
			return true
		}
		if n.kind == "fill" {
			if ok {
				return false
			}
			if n.keep {
				n.keep = false
				return true
			}
			n.kind = "unknown"
			return true
		}
		if nilable(elemType(n.ty)) && try("fill", 2) {
			n.kind, n.keep = "fill", true
			return true
		}
		return false
	}
	if n.kind == "const" {
		n.kind = "unknown"
		n.nonn = lc.entry.isNil(n.init) == -1
		return true
	}
	return !ok
}

// sumBody: what one step of a sum measures; where it is as long as an element
// of a known repetition, that element
func (lc *loopCtx) sumBody(st *State, d Lin) *Content {
	if !d.isConst() {
		for _, b := range lc.layouts() {
			if st.eqL(instBody(b, LT(lc.k)).length(), d) {
				return b
			}
		}
	}
	return bodyOf(content(Seg{K: 'z', N: d}), lc.k)
}

func (lc *loopCtx) growUnknown(n *tnode, init *Content) (*Content, *Content) {
	src := lc.term(n, ".tail")
	if objType[src] == nil {
		objType[src] = types.NewArray(types.Typ[types.Uint8], -1)
	}
	ln := setRange(lc.term(n, ".taillen"), big0, maxLen)
	n.lv = ln
	tail := content(Seg{K: 'b', Src: src, Off: LC(0), N: LT(ln)})
	return content(append(append([]Seg{}, init.segs...), tail.segs...)...), tail
}

func (lc *loopCtx) wholeUnknown(n *tnode) {
	src := lc.term(n, ".whole")
	if objType[src] == nil {
		objType[src] = types.NewArray(types.Typ[types.Uint8], -1)
	}
	ln := setRange(lc.term(n, ".wholelen"), big0, maxLen)
	n.lv = ln
	n.c = content(Seg{K: 'b', Src: src, Off: LC(0), N: LT(ln)})
	n.kind = "unknown"
}

// growGuess: what one iteration appends
func (lc *loopCtx) growGuess(n *tnode, news []nv, get func(nv) *Content) (*Content, bool) {
	if n.tail == nil {
		return nil, false
	}
	var delta *Content
	var seen []nv
	for _, w := range news {
		c := get(w)
		if c == nil {
			return nil, false
		}
		var d *Content
		if segsPrefix(n.c.segs, c.segs) {
			d = content(c.segs[len(n.c.segs):]...)
		} else if a, b, ok := w.st.splitAt(c, n.c.length()); ok && w.st.eqContent(a, n.c) {
			d = b
		} else {
			return nil, false
		}
		d = w.st.norm(d)
		if delta == nil {
			delta = d
		} else if delta != d && !w.st.eqContent(delta, d) {
			u, ok := lc.unify(delta, d, seen, w)
			if !ok {
				return nil, false
			}
			delta = u
		}
		seen = append(seen, w)
	}
	if delta == nil {
		return nil, false
	}
	for _, id := range []*Term{n.lv, n.tail.segs[0].Src} {
		if delta.deps[id.id] {
			return nil, false
		}
	}
	lc.register(news, delta)
	return bodyOf(delta, lc.k), true
}

// unify describes what two paths append: a slice that is nil on one of them
// and made on the other is nil under the condition that tells them apart
func (lc *loopCtx) unify(a, b *Content, seen []nv, w nv) (*Content, bool) {
	if len(a.segs) != len(b.segs) {
		return nil, false
	}
	segs := append([]Seg{}, a.segs...)
	for i := range segs {
		g, h := a.segs[i], b.segs[i]
		if w.st.eqContent(content(g), content(h)) {
			continue
		}
		if g.K != 'e' || h.K != 'e' {
			return nil, false
		}
		x, ok1 := g.V.(VSlice)
		y, ok2 := h.V.(VSlice)
		if !ok1 || !ok2 {
			return nil, false
		}
		if x.Nil != nil && x.Obj != nil && (y.Obj == x.Obj || y.Obj == nil) {
			// described by an earlier pair
			if d := w.st.decide(condNil(x.Nil)); d == 1 && y.Obj == nil || d == -1 && y.Obj == x.Obj && y.Nil == nil {
				continue
			}
			return nil, false
		}
		var nils, made []nv
		u := x
		if y.Obj == nil && x.Obj != nil && x.Nil == nil {
			nils, made = []nv{w}, seen
		} else if x.Obj == nil && y.Obj != nil && y.Nil == nil {
			nils, made, u = seen, []nv{w}, y
		} else {
			return nil, false
		}
		if !isAlloc(u.Obj) || !u.Obj.dep(lc.k) {
			return nil, false
		}
		for _, n := range nils {
			if !n.st.eqL(u.Len, LC(0)) {
				return nil, false
			}
		}
		c, val := lc.tells(made, nils[0].st)
		if c == nil {
			c, val = condEQ(u.Len), true
		}
		for _, n := range nils {
			if d := n.st.decide(c); d != 1 && val || d != -1 && !val {
				return nil, false
			}
		}
		for _, m := range made {
			if d := m.st.decide(c); d != -1 && val || d != 1 && !val {
				return nil, false
			}
		}
		if u.Nil = nilIfTerm(c, val); u.Nil == nil {
			return nil, false
		}
		segs[i].V = u
	}
	return content(segs...), true
}

// prefGuess: one iteration writes a run at a position that moves with k
// wrapBytes writes each byte as itself modulo 256
func wrapBytes(c *Content, ty types.Type) *Content {
	if a, ok := ty.Underlying().(*types.Array); !ok || !isByte(a.Elem()) {
		return c
	}
	segs := append([]Seg{}, c.segs...)
	for i := range segs {
		if v, ok := segs[i].V.(VInt); ok && segs[i].K == 'e' {
			segs[i].V = VInt{v.L.sub(divLin(v.L, pow2(8)).mul(pow2(8)))}
		}
	}
	return content(segs...)
}

func (lc *loopCtx) prefGuess(n *tnode, init *Content, news []nv) (*Content, bool) {
	src := lc.term(n, ".arr")
	fill := mkTerm("fill:"+n.id, lc.mark, LT(lc.k))
	var pos Lin
	var mid *Content
	var seen []nv
	have := false
	for _, w := range news {
		a, ok := w.v.(VArr)
		if !ok {
			return nil, false
		}
		segs := a.C.segs
		i, j := 0, len(segs)
		p := LC(0)
		if i < j && segs[i].K == 'b' && (segs[i].Src == src || segs[i].Src == fill) && segs[i].Off.isInt(0) {
			p = segs[i].N
			i++
		}
		if j-i > 1 && segs[i].K == 'e' {
			// one element replaced
			p1 := p.addc(1)
			n1 := init.length().sub(p1)
			if w.st.eqContent(content(segs[i+1:j]...), w.st.sub(init, p1, n1)) {
				j = i + 1
			}
		}
		if i < j && segs[j-1].K == 'b' && (segs[j-1].Src == src || strings.HasPrefix(segs[j-1].Src.op, "rest")) {
			j--
		}
		m := content(segs[i:j]...)
		if m.deps[src.id] || m.deps[fill.id] {
			return nil, false
		}
		if !have {
			pos, mid, have = p, m, true
		} else if !(pos.eq(p) || w.st.eqL(pos, p)) {
			return nil, false
		} else if mid != m && !w.st.eqContent(mid, m) {
			// the same bytes, reached by different cases
			u, v := wrapBytes(mid, n.ty), wrapBytes(m, n.ty)
			if u == v {
				mid = u
			} else if u, ok := lc.unify(mid, m, seen, w); ok {
				mid = u
			} else {
				return nil, false
			}
		}
		seen = append(seen, w)
	}
	if !have || len(mid.segs) == 0 {
		return nil, false
	}
	lc.register(news, mid)
	k := LT(lc.k)
	p0 := substLin1(lc.k, LC(0)).L(pos)
	if p0.dep(lc.k) {
		return nil, false
	}
	st := lc.entry.clone()
	st.cons = news[0].st.cons
	total := init.length()
	body := bodyOf(mid, lc.k)
	end := p0.add(psumLin(body, k)).sub(psumLin(body, LC(0)))
	if pos.eq(end) || news[0].st.eqL(pos, end) {
		pre := st.sub(init, LC(0), p0)
		post := st.sub(init, end, total.sub(end))
		segs := append(append([]Seg{}, pre.segs...), Seg{K: 'r', Lo: LC(0), Hi: k, Body: body})
		return content(append(segs, post.segs...)...), true
	}
	// descending, one element at a time
	if ml, ok := mid.length().int(); ok && ml == 1 {
		c := pos.add(k)
		if !c.dep(lc.k) {
			v := lc.term(n, ".rev")
			b2 := bodyOf(substLin1(lc.k, c.sub(LT(v))).C(mid), v)
			lo := c.sub(k).addc(1)
			pre := st.sub(init, LC(0), lo)
			post := st.sub(init, c.addc(1), total.sub(c).addc(-1))
			segs := append(append([]Seg{}, pre.segs...), Seg{K: 'r', Lo: lo, Hi: c.addc(1), Body: b2})
			return content(append(segs, post.segs...)...), true
		}
	}
	return nil, false
}

// reregister brings what is remembered of the objects made in an iteration
// up to date with the last round; it reports whether that changed anything
func (lc *loopCtx) reregister(n *tnode, news []nv) bool {
	if len(news) == 0 {
		return false
	}
	ch := false
	switch n.kind {
	case "struct":
		for i, k := range n.kids {
			if lc.reregister(k, fieldNews(news, i)) {
				ch = true
			}
		}
	case "acc", "grow", "pref":
		for i := range n.c.segs {
			if g := &n.c.segs[i]; g.K == 'r' && lc.register(news, instBody(g.Body, LT(lc.k))) {
				ch = true
			}
		}
	}
	return ch
}

// register remembers the values of the objects made in an iteration; it
// reports whether that changed anything
func (lc *loopCtx) register(news []nv, c *Content) bool {
	ch := false
	var objs []*Term
	seen := map[*Term]bool{}
	var visitV func(v Value)
	var visit func(a Arg)
	visit = func(a Arg) {
		switch y := a.(type) {
		case *Content:
			for i := range y.segs {
				if y.segs[i].K == 'e' {
					visitV(y.segs[i].V)
				}
				if y.segs[i].K == 'r' {
					visit(y.segs[i].Body)
				}
			}
		case *Term:
			if y != nil && isAlloc(y) && y.dep(lc.k) && !seen[y] {
				seen[y] = true
				objs = append(objs, y)
				for _, w := range news {
					if v, ok := w.st.heap[y]; ok {
						visitV(v)
						break
					}
				}
			}
		}
	}
	visitV = func(v Value) { walkValue(v, visit); _ = v }
	visit(c)
	for _, o := range objs {
		key := o.op + "|" + lc.mark
		old, had := lc.sk[key]
		// paths that do not make the object say nothing of it
		var v Value
		same := false
		for _, w := range news {
			u, ok := w.st.heap[o]
			if !ok {
				continue
			}
			if v == nil {
				v, same = u, true
			} else if u.vkey() != v.vkey() {
				same = false
			}
		}
		if !same {
			if had && old.obj == o {
				delete(lc.sk, key)
				ch = true
			}
			continue
		}
		if had && old.obj == o && old.v.vkey() == v.vkey() {
			continue
		}
		lc.sk[key] = skTmpl{v: v, arg: lc.k, ty: objType[o], obj: o}
		ch = true
	}
	return ch
}

func (lc *loopCtx) commonDiff(news []nv, cur Lin) (Lin, bool) {
	var d Lin
	for i, w := range news {
		v, ok := w.v.(VInt)
		if !ok {
			return d, false
		}
		e := v.L.sub(cur)
		if i == 0 {
			d = e
		} else if !d.eq(e) && !w.st.eqL(d, e) {
			// prefer the simpler form
			return d, false
		}
	}
	return d, true
}

// depUnknownSelf: differences may use other unknowns, they are functions of k
func (lc *loopCtx) depUnknownSelf(d Lin) bool { return false }

// acc names the accumulator in the step of a recurrence
func (n *tnode) acc() *Term {
	return setRange(mkTerm("%acc:"+typeKey(n.ty)), n.lv.lo, n.lv.hi)
}

// tells is a condition that has a value in st, and the other in the others
func (lc *loopCtx) tells(others []nv, st *State) (*Cond, bool) {
	var keys []string
	for k, f := range st.facts {
		if f.c.op == "op" || f.c.op == "nil" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
next:
	for _, k := range keys {
		for _, w := range others {
			if f, ok := w.st.facts[k]; !ok || f.val == st.facts[k].val {
				continue next
			}
		}
		return st.facts[k].c, st.facts[k].val
	}
	return nil, false
}

// decided resolves the choices that are known in st
func (st *State) decided(l Lin) Lin {
	for again := true; again; {
		again = false
		for _, m := range l.ts {
			if m.t.op != "ite" {
				continue
			}
			c := condOp(m.t.args[1].(*Term))
			if m.t.args[0].(string) == "nil" {
				c = condNil(m.t.args[1].(*Term))
			}
			if d := st.decide(c); d != 0 {
				v := m.t.args[2].(Lin)
				if d < 0 {
					v = m.t.args[3].(Lin)
				}
				l = l.sub(LT(m.t).mul(m.c)).add(v.mul(m.c))
				again = true
				break
			}
		}
	}
	return l
}

func (lc *loopCtx) commonRec(news []nv, lv *Term) (Lin, bool) {
	if lv == nil {
		return Lin{}, false
	}
	var e Lin
	for i, w := range news {
		v, ok := w.v.(VInt)
		if !ok {
			return e, false
		}
		if i == 0 {
			e = v.L
		} else if !e.eq(v.L) {
			c, val := lc.tells(news[:i], w.st)
			if c == nil {
				return e, false
			}
			yes, no := v.L, e
			if !val {
				yes, no = e, v.L
			}
			e = LT(setRange(mkTerm("ite", c.op, c.T, yes, no), lv.lo, lv.hi))
		}
	}
	if e.isConst() {
		return e, false
	}
	// no other unknown of this loop
	other := false
	for _, t := range termList {
		if t != lv && strings.HasPrefix(t.op, "lv:") && t.dep(lc.k) && e.dep(t) {
			other = true
			break
		}
	}
	return e, !other
}

// layoutGuess: positions in a known layout
func (lc *loopCtx) layoutGuess(n *tnode, init VInt) bool {
	bodies := lc.layouts()
	if n.cand >= 2*len(bodies) {
		return false
	}
	b := bodies[n.cand/2]
	p := psumLin(b, LT(lc.k)).sub(psumLin(b, LC(0)))
	if n.sign == -1 || n.sign == 0 && n.cand%2 == 1 {
		p = p.neg()
	}
	n.cand++
	if n.sign != 0 {
		n.cand++
	}
	n.kind, n.L = "layout", init.L.add(p)
	return true
}

// layouts: the bodies of the repetitions in memory on entry
func (lc *loopCtx) layouts() []*Content {
	seen := map[*Content]bool{}
	var r []*Content
	var visit func(c *Content)
	visit = func(c *Content) {
		for i := range c.segs {
			g := &c.segs[i]
			if g.K == 'r' && !seen[g.Body] {
				seen[g.Body] = true
				if _, ok := g.Body.length().int(); !ok {
					r = append(r, g.Body)
				}
			}
			if g.K == 'b' && g.Src.op == "snap" {
				if sc, ok := g.Src.args[0].(*Content); ok {
					visit(sc)
				}
			}
		}
	}
	var os []*Term
	for o := range lc.entry.heap {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		walkValue(lc.entry.heap[o], func(a Arg) {
			if c, ok := a.(*Content); ok {
				visit(c)
			}
		})
	}
	if len(r) > 4 {
		r = r[:4]
	}
	return r
}

var debugLoop = os.Getenv("VERIF_DEBUG_LOOP") != ""

// ints of a node tree: current and initial values
type intv struct {
	cur, init Lin
	unk       bool
}

func (lc *loopCtx) ints(n *tnode, out *[]intv) {
	switch n.kind {
	case "struct", "same":
		for _, k := range n.kids {
			lc.ints(k, out)
		}
	case "affine", "sum":
		*out = append(*out, intv{n.L, intOf(n.init), false})
	case "unknown":
		switch v := n.init.(type) {
		case VInt:
			if n.lv != nil {
				*out = append(*out, intv{LT(n.lv), v.L, true})
			}
		case VSlice:
			l := LC(0)
			if v.Obj != nil {
				l = v.Len
			}
			*out = append(*out, intv{LT(lenTerm(lc.term(n, ""))), l, true})
		}
	case "acc", "grow":
		if n.tail != nil {
			*out = append(*out, intv{LT(n.lv), LC(0), true})
		}
	}
}

func (lc *loopCtx) newInts(n *tnode, w nv, s *Subst) {
	switch n.kind {
	case "struct":
		if v, ok := w.v.(VStruct); ok {
			for i, k := range n.kids {
				lc.newInts(k, nv{w.st, v.F[i]}, s)
			}
		}
	case "same":
		if v, ok := w.v.(VSlice); ok && v.Obj != nil {
			for i, k := range n.kids {
				lc.newInts(k, nv{w.st, VInt{[]Lin{v.Off, v.Len, v.Cap}[i]}}, s)
			}
		}
	case "unknown":
		switch v := w.v.(type) {
		case VInt:
			if n.lv != nil {
				s.lin[n.lv] = v.L
			}
		case VSlice:
			l := LC(0)
			if v.Obj != nil {
				l = v.Len
			}
			s.lin[lenTerm(lc.term(n, ""))] = l
		}
	case "acc", "grow":
		if n.tail != nil {
			switch v := w.v.(type) {
			case VSlice:
				l := LC(0)
				if v.Obj != nil {
					l = v.Len
				}
				il := LC(0)
				if iv, ok := n.init.(VSlice); ok && iv.Obj != nil {
					il = iv.Len
				}
				s.lin[n.lv] = l.sub(il)
			case VStr:
				s.lin[n.lv] = v.C.length().sub(n.init.(VStr).C.length())
			}
		}
	}
}

// candidates proposes linear invariants that hold on entry
func (lc *loopCtx) candidates(nodes []*tnode, backs []item, hdr *State) bool {
	var is []intv
	for _, n := range nodes {
		lc.ints(n, &is)
	}
	k := LT(lc.k)
	added := false
	initSub := newSubst()
	initSub.lin[lc.k] = LC(0)
	for _, i := range is {
		if i.unk {
			initSub.lin[i.cur.ts[0].t] = i.init
		}
	}
	add := func(e Lin, eq bool) {
		if e.isConst() {
			return
		}
		key := e.key()
		if eq {
			key += "="
		}
		if lc.seen[key] {
			return
		}
		at0 := initSub.L(e)
		if eq {
			if !lc.entry.cons.entailsEq(at0) {
				return
			}
		} else if !lc.entry.cons.entails(at0) {
			return
		}
		lc.seen[key] = true
		lc.inv = append(lc.inv, con{e, eq})
		added = true
	}
	// bounds in scope
	var bounds []Lin
	bs := map[string]bool{}
	bn := map[string]int{}
	addB := func(l Lin) {
		f := Lin{ts: l.ts, k: big0}.key()
		if !l.dep(lc.k) && !bs[l.key()] && len(bounds) < 24 && (bn[f] < 3 || l.isConst()) {
			bs[l.key()] = true
			bn[f]++
			bounds = append(bounds, l)
		}
	}
	var visit func(v Value, d int)
	visit = func(v Value, d int) {
		switch a := v.(type) {
		case VInt:
			addB(a.L)
		case VSlice:
			if a.Obj != nil {
				addB(a.Len)
				addB(a.Cap)
				addB(a.Off.add(a.Len))
				if lc.x.splitIdx {
					if c := lc.entry.arr(a); len(c.segs) > 1 && len(c.segs) <= 8 {
						off := LC(0)
						for _, g := range c.segs {
							off = off.add(g.length())
							addB(off.sub(a.Off))
						}
					}
				}
			}
		case VStr:
			addB(a.C.length())
		case VStruct:
			for _, f := range a.F {
				visit(f, d)
			}
		case VPtr:
			if d > 0 && a.Obj != nil {
				if hv, ok := lc.entry.heap[a.Obj]; ok {
					visit(hv, d-1)
				}
			}
		}
	}
	var vs []ssa.Value
	for v := range lc.entry.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		visit(lc.entry.env[v], 1)
	}
	for _, i := range is {
		add(i.cur.sub(i.init), false)
		add(i.init.sub(i.cur), false)
		add(i.cur, false)
		for _, b := range bounds {
			add(b.sub(i.cur).addc(-1), false)
			add(b.sub(i.cur), false)
			if i.unk {
				for _, m := range lc.mults {
					add(b.mulc(m).addc(1).sub(i.cur), false)
				}
			}
		}
		if i.unk {
			add(i.cur.sub(i.init).sub(k), false)
			add(i.init.add(k).sub(i.cur), false)
			add(i.init.add(k.mul(maxLen)).sub(i.cur), false)
		}
	}
	if len(is) <= 8 {
		for a := range is {
			for b := 0; b < a; b++ {
				if !is[a].unk && !is[b].unk {
					continue
				}
				p, q := is[a], is[b]
				add(p.cur.add(q.cur).sub(p.init.add(q.init)), true)
				d, d0 := p.cur.sub(q.cur), p.init.sub(q.init)
				add(d.sub(d0), true)
				add(d.sub(d0), false)
				add(d0.sub(d), false)
				add(d, false)
				add(d.neg(), false)
			}
		}
	}
	// what held in the iteration before
	shift := substLin1(lc.k, k.addc(-1))
	for _, b := range backs {
		for p := b.st.cons; p != nil && (hdr == nil || p.id > hdr.cons.ID()); p = p.prev {
			// what the sum has become at the end of the iteration
			var e Lin
			sums := false
			for _, m := range p.c.e.ts {
				if body, ok := sumTo(m.t, lc.k); ok && !sums {
					sums = true
					next := p.c.e.coef(m.t)
					e = p.c.e.sub(LT(m.t).add(instBody(body, k).length()).mul(next))
					e = shift.L(e).add(LT(m.t).mul(next))
				}
			}
			if !sums {
				e = shift.L(p.c.e)
			}
			dep := false
			okk := true
			for _, m := range e.ts {
				if m.t == lc.k {
					dep = true
				} else if _, ok := sumTo(m.t, lc.k); ok {
					dep = true
				} else if m.t.dep(lc.k) {
					okk = false
				}
			}
			if dep && okk && !p.c.eq {
				f := Lin{ts: e.ts, k: big0}.key()
				if lc.drift[f]++; lc.drift[f] <= 4 {
					add(e, false)
				}
			}
		}
	}
	return added
}

// multipliers: the constants a loop multiplies integers by
func multipliers(l *loop) []int64 {
	set := map[int64]bool{}
	phi := func(v ssa.Value) bool {
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == l.header
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok && (op.Op == token.MUL || op.Op == token.SHL) && (phi(op.X) || phi(op.Y)) {
				for _, o := range []ssa.Value{op.X, op.Y} {
					if k, ok := o.(*ssa.Const); ok && k.Value != nil && isInt(k.Type()) {
						if v, exact := constant.Int64Val(constant.ToInt(k.Value)); exact && v > 0 && v <= 16 {
							if op.Op == token.SHL {
								v = 1 << uint(v)
							}
							set[v] = true
						}
					}
				}
			} else if ok && op.Op == token.ADD && op.X == op.Y && phi(op.X) && isInt(op.Type()) {
				set[2] = true
			}
		}
	}
	var r []int64
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// sumTo: t is the sum of the first k lengths of a body
func sumTo(t, k *Term) (*Content, bool) {
	if t.op != "psum" {
		return nil, false
	}
	l, ok := t.args[0].(Lin)
	if !ok || !l.eq(LT(k)) {
		return nil, false
	}
	b, ok := t.args[1].(*Content)
	return b, ok
}

// execLoop analyses a loop entered from block from
func (x *Exec) execLoop(fn *ssa.Function, st *State, l *loop, from *ssa.BasicBlock) (exits []item, outs []Outcome) {
	x.loopsN[l.header] = true
	if x.explore > 0 {
		return x.iterate(fn, st, l, from)
	}
	if ex, os, ok := x.unroll(fn, st, l, from); ok {
		return ex, os
	}
	// a flag the loop starts with is known in each case
	for _, p := range phisOf(l.header) {
		e := p.Edges[predIndex(l.header, from)]
		if _, isIns := e.(ssa.Instruction); !isIns {
			continue
		}
		b, ok := x.val(st, e).(VBool)
		if !ok || st.decide(b.C) != 0 {
			continue
		}
		t, f := st.branch(b.C)
		for i, ss := range [][]*State{t, f} {
			for _, s := range ss {
				s.env[e] = VBool{condBool(i == 0)}
				ex, os := x.execLoop(fn, s, l, from)
				exits = append(exits, ex...)
				outs = append(outs, os...)
			}
		}
		return exits, outs
	}
	st.nf++
	lc := &loopCtx{x: x, entry: st, seen: map[string]bool{}, drift: map[string]int{}, mults: multipliers(l)}
	lc.sk = map[string]skTmpl{}
	lc.mark = fmt.Sprintf("L%d", st.nf)
	lc.k = setRange(st.fresh("k"), big0, nil)
	setRange(lc.k, nil, pow2(48))
	phis := phisOf(l.header)
	pi := predIndex(l.header, from)
	var nodes []*tnode
	for i, p := range phis {
		nodes = append(nodes, lc.node(fmt.Sprintf("%s.%d", p.Name(), i), p.Type(), x.val(st, p.Edges[pi])))
	}
	hobj := map[*Term]*tnode{}
	var hkeys []*Term
	dirty := map[string]bool{}
	first := firstNonPhi(l.header)
	noWrap := x.noWrap
	defer func() { x.noWrap = noWrap }()
	var loopEv [][]*Event
	lost := map[string]int{}
	for round := 0; ; round++ {
		if round > 60 {
			panic(undecided{fmt.Sprintf("%s: no inductive description of the loop at block %d found", fname(fn), l.header.Index)})
		}
		h := st.clone()
		h.largs = append(append([]Arg{}, st.largs...), lc.mark, LT(lc.k))
		if len(lc.sk) > 0 {
			h.sk = make(map[string]skTmpl, len(st.sk)+len(lc.sk))
			for k, t := range st.sk {
				h.sk[k] = t
			}
			for k, t := range lc.sk {
				h.sk[k] = t
			}
		}
		vals := make([]Value, len(phis))
		for i, n := range nodes[:len(phis)] {
			vals[i] = lc.value(h, n)
		}
		for i, p := range phis {
			h.env[p] = vals[i]
		}
		for _, o := range hkeys {
			h.heap[o] = lc.value(h, hobj[o])
		}
		if len(dirty) > 0 {
			nd := map[string]bool{}
			for k := range h.dirty {
				nd[k] = true
			}
			for k := range dirty {
				nd[k] = true
			}
			h.dirty = nd
		}
		for _, c := range lc.inv {
			h.push(c.e, c.eq)
		}
		if len(loopEv) > 0 {
			h.event(&Event{kind: "loop", sub: loopEv})
		}
		x.noWrap = round < 2
		mk := len(x.mkMax)
		ex, back, os_ := x.run(fn, []item{{h.clone(), l.header, from, first}}, l)
		var later []item
		ex, back, os_, later = x.flagExits(fn, l, nodes[:len(phis)], ex, back, os_)
		if debugLoop {
			fmt.Fprintf(os.Stderr, "loop %s b%d round %d: %d back, %d exits, %d outs\n", fname(fn), l.header.Index, round, len(back), len(ex), len(os_))
			for _, n := range nodes {
				n.dump("  ")
			}
			for _, o := range hkeys {
				hobj[o].dump("  " + o.String() + " ")
			}
			for _, c := range lc.inv {
				fmt.Fprintf(os.Stderr, "    inv %s\n", c)
			}
		}
		// new values
		news := make([][]nv, len(phis))
		for _, b := range back {
			bi := predIndex(l.header, b.from)
			for i, p := range phis {
				news[i] = append(news[i], nv{b.st, x.val(b.st, p.Edges[bi])})
			}
		}
		changed := false
		// newly modified memory
		for _, b := range back {
			var os []*Term
			for o := range b.st.heap {
				os = append(os, o)
			}
			sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
			for _, o := range os {
				if hobj[o] != nil {
					continue
				}
				v := b.st.heap[o]
				hv, ok := h.heap[o]
				if !ok {
					if isAlloc(o) {
						continue
					}
					if o.dep(lc.k) {
						if v.vkey() != b.st.initVal(o).vkey() {
							dk := typeKey(objType[o])
							if !dirty[dk] {
								dirty[dk] = true
								changed = true
							}
						}
						continue
					}
					hv = b.st.initOf(o)
				}
				if v.vkey() == hv.vkey() || b.st.eqVal(v, hv) {
					continue
				}
				if isAlloc(o) && o.dep(lc.k) {
					continue // an accumulator of this loop
				}
				n := lc.node("m"+fmt.Sprint(len(hkeys))+":"+typeKey(objType[o]), objType[o], hv)
				hobj[o] = n
				hkeys = append(hkeys, o)
				changed = true
			}
			for g, v := range b.st.ghost {
				if hv, ok := h.ghost[g]; !ok || hv.vkey() != v.vkey() {
					panic(undecided{fname(fn) + ": tracked state " + g + " changes in a loop"})
				}
			}
		}
		hnews := map[*Term][]nv{}
		for _, o := range hkeys {
			for _, b := range back {
				v, ok := b.st.heap[o]
				if !ok {
					v = b.st.initOf(o)
				}
				hnews[o] = append(hnews[o], nv{b.st, v})
			}
		}
		allNodes := append([]*tnode{}, nodes...)
		allNews := append([][]nv{}, news...)
		for _, o := range hkeys {
			allNodes = append(allNodes, hobj[o])
			allNews = append(allNews, hnews[o])
		}
		unstable := false
		if !changed {
			// invariants
			var keep []con
			for _, c := range lc.inv {
				ok := true
				for bi, b := range back {
					s := newSubst()
					s.lin[lc.k] = LT(lc.k).addc(1)
					for i, n := range allNodes {
						lc.newInts(n, allNews[i][bi], s)
					}
					e := s.L(c.e)
					if c.eq {
						ok = b.st.cons.entailsEq(e)
					} else {
						ok = b.st.cons.entails(e)
					}
					if !ok {
						break
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					changed = true
					unstable = true
					lost[Lin{ts: c.e.ts, k: big0}.key()]++
				}
			}
			lc.inv = keep
			// bounds that only differ in the constant hold each other up
			// for one round
			if unstable {
				lc.inv = nil
				for _, c := range keep {
					if lost[Lin{ts: c.e.ts, k: big0}.key()] < 2 {
						lc.inv = append(lc.inv, c)
					}
				}
			}
		}
		shape := false
		for i, n := range allNodes {
			if unstable {
				break // judged when the invariants hold
			}
			if lc.propose(n, allNews[i], lc.verify(n, allNews[i])) {
				shape = true
			}
		}
		if shape {
			// the meaning of the unknowns may have changed: invariants are
			// proposed anew
			changed = true
			lc.inv, lc.seen = nil, map[string]bool{}
			lost = map[string]int{}
		}
		if round >= 1 && lc.candidates(allNodes, back, h) {
			changed = true
		} else if round == 0 {
			changed = changed || len(back) > 0
		}
		ne := len(loopEv)
		loopEv = nil
		evs := 0
		for _, b := range back {
			if es := b.st.events(h.ev); len(es) > 0 {
				loopEv = append(loopEv, es)
				evs++
			}
		}
		if (ne == 0) != (evs == 0) {
			changed = true
		}
		if !changed && x.noWrap && !noWrap {
			changed = true
		}
		if !changed {
			for i, n := range allNodes {
				if lc.reregister(n, allNews[i]) {
					changed = true
				}
			}
		}
		if !changed {
			exits, outs = ex, os_
			x.flagged++
			for _, g := range later {
				g.st.largs = st.largs
				x.solveK(g.st, lc.k)
				ex, os := x.execLoop(fn, g.st, l, g.from)
				exits = append(exits, ex...)
				outs = append(outs, os...)
			}
			x.flagged--
			break
		}
		x.mkMax = x.mkMax[:mk]
	}
	// leave the loop: iteration numbers that are determined are replaced
	for i := range exits {
		e := &exits[i]
		e.st.largs = st.largs
		x.solveK(e.st, lc.k)
	}
	for i := range outs {
		outs[i].st.largs = st.largs
		s := outs[i].st
		if e, ok := x.kValue(s, lc.k); ok {
			sb := substLin1(lc.k, e)
			s.subst(sb)
			for j := range outs[i].rets {
				if outs[i].rets[j] != nil {
					outs[i].rets[j] = sb.V(outs[i].rets[j])
				}
			}
		}
	}
	return
}

func (x *Exec) kValue(st *State, k *Term) (Lin, bool) {
	n := 0
	for p := st.cons; p != nil; p = p.prev {
		c := p.c.e.coef(k)
		if c.CmpAbs(big1) != 0 {
			continue
		}
		// c*k + rest = 0
		rest := p.c.e.sub(LT(k).mul(c))
		if rest.dep(k) {
			continue
		}
		if c.Sign() > 0 {
			rest = rest.neg()
		}
		n++
		if n > 12 {
			break
		}
		for _, d := range []int64{0, 1, -1} {
			e := rest.addc(d)
			if st.cons.entailsEq(LT(k).sub(e)) {
				return e, true
			}
		}
	}
	if st.cons.entailsEq(LT(k)) {
		return LC(0), true
	}
	return Lin{}, false
}

func (x *Exec) solveK(st *State, k *Term) {
	if e, ok := x.kValue(st, k); ok {
		st.subst(substLin1(k, e))
	}
}

func (n *tnode) dump(p string) {
	s := ""
	switch n.kind {
	case "affine", "sum", "layout", "rec":
		s = n.L.String()
	case "acc", "grow", "pref":
		s = n.c.String()
	case "const":
		s = valString(n.init)
		if len(s) > 200 {
			s = s[:200]
		}
	}
	fmt.Fprintf(os.Stderr, "%s%s: %s %s nonn=%v\n", p, n.id, n.kind, s, n.nonn)
	for _, k := range n.kids {
		if k.kind != "const" {
			k.dump(p + "  ")
		}
	}
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

// flagExits: an iteration that changes a flag the loop goes on by leaves it at
// the next test. Such a path is followed to its exit, so that the flag is
// known in every iteration. Where it does not leave, the loop is entered anew
// with the other value of the flag (later).
func (x *Exec) flagExits(fn *ssa.Function, l *loop, nodes []*tnode, ex, back []item, outs []Outcome) (_, _ []item, _ []Outcome, later []item) {
	for i, p := range phisOf(l.header) {
		b0, ok := nodes[i].init.(VBool)
		if !ok || b0.C != condTrue && b0.C != condFalse {
			continue
		}
		var stay, gone []item
		for _, b := range back {
			v, ok := x.val(b.st, p.Edges[predIndex(l.header, b.from)]).(VBool)
			if !ok {
				stay = append(stay, b)
				continue
			}
			c := v.C
			if b0.C == condFalse {
				c = c.not()
			}
			same, other := b.st.clone().branch(c)
			if len(other) == 0 {
				stay = append(stay, b)
				continue
			}
			e, isIns := p.Edges[predIndex(l.header, b.from)].(ssa.Instruction)
			for _, s := range same {
				if isIns {
					s.env[e.(ssa.Value)] = b0
				}
				stay = append(stay, item{s, b.b, b.from, b.i})
			}
			for _, s := range other {
				if isIns {
					s.env[e.(ssa.Value)] = VBool{b0.C.not()}
				}
				gone = append(gone, item{s, b.b, b.from, b.i})
			}
		}
		if len(gone) == 0 {
			continue
		}
		var start []item
		for _, g := range gone {
			s := g.st.clone()
			x.phis(s, l.header, g.from)
			start = append(start, item{s, l.header, g.from, firstNonPhi(l.header)})
		}
		ex2, again, os2 := x.run(fn, start, l)
		if len(again) > 0 {
			if x.flagged < 2 {
				later = append(later, gone...)
				back = stay
			}
			continue
		}
		ex = append(ex, ex2...)
		outs = append(outs, os2...)
		back = stay
	}
	return ex, back, outs, later
}
