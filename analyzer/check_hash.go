package main

// M04: the hash table.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M04", "shape analysis of the hash table: every operation on a chain of any length, every way of rebuilding the table, slots by the same hash function everywhere", checkHash)
}

type hashInfo struct {
	c     *Check
	typ   types.Type
	array string
	size  string
	seed  string
	rebld map[*ssa.Function]bool
	by    map[string]map[string]bool // hash function: used by
}

func (h *hashInfo) shape() (*shape, *nodeType) {
	x := newShape(h.c)
	n := x.nodeOf("collection.HashNode")
	if !n.list() {
		panic(undecided{"HashNode does not look like a node of a chain"})
	}
	x.owner = func(t typeT) bool { return identical(t, h.typ) }
	x.slotBy = map[string]bool{}
	return x, n
}

func (h *hashInfo) used(x *shape, fn *ssa.Function) {
	for by := range x.slotBy {
		if h.by[by] == nil {
			h.by[by] = map[string]bool{}
		}
		h.by[by][fname(fn)] = true
	}
}

// object makes a table of any content
func (h *hashInfo) object(x *shape, st *sst, n *nodeType) (obj, arr int, size sInt) {
	obj = st.newObj(h.typ)
	st.roots = append(st.roots, obj)
	o := st.heap[obj]
	arr = x.newTable(st, cellType(h.typ, h.array), n)
	size = sInt{st.id(), 0}
	x.seedBase = st.id()
	o.cells[h.array], o.cells[h.size], o.cells[h.seed] = sArr{arr}, size, sInt{x.seedBase, 0}
	return
}

func newHashInfo(c *Check) *hashInfo {
	t := c.r.typ("collection.Hash")
	if t == nil {
		panic(undecided{"type collection.Hash not found"})
	}
	h := &hashInfo{c: c, typ: t, rebld: map[*ssa.Function]bool{}, by: map[string]map[string]bool{}}
	x := newShape(c)
	n := x.nodeOf("collection.HashNode")
	arr := fieldOf(t, func(f typeT) bool { return isSliceOf(f, ptrTo(n.named)) })
	size := fieldOf(t, func(f typeT) bool { return identical(f, types.Typ[types.Int]) })
	seed := fieldOf(t, func(f typeT) bool { return isIntT(f) && !identical(f, types.Typ[types.Int]) })
	if len(arr) != 1 || len(size) != 1 || len(seed) != 1 {
		panic(undecided{"Hash does not have one table, one size and one seed"})
	}
	h.array, h.size, h.seed = fmt.Sprint(arr[0]), fmt.Sprint(size[0]), fmt.Sprint(seed[0])
	h.findRebuilders(arr[0], n)
	return h
}

func calleesOf(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f != nil && f.Blocks != nil {
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// findRebuilders: the innermost functions on a table that make a new array
// and install it
func (h *hashInfo) findRebuilders(field int, n *nodeType) {
	var has func(fn *ssa.Function, what func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool
	has = func(fn *ssa.Function, what func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if what(in) {
					return true
				}
			}
		}
		for _, g := range calleesOf(fn) {
			if h.c.r.owns(g) && has(g, what, seen) {
				return true
			}
		}
		return false
	}
	makes := func(in ssa.Instruction) bool {
		m, ok := in.(*ssa.MakeSlice)
		return ok && isSliceOf(m.Type(), ptrTo(n.named))
	}
	stores := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && fa.Field == field && identical(derefT(fa.X.Type()), h.typ)
	}
	var cand []*ssa.Function
	for _, fn := range h.c.r.funcs {
		if len(fn.Params) == 0 || !identical(fn.Params[0].Type(), ptrTo(h.typ)) {
			continue
		}
		if has(fn, makes, map[*ssa.Function]bool{}) && has(fn, stores, map[*ssa.Function]bool{}) {
			cand = append(cand, fn)
		}
	}
	for _, fn := range cand {
		inner := false
		for _, g := range cand {
			if g != fn && has(fn, func(in ssa.Instruction) bool {
				cl, ok := in.(ssa.CallInstruction)
				return ok && cl.Common().StaticCallee() == g
			}, map[*ssa.Function]bool{}) {
				inner = true
			}
		}
		if !inner {
			h.rebld[fn] = true
		}
	}
}

// rebuild is what a call of a rebuilding function does: nothing, or the same
// entries in a new table
func (h *hashInfo) rebuild(n *nodeType) func(*shape, *sst, []sv) []*sst {
	return func(x *shape, st *sst, args []sv) []*sst {
		p, ok := args[0].(sPtr)
		if !ok {
			panic(crash{"nil table"})
		}
		f := st.frames[len(st.frames)-1]
		sig := f.blk.Instrs[f.idx].(*ssa.Call).Common().Signature()
		same := st.clone()
		x.setRes(same, x.opaque(same, sig))
		a, ok := st.heap[p.obj].cells[h.array].(sArr)
		if !ok {
			panic(undecided{"the table is not known"})
		}
		old := st.heap[a.obj]
		id := x.newTable(st, old.typ, n)
		nw := st.heap[id]
		for k, s := range old.orig {
			_ = s
			// the slot of the key now has other entries besides its own
			all := x.total(st, old, k)
			nw.snap, nw.snapOK = all, true
			tok := 0
			fmt.Sscan(k[1:], &tok)
			x.saturate(st, []int{tok})
			y := st.id()
			nw.orig[k] = y
			var own []sitem
			m := uint8(0)
			for _, it := range all {
				f := st.fact(itemKey(it), tok)
				if it.kind == 'e' && f == rEQ {
					own = append(own, it)
				} else {
					m |= f
				}
			}
			if len(own) > 0 {
				a, b := st.id(), st.id()
				st.exp[y] = append(append([]sitem{segItem(a)}, own...), segItem(b))
			} else if m&rEQ == 0 {
				st.rel[[2]int{y, tok}] = rLT | rGT
			}
			t := x.newTree(st, n, ht{})
			st.trees[t.id].items = []sitem{segItem(y)}
			nw.cells[k] = t
			st.freeze(old.cells[k])
		}
		st.heap[p.obj].cells[h.array] = sArr{id}
		x.setRes(st, x.opaque(st, sig))
		return []*sst{same, st}
	}
}

func checkHash(c *Check) {
	c.guard("decided", "collection.Hash", func() {
		h := newHashInfo(c)
		for _, op := range []struct{ name, op string }{{"collection.Hash.Get", "get"}, {"collection.Hash.Put", "put"}, {"collection.Hash.Remove", "remove"}} {
			if fn := c.need(op.name); fn != nil {
				c.guard("decided", op.name, func() { h.operation(op.op, fn) })
			}
		}
		for _, fn := range sortedFnSet(h.rebld) {
			fn := fn
			c.guard("decided", fname(fn), func() { h.rebuilds(fn) })
		}
		for _, fn := range c.r.funcs {
			if h.allocates(fn) {
				fn := fn
				c.guard("decided", fname(fn), func() { h.constructs(fn) })
			}
		}
		if fn := c.need("collection.Hash.Size"); fn != nil {
			c.guard("decided", fname(fn), func() {
				x, n := h.shape()
				st := newSst()
				id, _, size := h.object(x, st, n)
				x.start(st, fn, sPtr{id, ""})
				for _, o := range x.run(st) {
					c.oblige("result", fname(fn), o.panicV == "" && len(o.ret) == 1 && o.ret[0] == sv(size), func() string { return "does not return the size" })
				}
			})
		}
		var bys []string
		for by := range h.by {
			var fs []string
			for f := range h.by[by] {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			bys = append(bys, by+" in "+strings.Join(fs, ", "))
		}
		sort.Strings(bys)
		c.oblige("same-slots", "collection.Hash", len(bys) == 1 && !strings.Contains(bys[0], "varies"), func() string {
			return "slots are computed by different functions: " + strings.Join(bys, "; ")
		})
		onlyThere(c, []string{"collection.Hash", "collection.HashNode"})
	})
	c.items["states executed"] = c.steps
	c.min["content"] = 4
	c.min["result"] = 4
	c.min["size"] = 2
}

func sortedFnSet(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

// onlyThere: no function the analysis has not gone through writes to the
// fields of these types, except of an object it has just made
func onlyThere(c *Check, names []string) {
	for _, nm := range names {
		t := c.r.typ(nm)
		bad := ""
		n := 0
		for _, fn := range c.r.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					a := s.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						break
					}
					fa, ok := a.(*ssa.FieldAddr)
					if !ok || !identical(derefT(fa.X.Type()), t) {
						continue
					}
					n++
					if _, fresh := fa.X.(*ssa.Alloc); fresh || c.fns[fn] {
						continue
					}
					bad = fname(fn) + " at " + c.r.pos(in.Pos()) + " modifies it"
				}
			}
		}
		c.items["writes to "+nm] = n
		c.oblige("only-there", nm, bad == "", func() string { return bad })
	}
}

func (h *hashInfo) allocates(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && identical(derefT(a.Type()), h.typ) {
				return true
			}
		}
	}
	return false
}

func (h *hashInfo) add(rule string, fn *ssa.Function, bad string) {
	h.c.oblige(rule, fname(fn), bad == "", func() string { return bad })
}

func (h *hashInfo) operation(op string, fn *ssa.Function) {
	x, n := h.shape()
	for r := range h.rebld {
		x.hooks[r] = h.rebuild(n)
	}
	st := newSst()
	k := st.tok()
	st.nilk[k.id] = 2
	st.spec = []int{k.id}
	val := sv(st.tok())
	obj, arr, size := h.object(x, st, n)
	key := x.chain(st, st.heap[arr], k.id)
	st.ghost = []sitem{segItem(st.heap[arr].orig[key])}
	args := []sv{sPtr{obj, ""}}
	for _, p := range fn.Params[1:] {
		switch {
		case identical(p.Type(), n.keyT):
			args = append(args, k)
		case identical(p.Type(), n.valT):
			args = append(args, val)
		default:
			panic(undecided{"unexpected parameter"})
		}
	}
	x.start(st, fn, args...)
	outs := x.run(st)
	if len(outs) == 0 {
		h.c.fail("content", fname(fn), "no path returns")
	}
	h.used(x, fn)
	add := func(rule, bad string) { h.add(rule, fn, bad) }
	x.terminates(func(_, bad string) { add("ends", bad) })
	for _, o := range outs {
		if o.panicV != "" {
			add("no-crash", o.panicV)
			continue
		}
		add("no-crash", "")
		ob := o.heap[obj]
		a, ok := ob.cells[h.array].(sArr)
		if !ok || o.heap[a.obj].alloc {
			add("content", "the table is replaced by one of other content")
			continue
		}
		if ob.cells[h.seed] != sv(sInt{x.seedBase, 0}) {
			add("content", "the seed changes, so that the slots of the entries do")
		}
		tree := sv(sNil{})
		if ta := o.heap[a.obj]; ta.snapOK {
			t := x.newTree(o, n, ht{})
			func() {
				defer func() {
					if e := recover(); e != nil {
						u, isU := e.(undecided)
						if !isU {
							panic(e)
						}
						o.note("%s", u.msg)
					}
				}()
				o.trees[t.id].items = x.total(o, ta, key)
			}()
			tree = t
		} else {
			tree = ta.cells[key]
		}
		for _, nt := range o.notes {
			add("content", nt)
		}
		old := o.ret[0]
		if op == "get" {
			for _, nd := range o.heap {
				if nd.node != nil && !nd.pristine && !nd.alloc {
					add("content", "looking up modifies the table")
				}
			}
		}
		res := x.treeOutcome(o, n, op, k.id, val, tree, old, add)
		if o.dead || res.bad != "" {
			continue
		}
		want := int64(0)
		if op == "put" && !res.found {
			want = 1
		}
		if op == "remove" && res.found {
			want = -1
		}
		got, ok := ob.cells[h.size].(sInt)
		switch {
		case !ok || got.base != size.base:
			add("size", "the size is no longer related to what it was")
		case got.k != want:
			add("size", fmt.Sprintf("the size changes by %d where the number of entries changes by %d", got.k, want))
		default:
			add("size", "")
		}
	}
}

// listContent compares a chain with what it was; the order does not matter
func (x *shape) listContent(st *sst, root sv, op string, k int, val sv) (res contentRes) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				res.bad = u.msg
				return
			}
			panic(e)
		}
	}()
	x.saturate(st, []int{k})
	if st.dead {
		return
	}
	base := st.flat(st.ghost)
	got := st.seqOf(root)
	rel := x.rels(st, base, k)
	var want []sitem
	for i, it := range base {
		if it.kind == 'e' && rel[i] == rEQ {
			res.found, res.k, res.v = true, it.k, it.v
			switch op {
			case "put":
				want = append(want, sitem{kind: 'e', k: sTok{k}, v: val})
			case "get":
				want = append(want, it)
			}
			continue
		}
		want = append(want, it)
	}
	if !res.found {
		for i := range base {
			if rel[i]&rEQ != 0 {
				res.bad = "entries were not compared that may equal the key"
				return
			}
		}
		if op == "put" {
			want = append(want, sitem{kind: 'e', k: sTok{k}, v: val})
		}
	}
	used := make([]bool, len(got))
	ok := len(got) == len(want)
	for _, w := range want {
		hit := false
		for i, g := range got {
			if used[i] || g.kind != w.kind {
				continue
			}
			if g.kind == 's' && g.id == w.id || g.kind == 'e' && g.v == w.v && st.fact(tokID(g.k), tokID(w.k)) == rEQ {
				used[i], hit = true, true
				break
			}
		}
		ok = ok && hit
	}
	if !ok {
		res.bad = fmt.Sprintf("the chain holds %s where it should hold %s", showItems(got), showItems(want))
	}
	return
}

// rebuilds shows that a rebuilding function does what its callers are told
func (h *hashInfo) rebuilds(fn *ssa.Function) {
	x, n := h.shape()
	st := newSst()
	obj, arr, size := h.object(x, st, n)
	a := st.heap[arr]
	a.curSet, a.rest = true, st.id()
	st.ghost = []sitem{segItem(a.rest)}
	args := []sv{sPtr{obj, ""}}
	for _, p := range fn.Params[1:] {
		args = append(args, st.unknownOf(p.Type()))
	}
	x.start(st, fn, args...)
	outs := x.run(st)
	h.used(x, fn)
	add := func(rule, bad string) { h.add(rule, fn, bad) }
	x.terminates(func(_, bad string) { add("ends", bad) })
	kept, made := false, false
	for _, o := range outs {
		if o.panicV != "" {
			add("no-crash", o.panicV)
			continue
		}
		add("no-crash", "")
		ob := o.heap[obj]
		if ob.cells[h.seed] != sv(sInt{x.seedBase, 0}) {
			add("content", "the seed changes, so that the slots of the entries do")
		}
		sz := ""
		if ob.cells[h.size] != sv(size) {
			sz = "the size changes"
		}
		add("size", sz)
		na, ok := ob.cells[h.array].(sArr)
		if !ok {
			add("content", "the table is lost")
			continue
		}
		t := o.heap[na.obj]
		if !t.alloc {
			kept = true
			bad := ""
			if !t.pristine {
				bad = "the table is modified"
			}
			for _, nd := range o.heap {
				if nd.node != nil && !nd.pristine && !nd.alloc {
					bad = "entries are modified though the table is kept"
				}
			}
			add("content", bad)
			continue
		}
		made = true
		func() {
			defer func() {
				if e := recover(); e != nil {
					u, ok := e.(undecided)
					if !ok {
						panic(e)
					}
					add("content", u.msg)
				}
			}()
			x.absorb(o, t)
			bad := strings.Join(o.notes, "; ")
			was, now := o.flat(o.ghost), o.flat(o.moved)
			if bad == "" && !sameItems(was, now) {
				bad = fmt.Sprintf("the new table holds %s where the old one held %s", showItems(now), showItems(was))
			}
			if bad == "" && o.into != 0 && o.into != na.obj {
				bad = "the entries are put into a table that is not kept"
			}
			if bad == "" && x.lowInt(o, t.length) < 1 {
				bad = "the new table may have no slots"
			}
			add("content", bad)
		}()
	}
	_ = kept
	h.c.oblige("rebuilt", fname(fn), made, func() string { return "no path installs a new table" })
}

// sameItems: the same entries, in any order
func sameItems(a, b []sitem) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		if posIn(b, x) == len(b) || posIn(a[:i], x) < i {
			return false
		}
	}
	return true
}

// constructs: a new table is empty and has slots
func (h *hashInfo) constructs(fn *ssa.Function) {
	x, _ := h.shape()
	st := newSst()
	var args []sv
	for _, p := range fn.Params {
		args = append(args, st.unknownOf(p.Type()))
	}
	x.start(st, fn, args...)
	for _, o := range x.run(st) {
		if o.panicV != "" {
			bad := o.panicV
			if o.expl { // no random seed is to be had: no table
				bad = ""
			}
			h.add("no-crash", fn, bad)
			continue
		}
		h.add("no-crash", fn, "")
		bad := "no table is returned"
		for _, v := range o.ret {
			p, ok := v.(sPtr)
			if !ok || !identical(o.heap[p.obj].typ, h.typ) {
				continue
			}
			bad = ""
			ob := o.heap[p.obj]
			a, ok := o.cell(ob, h.array).(sArr)
			switch {
			case !ok:
				bad = "a table without slots"
			case x.lowInt(o, o.heap[a.obj].length) < 1:
				bad = "the new table may have no slots"
			case len(o.heap[a.obj].orig) > 0 || len(o.moved) > 0:
				bad = "the new table is not empty"
			case o.cell(ob, h.size) != sv(sInt{}):
				bad = "the size of a new table is not 0"
			}
		}
		h.add("constructed", fn, bad)
	}
}
