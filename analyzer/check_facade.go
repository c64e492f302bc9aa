package main

// M06: the maps and sets over the tree and the hash table, and their
// iterators. The collection underneath is replaced by what the properties M02
// to M05 say of it: what it holds for the one key the operation is about, and
// what an iterator of it has in front.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M06", "abstract interpretation of each operation, with the collection underneath replaced by its contract", checkFacades)
}

type facade struct {
	c     *Check
	name  string // of the facade
	under string // collection it stands for
	node  string // what the collection's operations return
	iter  string // the collection's iterator
	isMap bool
}

const (
	fBind  = "~binding"
	fFront = "~front"
	fStart = "~start"
	fEnd   = "~end"
)

func checkFacades(c *Check) {
	for _, f := range []*facade{
		{c, "collection.SortedMap", "collection.AVLTree", "collection.AVLNode", "collection.AVLIterator", true},
		{c, "collection.SortedSet", "collection.AVLTree", "collection.AVLNode", "collection.AVLIterator", false},
		{c, "collection.HashMap", "collection.Hash", "collection.HashNode", "collection.HashIterator", true},
		{c, "collection.HashSet", "collection.Hash", "collection.HashNode", "collection.HashIterator", false},
	} {
		f := f
		ops := []string{"Get", "Put", "Remove"}
		if !f.isMap {
			ops[0] = "Exist"
		}
		for _, op := range ops {
			op := op
			c.guard("decided", f.name+"."+op, func() { f.operation(op) })
		}
		c.guard("decided", f.name+".Size", f.size)
		c.guard("decided", f.name+" iteration", f.iteration)
		c.guard("decided", f.name+" creation", f.creation)
	}
	c.items["states executed"] = c.steps
	c.min["no-crash"] = 20
	c.min["result"] = 12
	c.min["effect"] = 12
	c.min["same-step"] = 12
	c.min["created"] = 4
}

// entryObj: an entry of the collection, as its operations hand one out
func (f *facade) entryObj(x *shape, st *sst) sPtr {
	n := x.nodeOf(f.node)
	id := st.newObj(n.named)
	o := st.heap[id]
	o.node = n
	k := st.tok()
	st.nilk[k.id] = 2
	o.cells[n.key], o.cells[n.val] = k, st.tok()
	return sPtr{id, ""}
}

func (f *facade) entryOf(x *shape, st *sst, k, v sv) sPtr {
	p := f.entryObj(x, st)
	n := x.nodeOf(f.node)
	st.heap[p.obj].cells[n.key], st.heap[p.obj].cells[n.val] = k, v
	return p
}

// known forks on what is in a ghost cell of an object: nothing, or an entry
func (f *facade) known(x *shape, st *sst, id int, cell string) sv {
	if v, ok := st.heap[id].cells[cell]; ok {
		return v
	}
	panic(needFork{func(s *sst) []*sst {
		a, b := s.clone(), s.clone()
		a.heap[id].cells[cell] = sNil{}
		b.heap[id].cells[cell] = f.entryObj(x, b)
		return []*sst{a, b}
	}})
}

func recvObj(st *sst, v sv) int {
	p, ok := v.(sPtr)
	if !ok {
		if _, isN := v.(sNil); isN {
			panic(crash{"operation on a nil collection"})
		}
		panic(undecided{fmt.Sprintf("operation on %T", v)})
	}
	return p.obj
}

// sameSv: the same value, or both nil
func sameSv(st *sst, a, b sv) bool {
	nil1 := func(v sv) bool {
		switch v := v.(type) {
		case sNil:
			return true
		case sTok:
			return st.nilk[v.id] == 1
		}
		return false
	}
	if nil1(a) && nil1(b) {
		return true
	}
	switch a.(type) {
	case sStk, sTup, sAgg:
		return false
	}
	switch b.(type) {
	case sStk, sTup, sAgg:
		return false
	}
	return a == b
}

// shape: an engine in which the collection is its contract, and the key the
// operation is about
func (f *facade) shape() (*shape, sTok, *sst, sPtr) {
	x := newShape(f.c)
	st := newSst()
	x.nodeOf(f.node)
	ut := f.c.r.typ(f.under)
	if ut == nil {
		panic(undecided{"type " + f.under + " not found"})
	}
	coll := st.newObj(ut)
	key := st.tok()
	st.nilk[key.id] = 2
	x.hook(f, ".Get", func(x *shape, st *sst, args []sv) []sv {
		f.mustKey(st, args[1], key)
		return []sv{f.known(x, st, recvObj(st, args[0]), fBind)}
	})
	x.hook(f, ".Put", func(x *shape, st *sst, args []sv) []sv {
		f.mustKey(st, args[1], key)
		id := recvObj(st, args[0])
		old := f.known(x, st, id, fBind)
		st.heap[id].cells[fBind] = f.entryOf(x, st, args[1], args[2])
		return []sv{old}
	})
	x.hook(f, ".Remove", func(x *shape, st *sst, args []sv) []sv {
		f.mustKey(st, args[1], key)
		id := recvObj(st, args[0])
		old := f.known(x, st, id, fBind)
		st.heap[id].cells[fBind] = sNil{}
		return []sv{old}
	})
	sz := fieldOf(ut, func(t typeT) bool { return isIntT(t) && t.String() == "int" })
	if len(sz) != 1 {
		panic(undecided{f.under + " does not have one size"})
	}
	x.hook(f, ".Size", func(x *shape, st *sst, args []sv) []sv {
		return []sv{st.cell(st.heap[recvObj(st, args[0])], fmt.Sprint(sz[0]))}
	})
	mk := func(st *sst, of sv, start, end sv) []sv {
		id := recvObj(st, of)
		it := f.c.r.typ(f.iter)
		if it == nil {
			panic(undecided{"type " + f.iter + " not found"})
		}
		n := st.newObj(it)
		st.heap[n].cells[fStart], st.heap[n].cells[fEnd] = start, end
		st.heap[n].cells["~of"] = sPtr{id, ""}
		return []sv{sIface{ptrTo(it), sPtr{n, ""}}}
	}
	x.hook(f, ".Iterator", func(x *shape, st *sst, args []sv) []sv { return mk(st, args[0], sNil{}, sNil{}) })
	if f.c.r.fn(f.under+".RangeIterator") != nil {
		x.hook(f, ".RangeIterator", func(x *shape, st *sst, args []sv) []sv { return mk(st, args[0], args[1], args[2]) })
	}
	ifc := func(v sv) []sv {
		if p, ok := v.(sPtr); ok {
			return []sv{sIface{ptrTo(f.c.r.typ(f.node)), p}}
		}
		return []sv{sNil{}}
	}
	x.hookFn(f.c.need(f.iter+".Next"), func(x *shape, st *sst, args []sv) []sv {
		id := recvObj(st, args[0])
		v := f.known(x, st, id, fFront)
		if _, ok := v.(sPtr); ok {
			delete(st.heap[id].cells, fFront)
			n, _ := st.heap[id].cells["~steps"].(sInt)
			st.heap[id].cells["~steps"] = sInt{0, n.k + 1}
		}
		return ifc(v)
	})
	x.hookFn(f.c.need(f.iter+".Peek"), func(x *shape, st *sst, args []sv) []sv {
		return ifc(f.known(x, st, recvObj(st, args[0]), fFront))
	})
	x.hookFn(f.c.need(f.iter+".HasNext"), func(x *shape, st *sst, args []sv) []sv {
		_, ok := f.known(x, st, recvObj(st, args[0]), fFront).(sPtr)
		return []sv{sBool(ok)}
	})
	return x, key, st, sPtr{coll, ""}
}

func (x *shape) hook(f *facade, op string, h func(*shape, *sst, []sv) []sv) {
	x.hookFn(f.c.need(f.under+op), h)
}

func (x *shape) hookFn(fn *ssa.Function, h func(*shape, *sst, []sv) []sv) {
	if fn == nil {
		return
	}
	x.hooks[fn] = func(x *shape, st *sst, args []sv) []*sst {
		x.setRes(st, h(x, st, args))
		return nil
	}
}

func (f *facade) mustKey(st *sst, v sv, key sTok) {
	if v != sv(key) {
		if _, ok := v.(sNil); ok {
			panic(crash{"the collection is asked about a nil key"})
		}
		panic(crash{"the collection is asked about another key than the one given"})
	}
}

// object: a facade over the collection
func (f *facade) object(st *sst, coll sPtr) sPtr {
	t := f.c.r.typ(f.name)
	if t == nil {
		panic(undecided{"type " + f.name + " not found"})
	}
	fs := fieldOf(t, func(ft typeT) bool { return identical(ft, ptrTo(f.c.r.typ(f.under))) })
	if len(fs) != 1 {
		panic(undecided{f.name + " does not hold one collection"})
	}
	id := st.newObj(t)
	st.heap[id].cells[fmt.Sprint(fs[0])] = coll
	return sPtr{id, ""}
}

func (f *facade) same(st *sst, obj, coll sPtr, was map[string]sv) string {
	for k, v := range was {
		if !sameSv(st, st.heap[obj.obj].cells[k], v) {
			return "the " + f.name + " afterwards stands for another collection"
		}
	}
	for k := range st.heap[coll.obj].cells {
		if k[0] != '~' {
			if v, ok := st.heap[coll.obj].cells[k].(sInt); ok && v.base != 0 && v.k == 0 {
				continue
			}
			return "the collection is modified directly"
		}
	}
	return ""
}

func copyCells(m map[string]sv) map[string]sv {
	r := map[string]sv{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (f *facade) operation(op string) {
	fn := f.c.need(f.name + "." + op)
	if fn == nil {
		return
	}
	x, key, st, coll := f.shape()
	obj := f.object(st, coll)
	was := copyCells(st.heap[obj.obj].cells)
	n := x.nodeOf(f.node)
	// what the collection holds for the key at the start: both cases
	var starts []*sst
	a, b := st.clone(), st.clone()
	a.heap[coll.obj].cells[fBind] = sNil{}
	e := f.entryObj(x, b)
	b.heap[coll.obj].cells[fBind] = e
	starts = append(starts, a, b)
	for i, s := range starts {
		args := []sv{obj, key}
		val := sv(nil)
		if op == "Put" && f.isMap {
			t := s.tok()
			val = t
			args = append(args, t)
		}
		var oldK, oldV sv
		if i == 1 {
			oldK, oldV = s.heap[e.obj].cells[n.key], s.heap[e.obj].cells[n.val]
		}
		s.roots = []int{obj.obj, coll.obj}
		x.start(s, fn, args...)
		for _, o := range x.run(s) {
			f.c.oblige("no-crash", fname(fn), o.panicV == "", func() string { return o.panicV })
			if o.panicV != "" {
				continue
			}
			bad := ""
			got := o.ret[0]
			switch {
			case op == "Exist":
				if bv, ok := got.(sBool); !ok || bool(bv) != (i == 1) {
					bad = fmt.Sprintf("answers %s where the set %s the key", showSv(got), [2]string{"does not have", "has"}[i])
				}
			case i == 0:
				if !sameSv(o, got, sNil{}) {
					bad = "returns something though there is nothing for the key"
				}
			case f.isMap:
				if !sameSv(o, got, oldV) {
					bad = "does not return the value that was held for the key"
				}
			default:
				if !sameSv(o, got, oldK) {
					bad = "does not return the key that was held"
				}
			}
			f.c.oblige("result", fname(fn), bad == "", func() string { return bad })
			bad = f.same(o, obj, coll, was)
			now := o.heap[coll.obj].cells[fBind]
			p, has := now.(sPtr)
			var nk, nv sv
			if has {
				nk, nv = o.heap[p.obj].cells[n.key], o.heap[p.obj].cells[n.val]
			}
			switch {
			case bad != "":
			case op == "Remove":
				if has {
					bad = "the key is still held"
				}
			case op == "Put":
				if !has {
					bad = "the key is not held"
				} else if !sameSv(o, nk, key) {
					bad = "another key is held"
				} else if f.isMap && !sameSv(o, nv, val) {
					bad = "the value held for the key is not the one given"
				}
			default:
				if has != (i == 1) || has && (!sameSv(o, nk, oldK) || !sameSv(o, nv, oldV)) {
					bad = "looking a key up changes what is held"
				}
			}
			f.c.oblige("effect", fname(fn), bad == "", func() string { return bad })
		}
	}
}

func (f *facade) size() {
	fn := f.c.need(f.name + ".Size")
	if fn == nil {
		return
	}
	x, _, st, coll := f.shape()
	obj := f.object(st, coll)
	was := copyCells(st.heap[obj.obj].cells)
	size := x.hooks[f.c.need(f.under+".Size")]
	_ = size
	sz := fieldOf(f.c.r.typ(f.under), func(t typeT) bool { return isIntT(t) && t.String() == "int" })
	want := st.cell(st.heap[coll.obj], fmt.Sprint(sz[0]))
	x.start(st, fn, obj)
	for _, o := range x.run(st) {
		f.c.oblige("no-crash", fname(fn), o.panicV == "", func() string { return o.panicV })
		if o.panicV == "" {
			f.c.oblige("result", fname(fn), o.ret[0] == want, func() string { return "does not return the size of the collection" })
			bad := f.same(o, obj, coll, was)
			f.c.oblige("effect", fname(fn), bad == "", func() string { return bad })
		}
	}
}

// iteration: every state an iterator can get into, and every step from there
func (f *facade) iteration() {
	for _, mkn := range []string{"Iterator", "RangeIterator"} {
		fn := f.c.r.fn(f.name + "." + mkn)
		if fn == nil {
			if mkn == "Iterator" {
				f.c.need(f.name + "." + mkn)
			}
			continue
		}
		x, _, st, coll := f.shape()
		n := x.nodeOf(f.node)
		obj := f.object(st, coll)
		was := copyCells(st.heap[obj.obj].cells)
		args := []sv{obj}
		var lo, hi sv = sNil{}, sNil{}
		if mkn == "RangeIterator" {
			lo, hi = st.tok(), st.tok()
			args = append(args, lo, hi)
		}
		st.roots = []int{obj.obj, coll.obj}
		x.start(st, fn, args...)
		type pair struct {
			st *sst
			it sIface
		}
		var work []pair
		seen := map[string]bool{}
		inner := func(s *sst) int { // the collection's iterator
			r := 0
			for id, o := range s.heap {
				if _, ok := o.cells["~of"]; ok {
					if r != 0 {
						panic(undecided{"two iterators of the collection"})
					}
					r = id
				}
			}
			return r
		}
		push := func(o *sst, it sIface) {
			o.ret = nil
			p := it.v.(sPtr)
			o.roots = []int{obj.obj, coll.obj, p.obj}
			id := inner(o)
			delete(o.heap[id].cells, "~steps")
			k := x.canon(o)
			if !seen[k] {
				seen[k] = true
				work = append(work, pair{o, it})
			}
			if len(seen) > 200 {
				panic(undecided{"no invariant found for the iteration"})
			}
		}
		for _, o := range x.run(st) {
			f.c.oblige("no-crash", fname(fn), o.panicV == "", func() string { return o.panicV })
			if o.panicV != "" {
				continue
			}
			it, ok := o.ret[0].(sIface)
			if ok {
				_, ok = it.v.(sPtr)
			}
			id := inner(o)
			bad := ""
			switch {
			case !ok || id == 0:
				bad = "does not return an iterator of the collection"
			case o.heap[id].cells["~of"] != sv(coll):
				bad = "iterates another collection"
			case !sameSv(o, o.heap[id].cells[fStart], lo) || !sameSv(o, o.heap[id].cells[fEnd], hi):
				bad = "does not iterate the range given"
			case o.heap[id].cells["~steps"] != nil:
				bad = "the iteration does not begin at its start"
			default:
				bad = f.same(o, obj, coll, was)
			}
			f.c.oblige("same-range", fname(fn), bad == "", func() string { return bad })
			if bad == "" {
				push(o, it)
			}
		}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			for _, m := range []string{"Next", "HasNext", "Peek"} {
				step := f.c.r.prog.LookupMethod(w.it.typ, fn.Pkg.Pkg, m)
				if step == nil {
					panic(undecided{w.it.typ.String() + " has no " + m})
				}
				// what is in front before the step: both cases
				id := inner(w.st)
				var starts []*sst
				if _, ok := w.st.heap[id].cells[fFront]; ok {
					starts = []*sst{w.st.clone()}
				} else {
					a, b := w.st.clone(), w.st.clone()
					a.heap[id].cells[fFront] = sNil{}
					b.heap[id].cells[fFront] = f.entryObj(x, b)
					starts = []*sst{a, b}
				}
				for _, s := range starts {
					front := s.heap[id].cells[fFront]
					p, has := front.(sPtr)
					var k, v sv = sNil{}, sNil{}
					if has {
						k, v = s.heap[p.obj].cells[n.key], s.heap[p.obj].cells[n.val]
					}
					x.start(s, step, w.it.v)
					for _, o := range x.run(s) {
						f.c.oblige("no-crash", fname(step), o.panicV == "", func() string { return o.panicV })
						if o.panicV != "" {
							continue
						}
						bad := ""
						if m == "HasNext" {
							if b, ok := o.ret[0].(sBool); !ok || bool(b) != has {
								bad = "does not say whether there is more"
							}
						} else {
							if !sameSv(o, o.ret[0], k) {
								bad = "does not return the key of the entry in front"
								if !has {
									bad = "returns something though there is nothing more"
								}
							} else if len(o.ret) > 1 && !sameSv(o, o.ret[1], v) {
								bad = "does not return the value of the entry in front"
							}
						}
						steps, _ := o.heap[id].cells["~steps"].(sInt)
						want := int64(0)
						if m == "Next" && has {
							want = 1
						}
						if bad == "" && steps.k != want {
							bad = fmt.Sprintf("goes on by %d entries instead of %d", steps.k, want)
						}
						if bad == "" {
							bad = f.same(o, obj, coll, was)
						}
						f.c.oblige("same-step", fname(step), bad == "", func() string { return bad })
						if bad == "" {
							push(o, w.it)
						}
					}
				}
			}
		}
		f.c.items["states between steps"] += len(seen)
	}
}

// creation: a facade is created over a new, empty collection, with the
// parameters given
func (f *facade) creation() {
	ut, ft := f.c.r.typ(f.under), f.c.r.typ(f.name)
	n := 0
	for _, fn := range f.c.r.funcs {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Signature.Results().Len() != 1 || !identical(fn.Signature.Results().At(0).Type(), ptrTo(ft)) {
			continue
		}
		n++
		x := newShape(f.c)
		x.nodeOf(f.node)
		st := newSst()
		made := map[int][]sv{}
		for _, g := range f.c.r.funcs {
			if g.Signature.Recv() == nil && g.Parent() == nil && g.Signature.Results().Len() == 1 && identical(g.Signature.Results().At(0).Type(), ptrTo(ut)) {
				x.hookFn(g, func(x *shape, st *sst, args []sv) []sv {
					id := st.newObj(ut)
					made[id] = args
					return []sv{sPtr{id, ""}}
				})
			}
		}
		var args []sv
		for _, p := range fn.Params {
			args = append(args, st.unknownOf(p.Type()))
		}
		x.start(st, fn, args...)
		for _, o := range x.run(st) {
			bad := o.panicV
			var coll sPtr
			if bad == "" {
				if p, ok := o.ret[0].(sPtr); !ok {
					bad = "returns nil"
				} else {
					fs := fieldOf(ft, func(t typeT) bool { return identical(t, ptrTo(ut)) })
					if len(fs) != 1 {
						panic(undecided{f.name + " does not hold one collection"})
					}
					coll, ok = o.cell(o.heap[p.obj], fmt.Sprint(fs[0])).(sPtr)
					if !ok {
						bad = "the collection underneath is nil"
					}
				}
			}
			if bad == "" {
				if was, ok := made[coll.obj]; ok {
					if len(args) > 0 {
						if len(was) != len(args) {
							bad = "the parameters given are not used"
						}
						for i := range was {
							if bad == "" && !sameSv(o, was[i], args[i]) {
								bad = fmt.Sprintf("parameter %d given is not the one used", i+1)
							}
						}
					}
				} else if ut.Underlying() != nil && f.under == "collection.Hash" {
					bad = "the table underneath was not made by a function that makes one"
				} else {
					for k, v := range o.heap[coll.obj].cells {
						if v != sv(sNil{}) && v != sv(sInt{}) {
							bad = "the collection underneath is not empty at " + k
						}
					}
				}
			}
			f.c.oblige("created", fname(fn), bad == "", func() string { return bad })
		}
	}
	if n == 0 {
		panic(undecided{"nothing creates a " + f.name})
	}
}
