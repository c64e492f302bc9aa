package main

// E05: what constructors and updaters store is what was given, where it was
// asked for.

import (
	"go/types"
	"math/big"
)

// access1 are the outcomes of an accessor that do not crash; a crash is a
// finding of call
func (c *Check) access1(x *Exec, st *State, name string, args ...Value) []Outcome {
	var r []Outcome
	for _, o := range c.call(x, st, name, args...) {
		if !o.st.infeasible() {
			r = append(r, o)
		}
	}
	return r
}

// sameObj: two values are the same object, or the same bytes in order
func (c *Check) sameThing(st *State, a, b Value) bool {
	if a.vkey() == b.vkey() || st.eqVal(a, b) || st.isNil(a) == 1 && st.isNil(b) == 1 {
		return true
	}
	f, ok1 := a.(VIface)
	g, ok2 := b.(VIface)
	if ok1 || ok2 {
		if ok1 {
			a = f.V
		}
		if ok2 {
			b = g.V
		}
		return a.vkey() == b.vkey()
	}
	v, ok1 := a.(VSlice)
	w, ok2 := b.(VSlice)
	if ok1 && ok2 && st.eqL(sliceLen(v), sliceLen(w)) {
		if st.eqL(sliceLen(v), LC(0)) {
			return (st.isNil(a) == 1) == (st.isNil(b) == 1)
		}
		return v.Obj != nil && w.Obj != nil && st.eqContent(st.bytesOf(v), st.bytesOf(w))
	}
	return false
}

// noneOf: a slice of no elements, nil or not
func emptySlice(st *State, v Value) bool {
	s, ok := v.(VSlice)
	return st.isNil(v) == 1 || ok && st.eqL(sliceLen(s), LC(0))
}

// oneOf: v is a list of exactly the byte string b
func (c *Check) oneOf(st *State, v Value, b VSlice) bool {
	s, ok := v.(VSlice)
	if !ok || s.Obj == nil || !st.eqL(s.Len, LC(1)) {
		return false
	}
	e := st.at(st.arr(s), s.Off, byteSlice)
	return c.sameThing(st, e, b)
}

func init() {
	register("E05", "abstract interpretation of every constructor and updater of keys, values, lists, records on an arbitrary object and arbitrary arguments: the accessors give what was stored where it was asked for, and for everything else what they gave before; every index read gives the element of that index", checkBuild)
}

func checkBuild(c *Check) {
	x := newExec(c.r)
	c.guard("stores", "util.Record", func() { c.buildRecord(x) })
	c.guard("stores", "constructors", func() { c.buildNew(x) })
	c.guard("stores", "util.Key", func() { c.buildKey(x) })
	for _, k := range []struct{ typ, at, iface string }{{"util.ValueArray", "ValueAt", "util.IValue"}, {"util.RecordList", "RecordAt", "util.IRecord"}} {
		k := k
		c.guard("stores", k.typ, func() { c.buildList(x, k.typ, k.at, k.iface) })
	}
	c.guard("element", "util.MappedKey.SubKeyAt", func() { c.indexed(x, "util.MappedKey", "Key", "SubKeyAt") })
	c.guard("element", "util.Key.SubKeyAt", func() { c.indexed(x, "util.Key", "Key", "SubKeyAt") })
	c.guard("element", "util.Scheme.BucketAt", func() { c.indexed(x, "util.Scheme", "Buckets", "BucketAt") })
	c.guard("element", "util.MappedScheme.BucketAt", func() { c.indexed(x, "util.MappedScheme", "Buckets", "BucketAt") })
	for _, t := range []string{"util.Scheme", "util.MappedScheme"} {
		t := t
		c.guard("name", t, func() { c.schemeNames(x, t) })
	}
	c.min["stores"] = 16
	c.min["keeps"] = 39
	c.min["element"] = 6
	c.min["new-is-empty"] = 5
	c.min["name"] = 4
	c.absorb(x)
}

// decodedFlag makes a mapped object a decoded one
func decodedFlag(st *State, p VPtr) []*State {
	b, ok := st.field(p, "decoded").(VBool)
	if !ok {
		return []*State{st}
	}
	return given(st, b.C)
}

var recordAccess = []string{"Key", "Value", "Scheme", "Timestamp", "Signature"}

func (c *Check) buildRecord(x *Exec) {
	for _, u := range []struct {
		m, part string
		args    []Value
		inner   string // accessor that gives the bytes given
	}{
		{"SetKey", "Key", []Value{c.sym("k", c.r.typ("util.IKey"))}, ""},
		{"SetK", "Key", []Value{c.symBytes("b")}, "Key"},
		{"SetValue", "Value", []Value{c.sym("v", c.r.typ("util.IValue"))}, ""},
		{"SetV", "Value", []Value{c.symBytes("b")}, "Value"},
		{"SetScheme", "Scheme", []Value{c.sym("s", c.r.typ("util.IValue"))}, ""},
		{"SetS", "Scheme", []Value{c.symBytes("b")}, "Value"},
		{"SetTimestamp", "Timestamp", []Value{c.sym("t", types.NewPointer(c.r.typ("time.Time")))}, ""},
		{"SetSignature", "Signature", []Value{c.sym("R", types.NewPointer(c.r.typ("big.Int"))), c.sym("S", types.NewPointer(c.r.typ("big.Int")))}, ""},
	} {
		name := "util.Record." + u.m
		st := newState()
		p := c.symObj(st, "record", "util.Record")
		sts := []*State{st}
		if b, ok := u.args[0].(VSlice); ok {
			sts = given(st, condGE(b.Len.addc(-1)))
		} else if u.part != "Timestamp" && u.part != "Signature" {
			sts = given(st, nilCond(st, u.args[0]).not())
		}
		before := map[string][]Value{}
		for _, a := range recordAccess {
			for _, o := range c.access1(x, st.clone(), "util.Record."+a, p) {
				before[a] = o.rets
			}
		}
		n := 0
		for _, g := range sts {
			for _, o := range c.access1(x, g, name, append([]Value{p}, u.args...)...) {
				n++
				why := func() string { return valStrings(o.rets) + "\n" + c.path(o.st) }
				c.oblige("gives-itself", name, o.rets[0].vkey() == p.vkey(), why)
				for _, a := range recordAccess {
					for _, r := range c.access1(x, o.st.clone(), "util.Record."+a, p) {
						why := func() string { return a + " gives " + valStrings(r.rets) + "\n" + c.path(r.st) }
						if a != u.part {
							good := len(before[a]) == len(r.rets)
							for i := range before[a] {
								good = good && c.sameThing(r.st, r.rets[i], before[a][i])
							}
							c.oblige("keeps", name+" "+a, good, why)
							continue
						}
						if u.inner == "" {
							good := len(r.rets) == len(u.args)
							for i := range u.args {
								good = good && c.sameThing(r.st, r.rets[i], u.args[i])
							}
							c.oblige("stores", name, good, why)
							continue
						}
						f, ok := r.rets[0].(VIface)
						if !c.oblige("stores", name, ok, why) {
							continue
						}
						T := typeKey(f.T)
						for _, b := range c.access1(x, r.st.clone(), trimStar(T)+"."+u.inner, f.V) {
							arg := u.args[0].(VSlice)
							if u.inner == "Key" {
								c.oblige("stores", name, c.oneOf(b.st, b.rets[0], arg), why)
							} else {
								c.oblige("stores", name, c.sameThing(b.st, b.rets[0], arg), why)
							}
						}
					}
				}
			}
		}
		c.oblige("stores", name, n > 0, nil)
	}
}

func trimStar(s string) string {
	if len(s) > 0 && s[0] == '*' {
		return s[1:]
	}
	return s
}

func (c *Check) buildNew(x *Exec) {
	b := c.symBytes("b")
	str := c.sym("text", types.Typ[types.String])
	for _, k := range []struct {
		ctor string
		args []Value
		get  string
		one  bool
	}{
		{"util.NewSimpleKey", []Value{b}, "util.Key.Key", true},
		{"util.NewStringKey", []Value{str}, "util.Key.Key", true},
		{"util.NewPrimitive", []Value{b}, "util.Primitive.Value", false},
		{"util.NewKey", nil, "util.Key.Key", false},
		{"util.NewValueArray", nil, "util.ValueArray.Size", false},
		{"util.NewRecordList", nil, "util.RecordList.Size", false},
		{"util.NewRecord", nil, "util.Record", false},
		{"util.NewScheme", nil, "util.Scheme", false},
	} {
		for _, g := range given(newState(), condGE(b.Len.addc(-1))) {
			for _, o := range c.access1(x, g, k.ctor, k.args...) {
				gets := []string{k.get}
				switch k.get {
				case "util.Record":
					gets = nil
					for _, a := range recordAccess {
						gets = append(gets, "util.Record."+a)
					}
				case "util.Scheme":
					gets = []string{"util.Scheme.Domain", "util.Scheme.Tablet", "util.Scheme.Buckets"}
				}
				for _, get := range gets {
					for _, r := range c.access1(x, o.st.clone(), get, o.rets[0]) {
						why := func() string { return get + " gives " + valStrings(r.rets) + "\n" + c.path(r.st) }
						v := r.rets[0]
						switch {
						case len(k.args) == 0:
							good := true
							for _, v := range r.rets {
								if n, ok := v.(VInt); ok {
									good = good && r.st.eqL(n.L, LC(0))
								} else {
									good = good && emptySlice(r.st, v)
								}
							}
							c.oblige("new-is-empty", k.ctor, good, why)
						case k.one:
							s, ok := v.(VSlice)
							good := ok && s.Obj != nil && r.st.eqL(s.Len, LC(1))
							if good {
								e, ok := r.st.at(r.st.arr(s), s.Off, byteSlice).(VSlice)
								good = ok
								if t, isStr := k.args[0].(VStr); isStr && ok {
									good = r.st.eqL(sliceLen(e), t.C.length()) && (sliceLen(e).isInt(0) || r.st.eqContent(r.st.bytesOf(e), t.C))
								} else if ok {
									good = c.sameThing(r.st, e, b)
								}
							}
							c.oblige("stores", k.ctor, good, why)
						default:
							c.oblige("stores", k.ctor, c.sameThing(r.st, v, b), why)
						}
					}
				}
			}
		}
	}
}

func (c *Check) buildKey(x *Exec) {
	const name = "util.Key.Add"
	st := newState()
	p := c.symObj(st, "key", "util.Key")
	sub := c.symBytes("sub")
	for _, old := range c.access1(x, st, "util.Key.Key", p) {
		es, ok := old.rets[0].(VSlice)
		if !ok {
			c.fail("stores", name, "Key gives %s", valString(old.rets[0]))
			continue
		}
		for _, g := range given(old.st, condGE(sub.Len.addc(-1))) {
			pre := g.clone()
			for _, o := range c.access1(x, g, name, p, sub) {
				c.oblige("gives-itself", name, o.rets[0].vkey() == p.vkey(), func() string { return valStrings(o.rets) })
				for _, r := range c.access1(x, o.st.clone(), "util.Key.Key", p) {
					s, ok := r.rets[0].(VSlice)
					why := func() string {
						return "Key gives " + valString(r.rets[0]) + " " + r.st.arr(r.rets[0].(VSlice)).String() + "\n" + c.path(r.st)
					}
					if !c.oblige("stores", name+" length", ok && r.st.eqL(sliceLen(s), sliceLen(es).addc(1)), why) {
						continue
					}
					c.oblige("stores", name, c.sameThing(r.st, r.st.at(r.st.arr(s), s.Off.add(sliceLen(es)), byteSlice), sub), why)
					h := r.st.clone()
					i := LT(mkTerm("any:i"))
					h.push(i, false)
					h.push(sliceLen(es).sub(i).addc(-1), false)
					if !h.infeasible() {
						c.oblige("keeps", name, es.Obj != nil && c.sameThing(h, h.at(h.arr(s), s.Off.add(i), byteSlice), h.at(pre.arr(es), es.Off.add(i), byteSlice)), why)
					}
				}
			}
		}
	}
}

func (c *Check) buildList(x *Exec, typ, at, iface string) {
	T := c.r.typ(iface)
	if T == nil {
		panic(undecided{iface + " not found"})
	}
	st := newState()
	p := c.symObj(st, "list", typ)
	es, ok := c.elements(st, p)
	if !ok {
		panic(undecided{"no field holds the elements"})
	}
	neverNil[es.Obj] = true
	// the array behind the elements
	room := st.arr(es).length().sub(es.Off).sub(es.Cap)
	st.push(room, false)
	// as many as the size can tell
	st.push(LC(65534).sub(es.Len), false)
	size := func(st *State, want Lin, name string) {
		for _, r := range c.access1(x, st.clone(), typ+".Size", p) {
			c.oblige("stores", name+" size", r.st.eqL(intOf(r.rets[0]), want), func() string { return "Size gives " + valString(r.rets[0]) + "\n" + c.path(r.st) })
		}
	}
	elem := func(i Lin) Value { return st.at(st.arr(es), es.Off.add(i), T) }
	sym := func(n string) Lin {
		return LT(setRange(mkTerm("in:"+n), big0, big.NewInt(65535)))
	}
	get := func(rule, name string, st *State, i Lin, want Value, conds ...*Cond) {
		for _, g := range given(st.clone(), conds...) {
			for _, r := range c.access1(x, g, typ+"."+at, p, VInt{i}) {
				c.oblige(rule, name, r.st.isNil(r.rets[1]) == 1 && c.sameThing(r.st, r.rets[0], want), func() string {
					return at + " of " + i.String() + " gives " + valStrings(r.rets) + ", not " + valString(want) + "\n" + c.path(r.st)
				})
			}
		}
	}
	i, j := sym("i"), sym("j")
	// reading
	size(st, es.Len, typ)
	get("element", typ+"."+at, st, i, elem(i), condGE(es.Len.sub(i).addc(-1)))
	for _, g := range given(st.clone(), condGE(i.sub(es.Len))) {
		for _, r := range c.access1(x, g, typ+"."+at, p, VInt{i}) {
			c.oblige("element", typ+"."+at+" outside", r.st.isNil(r.rets[1]) == -1, func() string { return valStrings(r.rets) + "\n" + c.path(r.st) })
		}
	}
	// appending
	e := c.sym("new", T)
	name := typ + ".Append"
	for _, g := range given(st.clone(), nilCond(st, e).not()) {
		for _, o := range c.access1(x, g, name, p, e) {
			c.oblige("gives-itself", name, o.rets[0].vkey() == p.vkey(), func() string { return valStrings(o.rets) })
			size(o.st, es.Len.addc(1), name)
			get("stores", name, o.st, es.Len, e)
			get("keeps", name, o.st, i, elem(i), condGE(es.Len.sub(i).addc(-1)))
		}
	}
	// removing
	name = typ + ".DeleteAt"
	for _, g := range given(st.clone(), condGE(es.Len.sub(j).addc(-1))) {
		for _, o := range c.access1(x, g, name, p, VInt{j}) {
			c.oblige("gives-itself", name, o.rets[0].vkey() == p.vkey(), func() string { return valStrings(o.rets) })
			size(o.st, es.Len.addc(-1), name)
			get("keeps", name+" before", o.st, i, elem(i), condGE(j.sub(i).addc(-1)))
			get("keeps", name+" after", o.st, i, elem(i.addc(1)), condGE(i.sub(j)), condGE(es.Len.sub(i).addc(-2)))
		}
	}
}

// indexed: the accessor of one element gives the element of the list of all
func (c *Check) indexed(x *Exec, typ, all, at string) {
	st := newState()
	p := c.symObj(st, "object", typ)
	for _, g := range decodedFlag(st, p) {
		for _, o := range c.access1(x, g, typ+"."+all, p) {
			s, ok := o.rets[0].(VSlice)
			if !ok || s.Obj == nil {
				continue
			}
			i := c.sym("i", types.Typ[types.Int])
			for _, h := range given(o.st, nilCond(o.st, s).not(), condGE(intOf(i)), condGE(s.Len.sub(intOf(i)).addc(-1))) {
				want := h.at(h.arr(s), s.Off.add(intOf(i)), byteSlice)
				for _, r := range c.access1(x, h, typ+"."+at, p, i) {
					c.oblige("element", typ+"."+at, c.sameThing(r.st, r.rets[0], want), func() string {
						return valStrings(r.rets) + ", not " + valString(want) + "\n" + c.path(r.st)
					})
				}
			}
		}
	}
}

func (c *Check) schemeNames(x *Exec, typ string) {
	st := newState()
	p := c.symObj(st, "scheme", typ)
	for _, k := range []string{"Domain", "Tablet"} {
		for _, g := range decodedFlag(st.clone(), p) {
			for _, o := range c.access1(x, g, typ+"."+k, p) {
				v, ok := o.rets[0].(VSlice)
				if !ok {
					c.fail("name", typ+"."+k, "gives %s", valString(o.rets[0]))
					continue
				}
				for _, cd := range []*Cond{nilCond(o.st, v), nilCond(o.st, v).not()} {
					for _, h := range given(o.st.clone(), cd) {
						for _, r := range c.access1(x, h, typ+"."+k+"Name", p) {
							s, ok := r.rets[0].(VStr)
							good := ok
							if r.st.isNil(v) == 1 {
								good = ok && s.C.length().isInt(0)
							} else if ok {
								good = r.st.eqL(s.C.length(), v.Len) && r.st.eqContent(s.C, r.st.bytesOf(v))
							}
							c.oblige("name", typ+"."+k+"Name", good, func() string { return valStrings(r.rets) + " for " + valString(v) + "\n" + c.path(r.st) })
						}
					}
				}
			}
		}
	}
}
