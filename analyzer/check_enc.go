package main

// E01, E02, E04: the encoding state of constructed objects.

import (
	"fmt"
	"go/types"
)

// constructedTypes are the objects that are built, changed and encoded
var constructedTypes = []string{"util.Key", "util.Primitive", "util.ValueArray", "util.RecordList", "util.Record", "util.Scheme"}

// refKind: values of this type refer to something that can be changed
func refKind(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.String
	}
	return false
}

// encObj is an arbitrary constructed object
type encObj struct {
	c       *Check
	x       *Exec
	typ     string
	st      *State
	p       VPtr
	fields  []string // what it holds
	bufF    string   // the field its encoding is kept in
	started bool
}

// encObjs: an arbitrary object of a constructed type, as far as its
// constructor and methods can make one (its lists are not nil)
func (c *Check) encObj(typ string) *encObj {
	x := newExec(c.r)
	x.trackW = true
	st := newState()
	e := &encObj{c: c, x: x, typ: typ, st: st, p: c.symObj(st, "object", typ)}
	T := c.r.typ(typ).Underlying().(*types.Struct)
	// the field that holds the encoding is the one that is handed out
	for _, o := range e.raw(st.clone(), "Buf") {
		if o.panic != nil {
			continue
		}
		b, ok := o.rets[0].(VSlice)
		if !ok || b.Obj == nil {
			continue
		}
		for i := 0; i < T.NumFields(); i++ {
			f := T.Field(i)
			if v, ok := st.field(e.p, f.Name()).(VSlice); ok && v.Obj == b.Obj && v.Len.eq(b.Len) {
				e.bufF = f.Name()
			}
		}
	}
	if e.bufF == "" {
		c.fail("anchor", typ, "the field that holds the encoding was not found")
	}
	for i := 0; i < T.NumFields(); i++ {
		f := T.Field(i)
		if refKind(f.Type()) && f.Name() != e.bufF {
			e.fields = append(e.fields, f.Name())
		}
		// the lists of a key or value array made by a constructor are not nil
		if s, ok := f.Type().Underlying().(*types.Slice); ok && typ != "util.Scheme" && typ != "util.Primitive" && f.Name() != e.bufF {
			v := st.field(e.p, f.Name()).(VSlice)
			if _, ok := s.Elem().Underlying().(*types.Interface); ok {
				v.Obj = mkTerm("fill:elements")
				objType[v.Obj] = types.NewArray(s.Elem(), -1)
				st.setField(e.p, f.Name(), v)
			}
			cd := nilCond(st, v).not()
			if gs := st.assume(cd, true); len(gs) == 1 {
				*st = *gs[0]
			}
		}
	}
	return e
}

func (e *encObj) raw(st *State, m string, args ...Value) []Outcome {
	fn := e.c.need(e.typ + "." + m)
	if fn == nil {
		return nil
	}
	return e.x.callFn(st, fn, append([]Value{e.p}, args...), nil, nil)
}

// is: method m without arguments surely returns want
func (e *encObj) is(st *State, m string, want bool) bool {
	outs := e.raw(st.clone(), m)
	for _, o := range outs {
		if o.st.infeasible() {
			continue
		}
		if o.panic != nil || !e.c.isTrue(o.st, o.rets[0], want) {
			return false
		}
	}
	return len(outs) > 0
}

// changed tells what of the content differs between two states
func (e *encObj) changed(a, b *State, mark *Event, fields []string) string {
	for _, f := range fields {
		v, w := a.field(e.p, f), b.field(e.p, f)
		if v.vkey() != w.vkey() && !b.eqVal(v, w) {
			return f + " becomes " + valString(w)
		}
	}
	for _, v := range flatten(b.events(mark)) {
		if o := written(v); o != nil && o != e.p.Obj {
			at := "?"
			if v.in != nil {
				at = fname(v.in)
			}
			return "what it holds is written in " + at
		}
	}
	return ""
}

// written is the object, not made by the function, that an event may change
func written(v *Event) *Term {
	var o *Term
	switch v.kind {
	case "write":
		o = v.args[0].(VPtr).Obj
	case "maywrite":
		o = v.args[0].(VSlice).Obj
	}
	if o == nil || isAlloc(o) || madeInLoop[o] {
		return nil
	}
	return o
}

// reachable calls f for every object that can be reached from v; what is
// never changed (times, numbers) is marked
func reachable(st *State, v Value, f func(t *Term, immutable bool)) {
	seen := map[string]bool{}
	var walk func(v Value, T types.Type, d int)
	var arr func(c *Content, T types.Type, d int)
	arr = func(c *Content, T types.Type, d int) {
		if !refKind(T) {
			return
		}
		for _, g := range c.segs {
			switch g.K {
			case 'e':
				walk(g.V, T, d+1)
			case 'b':
				f(mkTerm("elements", g.Src), false)
			case 'r':
				arr(instBody(g.Body, LT(mkTerm("any:i"))), T, d+1)
			}
		}
	}
	walk = func(v Value, T types.Type, d int) {
		k := v.vkey()
		if seen[k] || d > 8 {
			return
		}
		seen[k] = true
		switch a := v.(type) {
		case VPtr:
			if st.isNil(a) == 1 {
				return
			}
			imm := false
			ot := typeAt(a.Obj, a.Path)
			if ot != nil {
				switch typeKey(ot) {
				case "time.Time", "big.Int", "math/big.Int":
					imm = true
				}
			}
			f(a.Obj, imm)
			if imm || !isAlloc(a.Obj) {
				return
			}
			if s, ok := st.get(a.Obj).(VStruct); ok {
				su, _ := objType[a.Obj].Underlying().(*types.Struct)
				for i, w := range s.F {
					walk(w, su.Field(i).Type(), d+1)
				}
			}
		case VSlice:
			if a.Obj == nil || st.isNil(a) == 1 || st.ge(a.Cap.neg()) {
				return
			}
			f(a.Obj, false)
			if isAlloc(a.Obj) {
				et := elemType(typeAt(a.Obj, a.Path))
				arr(st.bytesOf(a), et, d)
			}
		case VIface:
			walk(a.V, a.T, d)
		case VStruct:
			for _, w := range a.F {
				walk(w, nil, d+1)
			}
		case VSym:
			if st.isNil(a) != 1 {
				f(a.Tm, false)
			}
		}
	}
	walk(v, nil, 0)
}

func init() {
	register("E01", "abstract interpretation of every method of every constructed type on an arbitrary object: whatever changes what the object holds leaves it not encoded, an object that is not encoded hands out no bytes, and after encoding it is encoded and hands out newly made bytes", func(c *Check) {
		n := 0
		for _, typ := range constructedTypes {
			e := c.encObj(typ)
			if len(e.fields) == 0 {
				c.fail("anchor", typ, "no field holds the content")
				continue
			}
			for _, m := range c.methodsOf(types.NewPointer(c.r.typ(typ))) {
				// what is not exported is analysed where it is called
				if m.Name() == "Encode" || m.Name() == "Print" || m.Name() == "ToString" || !m.Object().Exported() {
					continue
				}
				name := fname(m)
				n++
				c.guard("analysed", name, func() {
					c.ok("analysed", name)
					st := e.st.clone()
					mark := st.ev
					for _, o := range e.raw(st, m.Name(), c.symArgs(m)...) {
						if o.panic != nil || o.st.infeasible() {
							continue
						}
						what := e.changed(e.st, o.st, mark, e.fields)
						if what != "" {
							c.oblige("change-resets", name, e.is(o.st, "IsEncoded", false), func() string {
								return what + ", and the object is still encoded\n" + c.path(o.st)
							})
							continue
						}
						// nothing but encoding makes an object encoded
						a, b := e.st.field(e.p, e.bufF), o.st.field(e.p, e.bufF)
						c.oblige("keeps-encoding", name, a.vkey() == b.vkey() || o.st.eqVal(a, b) || e.is(o.st, "IsEncoded", false), func() string {
							return "the encoding becomes " + valString(b) + "\n" + c.path(o.st)
						})
					}
				})
			}
			// not encoded: no bytes
			c.guard("refuses-bytes", typ, func() {
				for _, i := range e.raw(e.st.clone(), "IsEncoded") {
					b, ok := i.rets[0].(VBool)
					if !ok || i.panic != nil {
						c.fail("refuses-bytes", typ, "IsEncoded does not tell")
						continue
					}
					for _, g := range given(i.st.clone(), b.C.not()) {
						for _, o := range e.raw(g, "Buf") {
							c.oblige("refuses-bytes", typ+".Buf", o.panic != nil || o.st.infeasible(), func() string {
								return "an object that is not encoded hands out " + valString(o.rets[0]) + "\n" + c.path(o.st)
							})
						}
					}
				}
			})
			// encoded: the bytes just made
			c.guard("encoded", typ, func() {
				for _, o := range e.raw(e.st.clone(), "Encode", VNil{}) {
					if o.panic != nil || o.st.isNil(o.rets[0]) == -1 || o.st.infeasible() {
						continue
					}
					c.oblige("encoded", typ, e.is(o.st, "IsEncoded", true), func() string { return "encoding succeeds, and the object is not encoded\n" + c.path(o.st) })
					for _, b := range e.raw(o.st.clone(), "Buf") {
						v, ok := VSlice{}, false
						if b.panic == nil {
							v, ok = b.rets[0].(VSlice)
						}
						c.oblige("bytes-just-made", typ, ok && v.Obj != nil && isAlloc(v.Obj), func() string {
							return "the bytes are not those just made: " + valString(v) + "\n" + c.path(b.st)
						})
					}
				}
			})
			c.absorb(e.x)
		}
		c.items["methods_of_constructed_objects"] = n
		c.min["change-resets"] = 10
		c.min["refuses-bytes"] = 6
		c.min["encoded"] = 6
		c.min["bytes-just-made"] = 6
	})

	register("E02", "abstract interpretation of every encoder on an arbitrary object: the fields it holds and everything they refer to are the same after encoding as before, and when encoding fails so are its encoding and whether it is encoded", func(c *Check) {
		for _, typ := range constructedTypes {
			e := c.encObj(typ)
			name := typ + ".Encode"
			c.guard("analysed", name, func() {
				st := e.st.clone()
				mark := st.ev
				for _, o := range e.raw(st, "Encode", VNil{}) {
					if o.panic != nil || o.st.infeasible() {
						continue
					}
					what := e.changed(e.st, o.st, mark, e.fields)
					c.oblige("content-unchanged", name, what == "", func() string { return what + "\n" + c.path(o.st) })
					if o.st.isNil(o.rets[0]) == 1 {
						continue
					}
					what = e.changed(e.st, o.st, mark, []string{e.bufF})
					c.oblige("failure-leaves-encoding", name, what == "", func() string { return what + "\n" + c.path(o.st) })
					for _, a := range e.raw(e.st.clone(), "IsEncoded") {
						for _, b := range e.raw(o.st.clone(), "IsEncoded") {
							if a.panic != nil || b.panic != nil {
								c.fail("failure-leaves-encoding", name, "IsEncoded crashes")
								continue
							}
							v, w := a.rets[0].(VBool), b.rets[0].(VBool)
							c.oblige("failure-leaves-encoding", name, v.C == w.C || v.C.k == w.C.k, func() string {
								return fmt.Sprintf("whether it is encoded changes from %s to %s although encoding failed\n", valString(v), valString(w)) + c.path(b.st)
							})
						}
					}
				}
			})
			c.absorb(e.x)
		}
		// the hash table
		c.guard("analysed", "util.MPHTable.Encode", func() {
			x := newExec(c.r)
			x.trackW = true
			st := newState()
			p := c.symObj(st, "table", "util.MPHTable")
			before := st.clone()
			n := 0
			for _, o := range x.callFn(st, c.need("util.MPHTable.Encode"), []Value{p}, nil, nil) {
				if o.panic != nil {
					continue
				}
				n++
				what := ""
				if v, w := before.get(p.Obj), o.st.get(p.Obj); v.vkey() != w.vkey() && !o.st.eqVal(v, w) {
					what = "becomes " + valString(w)
				}
				for _, v := range flatten(o.st.events(nil)) {
					if b := written(v); b != nil {
						what = "what it holds is written: " + b.String()
					}
				}
				c.oblige("content-unchanged", "util.MPHTable.Encode", what == "", func() string { return what + "\n" + c.path(o.st) })
			}
			c.absorb(x)
		})
		c.min["content-unchanged"] = 7
		c.min["failure-leaves-encoding"] = 5
	})

	register("E04", "abstract interpretation of every encoder on an arbitrary object: on each path that ends without an error, the size, the number of elements and the length of the content are entailed to be within the documented maximum and the width of the length field", func(c *Check) {
		within := func(rule, what string, st *State, n Lin, max int64) {
			c.oblige(rule, what, st.ge(LC(max).sub(n)), func() string {
				return fmt.Sprintf("%s may exceed %d on success\n", n, max) + c.path(st)
			})
		}
		for _, k := range []struct {
			typ   string
			whole int64 // maximum of the encoding
			each  int64 // maximum of a list that is written with a 16 bit number
		}{
			{"util.Key", 4 * 1024, 0},
			{"util.Scheme", 1 * 1024, 0},
			{"util.Primitive", 3 + 65535, 65535},
			{"util.ValueArray", 5 + 65535, 65535},
			{"util.RecordList", 5 + 65535, 65535},
		} {
			e := c.encObj(k.typ)
			c.guard("size", k.typ, func() {
				for _, o := range e.raw(e.st.clone(), "Encode", VNil{}) {
					if o.panic != nil || o.st.infeasible() || o.st.isNil(o.rets[0]) == -1 {
						continue
					}
					for _, b := range e.raw(o.st.clone(), "Buf") {
						if v, ok := b.rets[0].(VSlice); ok && b.panic == nil {
							within("size", k.typ, b.st, sliceLen(v), k.whole)
						} else {
							c.fail("size", k.typ, "no encoding")
						}
					}
					if k.each > 0 {
						for _, f := range e.fields {
							if v, ok := e.st.field(e.p, f).(VSlice); ok {
								within("count", k.typ, o.st, v.Len, k.each)
							}
						}
					}
				}
			})
			c.absorb(e.x)
		}
		// the components of a record
		x := newExec(c.r)
		limits := map[string]int64{"Key": 4 * 1024, "Value": 56 * 1024, "Scheme": 1024}
		for _, rc := range c.recordCases(x) {
			rc := rc
			for _, o := range c.call(x, rc.st.clone(), "util.Record.Encode", rc.p, VNil{}) {
				if o.st.isNil(o.rets[0]) == -1 || o.st.infeasible() {
					continue
				}
				for i, k := range recordParts {
					if rc.part[i] == nil {
						continue
					}
					b := c.method(x, o.st, k.iface, "Buf", rc.part[i])[0]
					within("component-size", "util.Record.Encode "+k.name, o.st, sliceLen(b.(VSlice)), limits[k.name])
				}
			}
		}
		c.absorb(x)
		c.min["size"] = 5
		c.min["count"] = 3
		c.min["component-size"] = 3
	})
}
