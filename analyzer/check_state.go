package main

// E07, E08: what an object tells about its encoding, and that asking changes
// nothing.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// kindByte is the method that tells the first byte of the encoding, if any
func (c *Check) kindByte(typ string) string {
	for _, m := range []string{"ValueMagic", "RecordMagic", "SchemeMagic", "ConsensusMagic"} {
		if c.r.fn(typ+"."+m) != nil {
			return m
		}
	}
	return ""
}

// sameState tells what differs in an object between two states; numbers it
// keeps for itself may, if nothing that it tells does
func (c *Check) sameState(x *Exec, a, b *State, p VPtr, readers []*ssa.Function) string {
	T, ok := objType[p.Obj].Underlying().(*types.Struct)
	if !ok {
		return "not a struct"
	}
	var hidden []string
	for i := 0; i < T.NumFields(); i++ {
		f := T.Field(i)
		v, w := a.field(p, f.Name()), b.field(p, f.Name())
		if v.vkey() == w.vkey() || b.eqVal(v, w) {
			// elements that are decoded when asked for are judged by W02
			if s, ok := v.(VSlice); ok && s.Obj != nil && a.isNil(v) != 1 {
				if _, lazy := f.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Interface); !lazy || !isAlloc(s.Obj) {
					if m, n := a.get(s.Obj), b.get(s.Obj); m != nil && n != nil && m.vkey() != n.vkey() && !b.eqContent(a.arr(s), b.arr(s)) {
						return "what " + f.Name() + " holds becomes " + b.arr(s).String()
					}
				}
			}
			continue
		}
		if s, ok := v.(VSlice); ok {
			if r, ok := w.(VSlice); ok && c.sameThing(b, s, r) {
				continue
			}
		}
		if k, ok := f.Type().Underlying().(*types.Basic); ok && k.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			hidden = append(hidden, f.Name())
			continue
		}
		return f.Name() + " becomes " + valString(w)
	}
	if hidden == nil {
		return ""
	}
	for _, m := range readers {
		if m.Signature.Params().Len() > 0 || m.Signature.Results().Len() == 0 || m.Name() == "EstBufSize" || m.Name() == "Copy" || m.Name() == "CopyConstruct" || m.Name() == "ToString" {
			continue
		}
		var before []Outcome
		for _, o := range x.callFn(a.clone(), m, []Value{p}, nil, nil) {
			if !o.st.infeasible() {
				before = append(before, o)
			}
		}
		for _, o := range x.callFn(b.clone(), m, []Value{p}, nil, nil) {
			if o.st.infeasible() {
				continue
			}
			// what it told before under the same conditions
			same := false
			for _, q := range before {
				if (q.panic != nil) != (o.panic != nil) {
					continue
				}
				ok := true
				if o.panic == nil {
					for i := range o.rets {
						v, s1 := o.rets[i].(VSlice)
						w, s2 := q.rets[i].(VSlice)
						if s1 && s2 && v.Obj != nil && w.Obj != nil {
							ok = ok && o.st.eqL(v.Len, w.Len) && o.st.eqContent(o.st.bytesOf(v), q.st.bytesOf(w))
							continue
						}
						ok = ok && c.sameThing(o.st, o.rets[i], q.rets[i])
					}
				}
				same = same || ok
			}
			if !same {
				return fmt.Sprint(hidden, " changed, and ", m.Name(), " tells ", valStrings(o.rets))
			}
		}
	}
	return ""
}

// readersOf are the methods of a type that only tell something
func (c *Check) readersOf(T types.Type, iface string) []*ssa.Function {
	var in map[string]bool
	if iface != "" {
		in = map[string]bool{}
		I, ok := c.r.typ("util." + iface).Underlying().(*types.Interface)
		if !ok {
			panic(undecided{"interface " + iface + " not found"})
		}
		for i := 0; i < I.NumMethods(); i++ {
			in[I.Method(i).Name()] = true
		}
	}
	var r []*ssa.Function
	for _, m := range c.methodsOf(T) {
		n := m.Name()
		if n == "Encode" && fname(m) != "util.MPHTable.Encode" || n == "Decode" || in != nil && !in[n] || m.Object() == nil || !m.Object().Exported() {
			continue
		}
		r = append(r, m)
	}
	return r
}

var ifaceOf = map[string]string{"util.Key": "IKey", "util.Primitive": "IValue", "util.ValueArray": "IValue", "util.RecordList": "IValue", "util.Record": "IRecord"}

func init() {
	register("E07", "abstract interpretation of every method that tells or changes the encoding state, on an arbitrary object: decoders give objects that are encoded and decoded, constructed objects are decoded and refuse to be decoded, a decoded object keeps its bytes when asked to encode, and the kind byte is the first byte of the bytes handed out", func(c *Check) {
		for _, typ := range constructedTypes {
			e := c.encObj(typ)
			c.guard("decoded", typ, func() {
				c.oblige("decoded", typ, e.is(e.st, "IsDecoded", true), func() string { return "a constructed object is not decoded" })
				mark := e.st.ev
				n := 0
				for _, o := range e.raw(e.st.clone(), "Decode", VNil{}) {
					if o.st.infeasible() {
						continue
					}
					n++
					why := func() string { return valStrings(o.rets) + "\n" + c.path(o.st) }
					c.oblige("refuses-decode", typ, o.panic == nil && o.st.isNil(o.rets[1]) == -1, why)
					if o.panic == nil {
						what := e.changed(e.st, o.st, mark, append([]string{e.bufF}, e.fields...))
						c.oblige("refusal-changes-nothing", typ, what == "", func() string { return what + "\n" + c.path(o.st) })
					}
				}
				c.oblige("refuses-decode", typ, n > 0, nil)
			})
			m := c.kindByte(typ)
			if m == "" {
				continue
			}
			c.guard("kind", typ, func() {
				for _, o := range e.raw(e.st.clone(), "Encode", VNil{}) {
					if o.panic != nil || o.st.infeasible() || o.st.isNil(o.rets[0]) == -1 {
						continue
					}
					c.firstByte(e.x, o.st, typ, m, e.p)
				}
				// without an encoding there is no kind byte
				for _, i := range e.raw(e.st.clone(), "IsEncoded") {
					b, ok := i.rets[0].(VBool)
					if !ok {
						continue
					}
					for _, g := range given(i.st.clone(), b.C.not()) {
						for _, o := range e.raw(g, m) {
							k, ok := Value(nil), false
							if o.panic == nil {
								k = o.rets[0]
								_, ok = k.(VInt)
							}
							c.oblige("no-kind-without-encoding", typ, o.panic != nil || o.st.infeasible() || ok && intOf(k).isInt(255), func() string {
								return "an object that is not encoded tells the kind byte " + valString(k) + "\n" + c.path(o.st)
							})
						}
					}
				}
			})
			c.absorb(e.x)
		}
		c.eachDecoded(nil, func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice) {
			typ := trimStar(typeKey(T))
			componentContracts(x)
			defer func() {
				for k := range x.hooks {
					delete(x.hooks, k)
				}
				if d.nested != nil {
					d.nested(x)
				}
			}()
			p, ok := obj.(VPtr)
			if !ok {
				return
			}
			for _, m := range []string{"IsEncoded", "IsDecoded"} {
				if c.r.fn(typ+"."+m) == nil {
					continue
				}
				for _, o := range c.access1(x, st.clone(), typ+"."+m, obj) {
					c.oblige("decoded", typ+"."+m, c.isTrue(o.st, o.rets[0], true), func() string { return valStrings(o.rets) + "\n" + c.path(o.st) })
				}
			}
			if m := c.kindByte(typ); m != "" {
				c.firstByte(x, st, typ, m, obj)
			}
			if c.r.fn(typ+".Encode") != nil && typ != "util.MPHTable" {
				for _, o := range c.access1(x, st.clone(), typ+".Encode", obj, VNil{}) {
					what := c.sameState(x, st, o.st, p, c.readersOf(T, ""))
					c.oblige("encoding-keeps", typ, what == "", func() string { return what + "\n" + c.path(o.st) })
				}
			}
		})
		// decoding that fails does not make a decoded object
		for _, d := range decoderSpecs {
			fn := c.r.fn(d.typ + ".Decode")
			if fn == nil || c.r.fn(d.typ+".IsDecoded") == nil {
				continue
			}
			c.guard("failure-not-decoded", d.typ, func() {
				x := newExec(c.r)
				componentContracts(x)
				if d.nested != nil {
					d.nested(x)
				}
				st := newState()
				obj := c.symObj(st, "undecoded", d.typ)
				for _, i := range x.callFn(st, c.r.fn(d.typ+".IsDecoded"), []Value{obj}, nil, nil) {
					b, ok := Value(nil), false
					if i.panic == nil {
						b = i.rets[0]
						_, ok = b.(VBool)
					}
					if !ok {
						continue
					}
					for _, g := range given(i.st, b.(VBool).C.not()) {
						for _, o := range x.callFn(g, fn, append([]Value{obj}, c.argsOf(fn)[1:]...), nil, nil) {
							if o.panic != nil || o.st.infeasible() || o.st.isNil(o.rets[len(o.rets)-1]) == 1 {
								continue
							}
							for _, q := range x.callFn(o.st, c.r.fn(d.typ+".IsDecoded"), []Value{obj}, nil, nil) {
								if q.panic != nil || q.st.infeasible() {
									continue
								}
								c.oblige("failure-not-decoded", d.typ, c.isTrue(q.st, q.rets[0], false), func() string { return "decoding fails, and yet it tells " + valStrings(q.rets) + "\n" + c.path(q.st) })
							}
						}
					}
				}
				c.absorb(x)
			})
		}
		c.min["failure-not-decoded"] = 4
		c.min["decoded"] = 6 + 2*4
		c.min["refuses-decode"] = 6
		c.min["kind"] = 8
		c.min["encoding-keeps"] = 5
	})

	register("E08", "effect analysis by abstract interpretation: every method of every object that only tells something is run on an arbitrary constructed or decoded object with arbitrary arguments; afterwards its fields are what they were, or tell the same", func(c *Check) {
		n := 0
		c.eachDecoded(func(x *Exec) { x.trackW = true }, func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice) {
			p, ok := obj.(VPtr)
			if !ok {
				return
			}
			set := func() {
				if d.typ == "util.StandardMappedValue" {
					decoderContract(x, "util.NewMappedRecord", 1, nil)
					elementContract(x, "util.StandardMappedValue.ValueAt", "util.IValue")
					elementContract(x, "util.StandardMappedValue.RecordAt", "util.IRecord")
				}
				if d.nested != nil {
					d.nested(x)
				}
				if d.iface != "" {
					decoderContract(x, d.name, 0, nil)
				}
				componentContracts(x)
			}
			set()
			rs := c.readersOf(T, "")
			for _, m := range rs {
				name := fname(m)
				h := x.hooks[name]
				delete(x.hooks, name)
				n++
				c.guard("analysed", name, func() {
					mark := st.ev
					for _, o := range x.callFn(st.clone(), m, append([]Value{obj}, c.symArgs(m)...), nil, nil) {
						if o.panic != nil || o.st.infeasible() {
							continue
						}
						what := c.sameState(x, st, o.st, p, rs)
						for _, v := range flatten(o.st.events(mark)) {
							if b := written(v); b != nil {
								what = "what was there before is written: " + b.String()
							}
						}
						c.oblige("reading-changes-nothing", name, what == "", func() string { return what + "\n" + c.path(o.st) })
					}
				})
				if h != nil {
					x.hooks[name] = h
				}
			}
			for k := range x.hooks {
				delete(x.hooks, k)
			}
			if d.nested != nil {
				d.nested(x)
			}
		})
		for _, typ := range constructedTypes {
			e := c.encObj(typ)
			copyContract(e.x, "IKey", "IValue", "IRecord")
			rs := c.readersOf(types.NewPointer(c.r.typ(typ)), ifaceOf[typ])
			for _, m := range rs {
				m := m
				name := fname(m)
				n++
				c.guard("analysed", name, func() {
					mark := e.st.ev
					for _, o := range e.raw(e.st.clone(), m.Name(), c.symArgs(m)...) {
						if o.panic != nil || o.st.infeasible() {
							continue
						}
						what := c.sameState(e.x, e.st, o.st, e.p, rs)
						for _, v := range flatten(o.st.events(mark)) {
							if b := written(v); b != nil && b != e.p.Obj {
								what = "what it holds is written: " + b.String()
							}
						}
						c.oblige("reading-changes-nothing", name, what == "", func() string { return what + "\n" + c.path(o.st) })
					}
				})
			}
			c.absorb(e.x)
		}
		c.items["methods_that_only_tell"] = n
		c.min["reading-changes-nothing"] = 80
	})
}

// firstByte: the kind byte is the first of the bytes handed out
func (c *Check) firstByte(x *Exec, st *State, typ, m string, obj Value) {
	for _, b := range c.access1(x, st.clone(), typ+".Buf", obj) {
		v, ok := b.rets[0].(VSlice)
		if !ok || v.Obj == nil {
			c.fail("kind", typ+"."+m, "no bytes: %s", valString(b.rets[0]))
			continue
		}
		for _, g := range given(b.st, condGE(v.Len.addc(-1))) {
			want := g.at(g.bytesOf(v), LC(0), types.Typ[types.Uint8])
			for _, o := range c.access1(x, g, typ+"."+m, obj) {
				k, ok := o.rets[0].(VInt)
				w, ok2 := want.(VInt)
				c.oblige("kind", typ+"."+m, ok && ok2 && o.st.eqL(k.L, w.L), func() string {
					return valStrings(o.rets) + ", and the first byte is " + valString(want) + "\n" + c.path(o.st)
				})
			}
		}
	}
}
