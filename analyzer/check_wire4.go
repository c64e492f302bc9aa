package main

// W02, W03: values and records are read back component by component. The
// components are opaque: what their Buf method returns after their Encode
// method succeeded is an encoding, and a decoder given bytes that begin with
// an encoding makes an object that holds exactly it (W01, W02, W03, by
// induction over nesting).

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// method calls a method of an opaque component
func (c *Check) method(x *Exec, st *State, iface, m string, recv Value, args ...Value) []Value {
	T := c.r.typ(iface)
	if T == nil {
		panic(undecided{iface + " not found"})
	}
	o, _, _ := types.LookupFieldOrMethod(T, true, nil, m)
	f, ok := o.(*types.Func)
	if !ok {
		panic(undecided{iface + "." + m + " not found"})
	}
	os := x.external(st, iface+"."+m, f.Type().(*types.Signature), append([]Value{recv}, args...), nil)
	return os[0].rets
}

// usesEncoded makes the byte form of an opaque component an obligation: it
// is taken only after the component was encoded on the same path
func (c *Check) usesEncoded(x *Exec, ifaces ...string) {
	for _, i := range ifaces {
		n := "util." + i + ".Buf"
		i := i
		x.hooks[n] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			where := "?"
			if site != nil {
				where = fname(site.Parent())
			}
			if !c.wasEncoded(st, i, args[0]) {
				return []Outcome{{st: st, panic: &Panic{"encoded-before-use", "the bytes of " + valString(args[0]) + " are used without it having been encoded", site}}}
			}
			c.ok("encoded-before-use", where+" "+i)
			return neverEmpty(x.opaque(st, n, site.Common().Signature(), args, site))
		}
	}
}

// neverEmpty: an encoding is never empty (shown for every encoder)
func neverEmpty(os []Outcome) []Outcome {
	if b, ok := os[0].rets[0].(VSlice); ok {
		for _, m := range b.Len.ts {
			setRange(m.t, big1, nil)
		}
	}
	return os
}

func (c *Check) wasEncoded(st *State, iface string, v Value) bool {
	// reported as encoded
	for _, f := range st.facts {
		if f.val && f.c.op == "op" && strings.HasPrefix(f.c.T.op, "util."+iface+".IsEncoded.") && len(f.c.T.args) > 0 && argKey(f.c.T.args[0]) == argKey(termOf(v)) {
			return true
		}
	}
	var scan func(es []*Event, loop bool) bool
	scan = func(es []*Event, loop bool) bool {
		for _, e := range es {
			if e.kind == "loop" {
				for _, p := range e.sub {
					if scan(p, true) {
						return true
					}
				}
				continue
			}
			if e.kind != "call" || e.fn != "util."+iface+".Encode" {
				continue
			}
			if e.args[0].vkey() == v.vkey() && (len(e.rets) == 0 || st.isNil(e.rets[0]) == 1) {
				return true
			}
			// every element was encoded by an earlier loop
			if a, b := valTerm(e.args[0]), valTerm(v); loop && a != nil && b != nil && a.op == "elem" && b.op == "elem" && argKey(a.args[0]) == argKey(b.args[0]) {
				return true
			}
		}
		return false
	}
	return scan(st.events(nil), false)
}

// readsBack replaces a decoder of components: its input must begin with the
// encoding of an opaque component, and it makes an object that holds that
func (c *Check) readsBack(x *Exec, name string) {
	fn := x.r.fn(name)
	if fn == nil {
		panic(undecided{"decoder " + name + " not found"})
	}
	pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		buf, ok := args[0].(VSlice)
		if !ok {
			panic(undecided{"decoder " + name + " of " + valString(args[0])})
		}
		where := "?"
		if site != nil {
			where = fname(site.Parent())
		}
		var n Lin
		good := false
		var segs []Seg
		if buf.Obj != nil {
			segs = st.norm(st.bytesOf(buf)).segs
			if len(segs) > 0 && segs[0].K == 'r' && st.ge(segs[0].Hi.sub(segs[0].Lo).addc(-1)) {
				segs = instBody(segs[0].Body, segs[0].Lo).segs
			}
			if len(segs) > 0 && segs[0].K == 'b' && segs[0].Off.isInt(0) && componentOf(segs[0]) != nil {
				n = segs[0].N
				good = true
			}
		}
		if good {
			c.ok("starts-at-an-encoding", where+" -> "+name)
			p := newStruct(st, name, pt.Elem(), map[string]Value{"buf": VSlice{Obj: buf.Obj, Path: buf.Path, Off: buf.Off, Len: n, Cap: buf.Cap}, "decoded": VBool{condTrue}})
			rs := []Value{p, VInt{n}, VNil{}}
			x.note(st, "call", name, args, rs, site)
			return []Outcome{{st: st, rets: rs}}
		}
		if debugLoop {
			fmt.Fprintf(os.Stderr, "  not an encoding: %s %v\n", valString(buf), (&Content{segs: segs}).String())
		}
		// anything else may be refused, or read as anything
		bad := st.clone()
		m := LT(setRange(st.fresh("consumed"), big0, maxLen))
		st.push(sliceLen(buf).sub(m), false)
		p := newStruct(st, name, pt.Elem(), map[string]Value{"buf": VSlice{Obj: buf.Obj, Path: buf.Path, Off: buf.Off, Len: m, Cap: buf.Cap}, "decoded": VBool{condTrue}})
		rs := []Value{p, VInt{m}, VNil{}}
		x.note(st, "call", name, args, rs, site)
		e := freshErr(bad, name)
		rb := []Value{VNil{}, VInt{LC(0)}, e}
		x.note(bad, "call", name, args, rb, site)
		return []Outcome{{st: st, rets: rs}, {st: bad, rets: rb}}
	}
}

// componentOf: the segment is the whole byte form of an opaque component
func componentOf(g Seg) *Term {
	if g.Src.op != "arr" {
		return nil
	}
	t, ok := g.Src.args[0].(*Term)
	if !ok || !strings.HasSuffix(t.op, ".Buf.0") || !g.N.eq(LT(lenTerm(t))) {
		return nil
	}
	return t
}

// holds: the decoded component holds the bytes b
func (c *Check) holds(st *State, v Value, typ string, b Value) bool {
	p, ok := v.(VPtr)
	if f, isI := v.(VIface); isI {
		p, ok = f.V.(VPtr)
	}
	T := c.r.typ(typ)
	if !ok || st.isNil(p) != -1 || T == nil || !types.Identical(objType[p.Obj], T) {
		return false
	}
	a, ok1 := st.field(p, "buf").(VSlice)
	w, ok2 := b.(VSlice)
	if debugLoop {
		fmt.Fprintf(os.Stderr, "  holds %s: %s\n   %s\n", valString(st.get(p.Obj)), valString(a), st.norm(st.bytesOf(a)))
		fmt.Fprintln(os.Stderr, st.dump())
	}
	return ok1 && ok2 && st.eqL(sliceLen(a), sliceLen(w)) && st.eqContent(st.bytesOf(a), st.bytesOf(w))
}

// encodedOn: the outcomes of encoding and taking the bytes, followed by
// arbitrary bytes
func (c *Check) encodedOn(x *Exec, st *State, typ string, p VPtr, f func(st *State, buf, w VSlice)) {
	for _, o := range c.call(x, st, typ+".Encode", p, VNil{}) {
		if o.st.isNil(o.rets[0]) == -1 {
			c.ok("error-result", typ+".Encode")
			continue
		}
		for _, b := range c.call(x, o.st, typ+".Buf", p) {
			buf, ok := c.followed(b.st, b.rets[0])
			if !ok {
				c.fail("reads-back", typ+".Encode", "encoded to %s", valString(b.rets[0]))
				continue
			}
			w := b.rets[0].(VSlice)
			c.oblige("not-empty", typ, b.st.ge(sliceLen(w).addc(-1)), func() string { return valString(w) + "\n" + c.path(b.st) })
			f(b.st, buf, w)
		}
	}
}

func init() {
	register("W02", "abstract interpretation of each value encoder on an arbitrary value; the bytes it leaves, followed by arbitrary bytes, are given to the value decoder; elements are opaque, and each must be decoded from where its encoding was written", func(c *Check) {
		x := newExec(c.r)
		dec := "util.NewStandardMappedValue"
		// primitives
		data := c.symBytes("data")
		for _, o := range c.call(x, newState(), "util.NewPrimitive", data) {
			p, ok := o.rets[0].(VPtr)
			if !ok {
				continue
			}
			for _, empty := range []bool{true, false} {
				cd := condEQ(data.Len)
				if !empty {
					cd = condGE(data.Len.addc(-1))
				}
				for _, g := range given(o.st.clone(), cd) {
					c.encodedOn(x, g, "util.Primitive", p, func(st *State, buf, w VSlice) {
						for _, d := range c.call(x, st, dec, buf) {
							s := d.st
							bad := func() string { return valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s) }
							if !c.oblige("no-error", "primitive", s.isNil(d.rets[2]) == 1, bad) {
								continue
							}
							c.oblige("consumes-what-was-written", "primitive", s.eqL(intOf(d.rets[1]), sliceLen(w)), bad)
							c.kindIs(x, s, d.rets[0], "primitive", empty, true, false, false)
							for _, r := range c.call(x, s, "util.StandardMappedValue.Value", d.rets[0]) {
								v, ok := r.rets[0].(VSlice)
								good := ok && r.st.eqL(sliceLen(v), data.Len)
								if good && !empty {
									good = r.st.eqContent(r.st.bytesOf(v), r.st.bytesOf(data))
								}
								c.oblige("reads-back", "primitive", good, func() string { return valString(r.rets[0]) + "\n" + c.path(r.st) })
							}
						}
					})
				}
			}
		}
		// arrays and lists
		for _, k := range []struct {
			typ, ctor, elem, iface, at, dec string
		}{
			{"util.ValueArray", "util.NewValueArray", "util.StandardMappedValue", "IValue", "ValueAt", dec},
			{"util.RecordList", "util.NewRecordList", "util.MappedRecord", "IRecord", "RecordAt", "util.NewMappedRecord"},
		} {
			for _, o := range c.call(x, newState(), k.ctor) {
				p, ok := o.rets[0].(VPtr)
				if !ok {
					continue
				}
				es, ok := c.elements(o.st, p)
				if !ok {
					c.fail("anchor", k.typ, "no field holds the elements")
					continue
				}
				for _, empty := range []bool{true, false} {
					cd := condEQ(es.Len)
					if !empty {
						cd = condGE(es.Len.addc(-1))
					}
					for _, g := range given(o.st.clone(), nilCond(o.st, es).not(), cd) {
						c.usesEncoded(x, "IKey", "IValue", "IRecord")
						c.encodedOn(x, g, k.typ, p, func(st *State, buf, w VSlice) {
							for _, d := range c.call(x, st, dec, buf) {
								s := d.st
								bad := func() string { return valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s) }
								if !c.oblige("no-error", k.typ, s.isNil(d.rets[2]) == 1, bad) {
									continue
								}
								c.oblige("consumes-what-was-written", k.typ, s.eqL(intOf(d.rets[1]), sliceLen(w)), bad)
								c.kindIs(x, s, d.rets[0], k.typ, empty, empty, !empty && k.at == "ValueAt", !empty && k.at == "RecordAt")
								for _, r := range c.call(x, s.clone(), "util.StandardMappedValue.Size", d.rets[0]) {
									c.oblige("size", k.typ, r.st.eqL(intOf(r.rets[0]), es.Len), func() string { return valString(r.rets[0]) + "\n" + c.path(r.st) })
								}
								if empty {
									continue
								}
								i := c.sym("i", types.Typ[types.Uint16])
								for _, h := range given(s.clone(), condGE(es.Len.sub(intOf(i)).addc(-1))) {
									for n := range x.hooks {
										delete(x.hooks, n)
									}
									c.readsBack(x, k.dec)
									at := "util.StandardMappedValue." + k.at
									cache := c.someDecoded(x, h, d.rets[0].(VPtr), k.iface, es)
									mark := h.ev
									for _, r := range c.call(x, h, at, d.rets[0], i) {
										c.storesEarlier(x, r.st, mark, at, k.elem, k.iface, es)
										bad := func() string { return valStrings(r.rets) + "\n" + c.path(r.st) }
										earlier := func(st *State, v Value) bool {
											for a := range cache {
												if l, ok := c.cached(st, a, v); ok && st.eqL(l, intOf(i)) {
													return true
												}
											}
											return false
										}
										if !c.oblige("element-no-error", at, r.st.isNil(r.rets[1]) == 1, bad) {
											continue
										}
										e := r.st.at(r.st.arr(es), es.Off.add(intOf(i)), c.r.typ("util."+k.iface))
										b := c.method(x, r.st, "util."+k.iface, "Buf", e)[0]
										c.oblige("reads-back", at, c.holds(r.st, r.rets[0], k.elem, b) || earlier(r.st, r.rets[0]), bad)
									}
									x.noteStore = nil
									delete(x.hooks, k.dec)
									delete(x.hooks, "util."+k.iface+".Buf")
								}
							}
						})
					}
				}
			}
		}
		c.min["reads-back"] = 3
		c.min["encoded-before-use"] = 2
		c.min["starts-at-an-encoding"] = 2
		c.absorb(x)
	})
}

// elements is the field of p that holds its elements, made arbitrary
func (c *Check) elements(st *State, p VPtr) (VSlice, bool) {
	T, ok := objType[p.Obj].Underlying().(*types.Struct)
	if !ok {
		return VSlice{}, false
	}
	for i := 0; i < T.NumFields(); i++ {
		f := T.Field(i)
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			if _, ok := s.Elem().Underlying().(*types.Interface); ok {
				v := c.sym("elements", f.Type()).(VSlice)
				// an element is never nil
				v.Obj = mkTerm("fill:elements")
				objType[v.Obj] = types.NewArray(s.Elem(), -1)
				st.setField(p, f.Name(), v)
				return v, true
			}
		}
	}
	return VSlice{}, false
}

func (c *Check) kindIs(x *Exec, st *State, v Value, what string, isNil, prim, arr, list bool) {
	for _, m := range []struct {
		n    string
		want bool
	}{{"IsNil", isNil}, {"IsPrimitive", prim}, {"IsValueArray", arr}, {"IsRecordList", list}} {
		for _, r := range c.call(x, st.clone(), "util.StandardMappedValue."+m.n, v) {
			c.oblige("kind", what+" "+m.n, c.isTrue(r.st, r.rets[0], m.want), func() string {
				return fmt.Sprintf("%s is %s, not %v\n", m.n, valString(r.rets[0]), m.want) + c.path(r.st)
			})
		}
	}
}

// valTerm is the term of an opaque value
func valTerm(v Value) *Term {
	t, _ := termOf(v).(*Term)
	return t
}

// someDecoded: of the elements of the decoded value d any may have been asked
// for before. One that was holds the encoding of the element it stands for:
// whatever is stored there is shown to (storesEarlier).
func (c *Check) someDecoded(x *Exec, st *State, d VPtr, iface string, es VSlice) (cache map[*Term]bool) {
	cache = map[*Term]bool{}
	T := objType[d.Obj].Underlying().(*types.Struct)
	for i := 0; i < T.NumFields(); i++ {
		a, ok := st.field(d, T.Field(i).Name()).(VSlice)
		if !ok || a.Obj == nil {
			continue
		}
		if at, ok := objType[a.Obj].(*types.Array); !ok || !types.Identical(at.Elem(), c.r.typ("util."+iface)) {
			continue
		}
		src := mkTerm("in:earlier", a.Obj)
		objType[src] = objType[a.Obj]
		cache[a.Obj] = true
		st.heap[a.Obj] = VArr{content(Seg{K: 'b', Src: src, Off: LC(0), N: st.get(a.Obj).(VArr).C.length()})}
	}
	n := "util." + iface + ".Buf"
	x.hooks[n] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		for a := range cache {
			if l, ok := c.cached(st, a, args[0]); ok {
				e := st.at(st.arr(es), es.Off.add(l), c.r.typ("util."+iface))
				args = append([]Value{e}, args[1:]...)
				break
			}
		}
		return neverEmpty(x.opaque(st, n, site.Common().Signature(), args, site))
	}
	x.noteStore = func(p VPtr) bool { return cache[p.Obj] }
	return cache
}

// cached: the value is the element l of the array a
func (c *Check) cached(st *State, a *Term, v Value) (Lin, bool) {
	t := valTerm(v)
	if t == nil || t.op != "elem" {
		return Lin{}, false
	}
	l, ok := t.args[1].(Lin)
	if !ok {
		return Lin{}, false
	}
	e := st.at(st.get(a).(VArr).C, l, objType[a].(*types.Array).Elem())
	return l, e != nil && e.vkey() == v.vkey()
}

// storesEarlier: what is stored among the decoded elements holds the encoding
// of the element in its place
func (c *Check) storesEarlier(x *Exec, st *State, mark *Event, at, elem, iface string, es VSlice) {
	for _, e := range flatten(st.events(mark)) {
		if e.kind != "store" {
			continue
		}
		p := e.args[0].(VPtr)
		i := p.Path[len(p.Path)-1].Idx
		good := i != nil
		if good {
			s := e.snap
			el := s.at(s.arr(es), es.Off.add(*i), c.r.typ("util."+iface))
			b := c.method(x, s, "util."+iface, "Buf", el)[0]
			good = c.holds(s, e.rets[0], elem, b)
		}
		c.oblige("kept-element", at, good, func() string { return valString(p) + " = " + valString(e.rets[0]) + "\n" + c.path(e.snap) })
	}
}
