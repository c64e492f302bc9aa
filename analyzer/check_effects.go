package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D10", "effect analysis by abstract interpretation: no write reaches the array given to a decoder, neither from the decoder nor from any method of what it returns; the methods that would encode a decoded object give an error", func(c *Check) {
		n := 0
		prep := func(x *Exec) { x.trackW = true }
		writes := func(st *State, mark *Event, buf VSlice, what string) {
			c.ok("input-not-written", what)
			for _, e := range flatten(st.events(mark)) {
				var o *Term
				switch e.kind {
				case "write":
					o = e.args[0].(VPtr).Obj
				case "maywrite":
					o = e.args[0].(VSlice).Obj
				default:
					continue
				}
				if o == buf.Obj {
					where := "?"
					if e.in != nil {
						where = fname(e.in)
					}
					pos := "?"
					if e.site != nil {
						pos = c.r.pos(e.site.Pos())
					}
					c.oblige("input-not-written", what+" -> "+where, false, func() string { return pos + ": writes into the bytes being decoded\n" + c.path(st) })
				}
			}
		}
		c.eachDecoded(prep, func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice) {
			writes(st, nil, buf, d.name)
			name := typeKey(T)
			if d.typ == "util.StandardMappedValue" {
				decoderContract(x, "util.NewMappedRecord", 1, nil)
				elementContract(x, "util.StandardMappedValue.ValueAt", "util.IValue")
				elementContract(x, "util.StandardMappedValue.RecordAt", "util.IRecord")
			}
			if d.nested != nil {
				d.nested(x)
			}
			if d.iface != "" {
				decoderContract(x, d.name, 0, nil)
			}
			componentContracts(x)
			for _, m := range c.methodsOf(T) {
				n++
				mn := m.Name()
				if fieldOf := fname(m); x.hooks[fieldOf] != nil && (mn == "ValueAt" || mn == "RecordAt" || mn == "Copy" || mn == "CopyConstruct") {
					h := x.hooks[fieldOf]
					delete(x.hooks, fieldOf)
					c.effectOf(x, st, m.Name(), fname(m), obj, append([]Value{obj}, c.symArgs(m)...), buf, writes)
					x.hooks[fieldOf] = h
					continue
				}
				c.effectOf(x, st, mn, fname(m), obj, append([]Value{obj}, c.symArgs(m)...), buf, writes)
			}
			_ = name
			for k := range x.hooks {
				delete(x.hooks, k)
			}
			if d.nested != nil {
				d.nested(x)
			}
		})
		c.items["methods_of_decoded_objects"] = n
		c.min["decoded"] = 8
		c.min["input-not-written"] = 60
		c.min["refuses-encode"] = 3
	})
}

func (c *Check) effectOf(x *Exec, st *State, m, name string, obj Value, args []Value, buf VSlice, writes func(*State, *Event, VSlice, string)) {
	fn := c.need(name)
	if fn == nil {
		return
	}
	g := st.clone()
	mark := g.ev
	var outs []Outcome
	c.guard("analysed", name, func() { outs = x.callFn(g, fn, args, nil, nil) })
	for _, o := range outs {
		writes(o.st, mark, buf, name)
		if o.panic == nil && m == "Encode" && name != "util.MPHTable.Encode" && name != "util.MappedKey.Encode" {
			c.oblige("refuses-encode", name, o.st.isNil(o.rets[0]) == -1, func() string {
				return fmt.Sprint("a decoded object is encoded: ", valString(o.rets[0]), "\n", c.path(o.st))
			})
		}
	}
}

func init() {
	register("D09", "abstract interpretation of every decoder over an arbitrary byte slice: the capacity of every slice made is entailed to be at most the length of the input or 64K elements", func(c *Check) {
		limit := func(x *Exec, in []VSlice, what string) {
			for _, m := range x.mkMax {
				where := fname(m.site.Parent())
				s := m.st
				good := s.infeasible() || s.ge(LC(65536).sub(m.n))
				for _, b := range in {
					good = good || s.ge(b.Len.sub(m.n))
				}
				c.oblige("allocation-justified", what+" -> "+where+" make "+m.site.(ssa.Value).Type().String(), good, func() string {
					return c.r.pos(m.site.Pos()) + ": " + m.n.String() + " elements are allocated before that number was checked\n" + c.path(s)
				})
			}
			x.mkMax = nil
		}
		var xs []*Exec
		var in []VSlice
		prep := func(x *Exec) { xs = append(xs, x) }
		c.eachDecoded(prep, func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice) {
			in = []VSlice{buf}
			limit(x, in, d.name)
			if d.typ == "util.StandardMappedValue" {
				decoderContract(x, "util.NewMappedRecord", 1, nil)
				decoderContract(x, "util.NewStandardMappedValue", 1, nil)
				idx := c.sym("idx", types.Typ[types.Uint16])
				for _, m := range []string{"ValueAt", "RecordAt"} {
					c.call(x, st.clone(), "util.StandardMappedValue."+m, obj, idx)
					limit(x, in, "util.StandardMappedValue."+m)
				}
				delete(x.hooks, "util.NewMappedRecord")
				delete(x.hooks, "util.NewStandardMappedValue")
			}
		})
		for _, x := range xs {
			limit(x, []VSlice{c.symBytes("buf")}, "decoding")
		}
		for _, n := range []string{"util.DecodeVarint64", "util.DecodeUvarint64", "util.DecodeVarchar", "collection.BytesToTime", "collection.ByteArrayToBigInt"} {
			x := newExec(c.r)
			buf := c.symBytes("buf")
			fn := c.need(n)
			if fn == nil {
				continue
			}
			c.guard("analysed", n, func() { x.callFn(newState(), fn, []Value{buf}, nil, nil) })
			c.ok("analysed", n)
			limit(x, []VSlice{buf}, n)
			c.absorb(x)
		}
		c.min["decoded"] = 8
		c.min["allocation-justified"] = 4
	})
}
