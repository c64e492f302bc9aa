package main

// W: what is written is what is read. The abstract bytes an encoder leaves,
// followed by arbitrary bytes, are given to the decoder.

import (
	"go/types"
)

// followed makes a slice that holds the bytes of v and then anything
func (c *Check) followed(st *State, v Value) (VSlice, bool) {
	s, ok := v.(VSlice)
	if !ok {
		return VSlice{}, false
	}
	tail := c.symBytes("tail")
	b := LC(0)
	_ = b
	cont := content(append(append([]Seg{}, st.bytesOf(s).segs...), st.bytesOf(tail).segs...)...)
	return st.newSlice("input", types.Typ[types.Uint8], cont, nil), true
}

func init() {
	register("W06", "abstract interpretation of the integer and byte string writers on arbitrary values; the bytes they leave, followed by arbitrary bytes, are given to the readers", func(c *Check) {
		x := newExec(c.r)
		for _, n := range []string{"Varint64", "Uvarint64", "Varchar"} {
			enc, dec := "util.Encode"+n, "util.Decode"+n
			var in Value
			switch n {
			case "Varint64":
				in = c.sym("v", types.Typ[types.Int64])
			case "Uvarint64":
				in = c.sym("v", types.Typ[types.Uint64])
			case "Varchar":
				in = c.symBytes("data")
			}
			for _, o := range c.call(x, newState(), enc, in) {
				buf, ok := c.followed(o.st, o.rets[0])
				if !ok {
					c.fail("reads-back", dec, "the writer returns %s", valString(o.rets[0]))
					continue
				}
				w := o.rets[0].(VSlice)
				for _, d := range c.call(x, o.st, dec, buf) {
					s := d.st
					bad := func() string { return valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s) }
					c.oblige("no-error", dec, s.isNil(d.rets[2]) == 1, bad)
					if s.isNil(d.rets[2]) != 1 {
						continue
					}
					wl := w.Len
					if w.Obj == nil {
						wl = LC(0)
					}
					c.oblige("consumes-what-was-written", dec, s.eqL(intOf(d.rets[1]), wl), bad)
					if n == "Varchar" {
						r, ok := d.rets[0].(VSlice)
						c.oblige("reads-back", dec, ok && s.eqContent(s.bytesOf(r), s.bytesOf(in.(VSlice))), bad)
					} else {
						c.oblige("reads-back", dec, s.eqL(intOf(d.rets[0]), intOf(in)), bad)
					}
				}
			}
		}
		c.min["reads-back"] = 3
		c.min["no-crash"] = 6
		c.absorb(x)
	})
}

func valStrings(vs []Value) string {
	r := ""
	for i, v := range vs {
		if i > 0 {
			r += ", "
		}
		r += valString(v)
	}
	return r
}

// sameList: two [][]byte hold the same byte strings in the same order
func (c *Check) sameList(st *State, a, b Value) bool {
	p, ok1 := a.(VSlice)
	q, ok2 := b.(VSlice)
	if !ok1 || !ok2 {
		return false
	}
	pl, ql := LC(0), LC(0)
	if p.Obj != nil {
		pl = p.Len
	}
	if q.Obj != nil {
		ql = q.Len
	}
	if !st.eqL(pl, ql) {
		return false
	}
	if st.ge(LC(0).sub(pl)) {
		return true
	}
	g := st.clone()
	i := LT(mkTerm("any:i"))
	g.push(i, false)
	g.push(pl.sub(i).addc(-1), false)
	if g.infeasible() {
		return true
	}
	et := types.NewSlice(types.Typ[types.Uint8])
	x, ok1 := g.at(g.arr(p), p.Off.add(i), et).(VSlice)
	y, ok2 := g.at(g.arr(q), q.Off.add(i), et).(VSlice)
	if !ok1 || !ok2 {
		return false
	}
	xl, yl := sliceLen(x), sliceLen(y)
	if !g.eqL(xl, yl) {
		return false
	}
	g.push(yl.addc(-1), false)
	return g.infeasible() || g.eqContent(g.bytesOf(x), g.bytesOf(y))
}

func sliceLen(v VSlice) Lin {
	if v.Obj == nil {
		return LC(0)
	}
	return v.Len
}

func init() {
	register("W01", "abstract interpretation of the key encoder on an arbitrary key; the bytes it leaves, followed by arbitrary bytes, are given to the key decoder", func(c *Check) {
		x := newExec(c.r)
		st := newState()
		k := c.symObj(st, "key", "util.Key")
		keys := st.field(k, "keys").(VSlice)
		dec := "util.NewMappedKey"
		for _, g := range given(st, nilCond(st, keys).not()) {
			for _, o := range c.call(x, g, "util.Key.Encode", k, VNil{}) {
				if o.st.isNil(o.rets[0]) == -1 {
					c.ok("error-result", "util.Key.Encode")
					continue
				}
				for _, b := range c.call(x, o.st, "util.Key.Buf", k) {
					buf, ok := c.followed(b.st, b.rets[0])
					if !ok {
						c.fail("reads-back", "util.Key.Encode", "encoded to %s", valString(b.rets[0]))
						continue
					}
					w := b.rets[0].(VSlice)
					for _, d := range c.call(x, b.st, dec, buf) {
						s := d.st
						bad := func() string { return valStrings(d.rets) + " for " + s.bytesOf(w).String() + "\n" + c.path(s) }
						c.oblige("no-error", dec, s.isNil(d.rets[2]) == 1, bad)
						p, ok := d.rets[0].(VPtr)
						if !ok || s.isNil(d.rets[2]) != 1 {
							continue
						}
						c.oblige("consumes-what-was-written", dec, s.eqL(intOf(d.rets[1]), w.Len), bad)
						c.oblige("original-unchanged", "util.Key.Encode", s.eqVal(s.field(k, "keys"), keys), bad)
						for _, q := range c.call(x, s, "util.MappedKey.Key", p) {
							c.oblige("reads-back", "util.MappedKey.Key", c.sameList(q.st, q.rets[0], keys), func() string {
								return q.st.bytesOf(q.rets[0].(VSlice)).String() + " for " + q.st.bytesOf(keys).String() + "\n" + c.path(q.st)
							})
						}
					}
				}
			}
		}
		c.min["reads-back"] = 1
		c.min["no-error"] = 1
		c.absorb(x)
	})
}
