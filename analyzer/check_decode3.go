package main

import "go/types"

// decodedResult: obligations on a successful decode; the object and the
// count it consumed
func (c *Check) decoded(what string, s *State, p Value, bufField string, k Lin, buf VSlice) (VPtr, bool) {
	c.oblige("consumed-within-input", what, s.ge(k) && s.ge(buf.Len.sub(k)), func() string { return "consumed " + k.String() + "\n" + c.path(s) })
	q, ok := p.(VPtr)
	if !ok || s.isNil(q) != -1 {
		c.fail("result", what, "no object and no error: %s", valString(p))
		return q, false
	}
	kb := s.field(q, bufField)
	c.oblige("holds-consumed-bytes", what, prefixOf(s, kb, buf, k), func() string { return valString(kb) + " consumed " + k.String() + "\n" + c.path(s) })
	return q, true
}

func init() {
	register("D05", "abstract interpretation of the scheme decoder and of every accessor of the decoded scheme, over an arbitrary byte slice", func(c *Check) {
		x := newExec(c.r)
		st := newState()
		buf := c.symBytes("buf")
		for _, o := range c.call(x, st, "util.NewMappedSchemd", buf) {
			p := o.rets[0]
			for _, d := range c.call(x, o.st, "util.MappedScheme.Decode", p, VNil{}) {
				s := d.st
				if s.isNil(d.rets[1]) == -1 {
					c.ok("error-result", "util.MappedScheme.Decode")
					continue
				}
				q, ok := c.decoded("util.MappedScheme.Decode", s, p, "buf", intOf(d.rets[0]), buf)
				if !ok {
					continue
				}
				for _, m := range []string{"Domain", "DomainName", "Tablet", "TabletName", "Buckets", "SchemeMagic", "Buf", "EstBufSize", "IsEncoded", "IsDecoded", "Copy", "CopyConstruct"} {
					for _, a := range c.call(x, s.clone(), "util.MappedScheme."+m, q) {
						if m == "IsDecoded" {
							c.oblige("reports-decoded", "util.MappedScheme.IsDecoded", c.isTrue(a.st, a.rets[0], true), nil)
						}
						if m == "Buckets" {
							bs, ok := a.rets[0].(VSlice)
							if !ok {
								continue
							}
							i := LT(mkTerm("in:i"))
							for _, g := range given(a.st.clone(), nilCond(a.st, bs).not(), condGE(i), condGE(bs.Len.sub(i).addc(-1))) {
								c.call(x, g, "util.MappedScheme.BucketAt", q, VInt{i})
							}
						}
					}
				}
			}
		}
		c.min["holds-consumed-bytes"] = 1
		c.min["no-crash"] = 10
		c.absorb(x)
	})
}

func init() {
	register("D06", "abstract interpretation of the readers of consensus times and ids, and of what they return, over an arbitrary byte slice", func(c *Check) {
		x := newExec(c.r)
		buf := c.symBytes("buf")
		name := "util.NewConsensusTime"
		for _, o := range c.call(x, newState(), name, buf) {
			if o.st.isNil(o.rets[1]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := o.rets[0].(VIface)
			if !ok || o.st.isNil(p.V) != -1 {
				c.fail("result", name, "no time and no error: %s", valString(o.rets[0]))
				continue
			}
			c.ok("time-result", name+" "+typeKey(p.T))
			for _, m := range []string{"Buf", "GT", "GE", "EQ", "NE", "LT", "LE"} {
				f := methodName(p.T, m)
				if m == "Buf" {
					c.call(x, o.st.clone(), f, p.V)
					continue
				}
				c.call(x, o.st.clone(), f, p.V, VNil{})
				for _, q := range c.call(x, o.st.clone(), name, c.symBytes("buf2")) {
					if q.st.isNil(q.rets[1]) != -1 {
						c.call(x, q.st, f, p.V, q.rets[0])
					}
				}
			}
		}
		name = "util.NewMappedConsensusID"
		for _, o := range c.call(x, newState(), name, buf) {
			s := o.st
			if s.isNil(o.rets[1]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := o.rets[0].(VPtr)
			if !ok || s.isNil(p) != -1 {
				c.fail("result", name, "no id and no error: %s", valString(o.rets[0]))
				continue
			}
			kb, ok := s.field(p, "buf").(VSlice)
			if !ok || kb.Obj == nil {
				c.fail("holds-consumed-bytes", name, "%s", valString(s.field(p, "buf")))
				continue
			}
			c.oblige("holds-consumed-bytes", name, s.ge(buf.Len.sub(kb.Len)) && prefixOf(s, kb, buf, kb.Len), func() string { return valString(kb) + "\n" + c.path(s) })
			if !s.ge(buf.Len.addc(-1)) {
				c.fail("refuses-reserved", name, "an id read from no bytes at all\n%s", c.path(s))
				continue
			}
			b0 := intOf(s.at(s.arr(buf), buf.Off, types.Typ[types.Uint8]))
			c.oblige("refuses-reserved", name, s.eqL(lowBits(b0, 3), LC(0)), func() string { return "reserved bits of the magic byte are not refused\n" + c.path(s) })
			c.oblige("refuses-empty", name, s.ge(b0.addc(-1)), func() string { return "an id without any component is not refused\n" + c.path(s) })
			// each flagged component takes its bytes
			want := LC(1)
			for bit := 3; bit <= 7; bit++ {
				n := int64(32)
				if bit == 3 {
					n = 64
				}
				f := divLin(b0, pow2(bit)).sub(divLin(b0, pow2(bit+1)).mulc(2))
				want = want.add(f.mulc(n))
			}
			c.oblige("consumes-components", name, s.eqL(kb.Len, want), func() string { return "length " + kb.Len.String() + " expected " + want.String() + "\n" + c.path(s) })
			redecode(x, name, 1, func(s *State, a Value) bool { return sameBytes(s, a, kb) })
			for _, m := range []string{"ConsensusMagic", "Buf", "Copy"} {
				c.call(x, s.clone(), "util.MappedConsensusID."+m, p)
			}
			delete(x.hooks, name)
		}
		c.min["time-result"] = 2
		c.min["refuses-reserved"] = 1
		c.absorb(x)
	})
}

// methodName is the name of a method of *T as the analyzer names functions
func methodName(t types.Type, m string) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := t.(*types.Named).Obj()
	return n.Pkg().Name() + "." + n.Name() + "." + m
}
