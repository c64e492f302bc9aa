package main

import "go/types"

func init() {
	register("D07", "abstract interpretation of the hash table loader over an arbitrary byte slice and of lookups of an arbitrary key in every table it returns, and in tables built of no keys", func(c *Check) {
		x := newExec(c.r)
		buf := c.symBytes("buf")
		decoderContract(x, "util.NewMappedKey", 1, nil)
		name := "util.NewMPHTable"
		key := c.sym("key", c.r.typ("util.IKey"))
		for _, o := range c.call(x, newState(), name, buf) {
			s := o.st
			if s.isNil(o.rets[2]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := o.rets[0].(VPtr)
			if !ok || s.isNil(p) != -1 {
				c.fail("result", name, "no table and no error: %s", valString(o.rets[0]))
				continue
			}
			k := intOf(o.rets[1])
			c.oblige("consumed-within-input", name, s.ge(k) && s.ge(buf.Len.sub(k)), func() string { return "consumed " + k.String() + "\n" + c.path(s) })
			c.ok("table", name)
			for _, g := range given(s.clone(), nilCond(s, key).not()) {
				c.call(x, g, "util.MPHTable.Lookup", p, key)
			}
		}
		c.min["table"] = 1
		// an empty table
		name = "util.MPHBuild"
		randomContract(x, "util.RandUint64Range")
		for _, byKey := range []bool{true, false} {
			for _, keys := range []Value{nilSlice, emptyKeys(c)} {
				for _, o := range c.call(x, newState(), name, keys, VBool{condBool(byKey)}) {
					p, ok := o.rets[0].(VPtr)
					if !ok || o.st.isNil(p) != -1 {
						c.fail("result", name, "no table: %s", valString(o.rets[0]))
						continue
					}
					c.ok("empty-table", name)
					for _, g := range given(o.st.clone(), nilCond(o.st, key).not()) {
						for _, q := range c.call(x, g, "util.MPHTable.Lookup", p, key) {
							c.oblige("empty-holds-nothing", "util.MPHTable.Lookup", c.isTrue(q.st, q.rets[1], false), func() string { return "found " + valString(q.rets[1]) + "\n" + c.path(q.st) })
						}
					}
				}
			}
		}
		c.min["empty-table"] = 1
		c.absorb(x)
	})
}

// emptyKeys is a slice of no keys that is not nil
func emptyKeys(c *Check) Value {
	s := c.sym("nokeys", types.NewSlice(c.r.typ("util.IKey"))).(VSlice)
	s.Len = LC(0)
	s.Nil = nil
	return s
}
