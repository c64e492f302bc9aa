package main

func init() {
	register("D02", "abstract interpretation of the key decoder and of every accessor of the decoded key, over an arbitrary byte slice", func(c *Check) {
		x := newExec(c.r)
		st := newState()
		buf := c.symBytes("buf")
		outs := c.call(x, st, "util.NewMappedKey", buf)
		n := 0
		for _, o := range outs {
			s := o.st
			if s.isNil(o.rets[2]) == -1 {
				c.ok("error-result", "util.NewMappedKey")
				continue
			}
			n++
			k := intOf(o.rets[1])
			c.oblige("consumed-within-input", "util.NewMappedKey", s.ge(k) && s.ge(buf.Len.sub(k)), func() string { return "consumed " + k.String() + "\n" + c.path(s) })
			p, ok := o.rets[0].(VPtr)
			if !ok || s.isNil(p) != -1 {
				c.fail("result", "util.NewMappedKey", "no key and no error: %s", valString(o.rets[0]))
				continue
			}
			kb := s.field(p, "buf")
			c.oblige("holds-consumed-bytes", "util.NewMappedKey", prefixOf(s, kb, buf, k), func() string { return valString(kb) + " consumed " + k.String() + "\n" + c.path(s) })
			redecode(x, "util.NewMappedKey", 2, func(s *State, a Value) bool { return sameBytes(s, a, kb) })
			for _, m := range []string{"IsEmpty", "Key", "Buf", "EstBufSize", "IsEncoded", "IsDecoded", "Copy", "CopyConstruct", "ToString"} {
				c.call(x, s.clone(), "util.MappedKey."+m, p)
			}
			delete(x.hooks, "util.NewMappedKey")
		}
		c.absorb(x)
		_ = n
	})
}
