package main

func init() {
	register("D04", "abstract interpretation of the record decoder over an arbitrary byte slice, for every combination of components, and of every accessor of the decoded record; component decoders are replaced by what D02 and D03 establish of them", func(c *Check) {
		x := newExec(c.r)
		buf := c.symBytes("buf")
		name := "util.NewMappedRecord"
		decoderContract(x, "util.NewMappedKey", 0, nil)
		decoderContract(x, "util.NewStandardMappedValue", 1, nil)
		decoderContract(x, "util.NewSimpleMappedValue", 0, nil)
		copyContract(x, "IKey", "IValue")
		copyContractOf(x, "MappedKey", "IKey")
		copyContractOf(x, "StandardMappedValue", "IValue")
		copyContractOf(x, "SimpleMappedValue", "IValue")
		for _, o := range c.call(x, newState(), name, buf) {
			s := o.st
			if s.isNil(o.rets[2]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := c.decoded(name, s, o.rets[0], "buf", intOf(o.rets[1]), buf)
			if !ok {
				continue
			}
			kb := s.field(p, "buf")
			redecode(x, name, 2, func(s *State, a Value) bool { return sameBytes(s, a, kb) })
			for _, m := range []string{"Key", "Value", "Scheme", "Timestamp", "Signature", "RecordMagic", "Buf", "EstBufSize", "IsEncoded", "IsDecoded", "Copy", "CopyConstruct"} {
				for _, q := range c.call(x, s.clone(), "util.MappedRecord."+m, p) {
					switch m {
					case "Copy", "CopyConstruct":
						c.copyRule("util.MappedRecord."+m, "IRecord", q, m == "CopyConstruct")
					case "Key", "Value", "Scheme":
						// a component is absent or real, never a nil inside an interface
						v := q.rets[0]
						good := true
						if f, ok := v.(VIface); ok {
							good = q.st.isNil(f.V) == -1
						}
						c.oblige("component", "util.MappedRecord."+m, good, func() string { return valString(v) + "\n" + c.path(q.st) })
					case "IsDecoded", "IsEncoded":
						c.oblige("reports-state", "util.MappedRecord."+m, c.isTrue(q.st, q.rets[0], true), nil)
					}
				}
			}
			delete(x.hooks, name)
		}
		c.min["holds-consumed-bytes"] = 1
		c.min["component"] = 3
		c.min["copy-result"] = 2
		c.absorb(x)
	})
}
