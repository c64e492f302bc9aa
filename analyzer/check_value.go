package main

import (
	"go/types"
)

func init() {
	register("D03", "abstract interpretation of the value decoders over an arbitrary byte slice and of every accessor of the decoded values; elements decoded on demand are covered by induction: what is stored as an element is a decoded value or nothing", func(c *Check) {
		x := newExec(c.r)
		x.trackW = true
		buf := c.symBytes("buf")
		// the simple value
		name := "util.NewSimpleMappedValue"
		idx := c.sym("idx", types.Typ[types.Uint16])
		for _, o := range c.call(x, newState(), name, buf) {
			s := o.st
			if s.isNil(o.rets[2]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := c.decoded(name, s, o.rets[0], "buf", intOf(o.rets[1]), buf)
			if !ok {
				continue
			}
			kb := s.field(p, "buf")
			redecode(x, name, 2, func(s *State, a Value) bool { return sameBytes(s, a, kb) })
			c.valueMethods(x, s, "util.SimpleMappedValue.", p, idx, nil, nil)
			delete(x.hooks, name)
		}
		// the standard value
		name = "util.NewStandardMappedValue"
		outs := c.call(x, newState(), name, buf)
		for _, o := range outs {
			s := o.st
			if s.isNil(o.rets[2]) == -1 {
				c.ok("error-result", name)
				continue
			}
			p, ok := c.decoded(name, s, o.rets[0], "buf", intOf(o.rets[1]), buf)
			if !ok {
				continue
			}
			arrs := map[*Term]string{}
			for f, ctor := range map[string]string{"data_array": "util.NewStandardMappedValue", "record_list": "util.NewMappedRecord"} {
				a, ok := s.field(p, f).(VSlice)
				if !ok {
					c.fail("elements", f, "%s", valString(s.field(p, f)))
					continue
				}
				if a.Obj == nil {
					continue
				}
				// at first nothing is decoded, later any element may be
				zero := allAbsent(s.norm(s.bytesOf(a)))
				c.oblige("elements-start-absent", name+" "+f, zero, func() string { return s.bytesOf(a).String() + "\n" + c.path(s) })
				arrs[a.Obj] = ctor
			}
			kb := s.field(p, "buf")
			for _, m := range valueMethods {
				g := s.clone()
				for a := range arrs {
					src := mkTerm("in:elements of", a)
					objType[src] = objType[a]
					l := g.get(a).(VArr).C.length()
					g.heap[a] = VArr{content(Seg{K: 'b', Src: src, Off: LC(0), N: l})}
					x.trackObj[a] = true
				}
				if m == "Copy" {
					redecode(x, name, 2, func(s *State, a Value) bool { return sameBytes(s, a, kb) })
				} else if m == "CopyConstruct" {
					elementContract(x, "util.StandardMappedValue.ValueAt", "util.IValue")
					elementContract(x, "util.StandardMappedValue.RecordAt", "util.IRecord")
				} else {
					made := map[*Term]bool{}
					decoderContract(x, "util.NewStandardMappedValue", 1, made)
					decoderContract(x, "util.NewMappedRecord", 1, made)
				}
				copyContract(x, "IValue", "IRecord")
				c.valueMethods(x, g, "util.StandardMappedValue.", p, idx, arrs, []string{m})
				delete(x.hooks, "util.NewStandardMappedValue")
				delete(x.hooks, "util.NewMappedRecord")
				delete(x.hooks, "util.StandardMappedValue.ValueAt")
				delete(x.hooks, "util.StandardMappedValue.RecordAt")
			}
		}
		c.min["holds-consumed-bytes"] = 2
		c.min["no-crash"] = 35
		c.min["stored-element"] = 2
		c.absorb(x)
	})
}

var valueMethods = []string{"IsNil", "IsPrimitive", "IsValueArray", "IsRecordList", "Size", "LookupEncoder", "CompressEncoder", "Value", "ValueMagic", "Buf", "EstBufSize", "IsEncoded", "IsDecoded", "ValueAt", "RecordAt", "Copy", "CopyConstruct"}

func (c *Check) valueMethods(x *Exec, s *State, pre string, p VPtr, idx Value, arrs map[*Term]string, ms []string) {
	if ms == nil {
		ms = valueMethods
	}
	for _, m := range ms {
		g := s.clone()
		mark := g.ev
		args := []Value{p}
		if m == "ValueAt" || m == "RecordAt" {
			args = append(args, idx)
		}
		for _, o := range c.call(x, g, pre+m, args...) {
			c.storedElements(o.st, mark, arrs)
			for _, f := range []string{"decoded", "buf", "content", "size", "data_array", "record_list"} {
				if fieldIndex(objType[p.Obj], f) >= 0 {
					a, b := s.field(p, f), o.st.field(p, f)
					c.oblige("unchanged", pre+m+" "+f, a.vkey() == b.vkey() || o.st.eqVal(a, b), func() string { return valString(a) + " becomes " + valString(b) + "\n" + c.path(o.st) })
				}
			}
			switch m {
			case "Copy", "CopyConstruct":
				c.copyRule(pre+m, "IValue", o, m == "CopyConstruct")
			case "ValueAt", "RecordAt":
				e := o.st.isNil(o.rets[1])
				if e == -1 {
					c.ok("element-or-error", pre+m)
					continue
				}
				v := o.rets[0]
				good := e == 1 && o.st.isNil(v) == -1
				if f, ok := v.(VIface); ok && o.st.isNil(f.V) != -1 {
					good = false
				}
				c.oblige("element-or-error", pre+m, good, func() string { return valString(v) + "\n" + c.path(o.st) })
			case "IsDecoded", "IsEncoded":
				c.oblige("reports-state", pre+m, c.isTrue(o.st, o.rets[0], true), nil)
			case "Value":
				// the content is among the bytes consumed
				v, ok := o.rets[0].(VSlice)
				b, ok2 := s.field(p, "buf").(VSlice)
				good := !ok && o.st.isNil(o.rets[0]) == 1
				if ok && ok2 {
					good = v.Obj != b.Obj || o.st.ge(v.Off.sub(b.Off)) && o.st.ge(b.Off.add(b.Len).sub(v.Off).sub(v.Len)) || o.st.eqL(v.Len, LC(0))
				}
				c.oblige("content-within", pre+m, good, func() string { return valString(o.rets[0]) + " of " + valString(b) + "\n" + c.path(o.st) })
			}
		}
	}
}

// storedElements: whatever is stored in an array of elements is the result
// of a successful decoding
func (c *Check) storedElements(st *State, mark *Event, arrs map[*Term]string) {
	for _, e := range flatten(st.events(mark)) {
		if e.kind != "write" {
			continue
		}
		p, ok := e.args[0].(VPtr)
		if !ok || arrs[p.Obj] == "" {
			continue
		}
		where := "?"
		if e.in != nil {
			where = fname(e.in)
		}
		good := len(e.rets) == 1
		what := "?"
		if good {
			what = valString(e.rets[0])
			f, ok := e.rets[0].(VIface)
			good = ok && st.isNil(f.V) == -1
			if _, isnil := e.rets[0].(VNil); isnil {
				good = true
			}
		}
		c.oblige("stored-element", where, good, func() string { return "stored element " + what + "\n" + c.path(st) })
	}
}

// allAbsent: the content is zero values only
func allAbsent(c *Content) bool {
	for _, g := range c.segs {
		if g.K == 'z' {
			continue
		}
		if _, ok := g.V.(VNil); g.K == 'e' && ok {
			continue
		}
		return false
	}
	return true
}
