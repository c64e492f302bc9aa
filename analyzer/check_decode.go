package main

import "golang.org/x/tools/go/ssa"

// D: decoders are total and stay inside their input.

func init() {
	register("D01", "abstract interpretation of the integer and varchar readers over an arbitrary byte slice", func(c *Check) {
		for _, n := range []string{"util.DecodeVarint64", "util.DecodeUvarint64", "util.DecodeVarchar"} {
			x := newExec(c.r)
			st := newState()
			buf := c.symBytes("buf")
			outs := c.call(x, st, n, buf)
			for _, o := range outs {
				s := o.st
				e := s.isNil(o.rets[2])
				if e == -1 {
					c.ok("error-result", n)
					continue
				}
				k := intOf(o.rets[1])
				c.oblige("consumed-within-input", n, s.ge(k) && s.ge(buf.Len.sub(k)), func() string { return "consumed " + k.String() + "\n" + c.path(s) })
				c.oblige("cut-off-is-error", n, s.ge(k.addc(-1)) || s.eqL(buf.Len, LC(0)), func() string {
					return "no error although not even the number was read: consumed " + k.String() + "\n" + c.path(s)
				})
				if n == "util.DecodeVarchar" {
					r, ok := o.rets[0].(VSlice)
					if !ok {
						c.fail("content-in-place", n, "result is %s", valString(o.rets[0]))
						continue
					}
					good := r.Obj == nil || s.eqL(r.Len, LC(0)) ||
						s.eqContent(s.bytesOf(r), s.sub(s.arr(buf), k.sub(r.Len), r.Len))
					c.oblige("content-in-place", n, good, func() string { return valString(r) + "\n" + c.path(s) })
				}
			}
			c.absorb(x)
		}
		c.min["consumed-within-input"] = 3
		c.min["cut-off-is-error"] = 3
		c.min["content-in-place"] = 1
	})
}

// redecode installs the assumption that a decoder which succeeded on some
// bytes succeeds again on exactly the bytes it consumed: the error results
// of a second decoding of those bytes are left out.
func redecode(x *Exec, name string, errIdx int, known func(st *State, arg Value) bool) {
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		h := x.hooks[name]
		delete(x.hooks, name)
		defer func() { x.hooks[name] = h }()
		is := known(st, args[len(args)-1])
		var out []Outcome
		for _, o := range x.callFn(st, x.r.fn(name), args, nil, site) {
			if is && o.panic == nil && o.st.isNil(o.rets[errIdx]) == -1 {
				continue
			}
			out = append(out, o)
		}
		return out
	}
}

func sameBytes(st *State, a, b Value) bool {
	s, ok1 := a.(VSlice)
	t, ok2 := b.(VSlice)
	if !ok1 || !ok2 {
		return false
	}
	if s.Obj == nil || t.Obj == nil {
		return s.Obj == nil && t.Obj == nil
	}
	return st.eqContent(st.bytesOf(s), st.bytesOf(t))
}
