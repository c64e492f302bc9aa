package main

// Models of library types that build up bytes step by step, and of small
// helpers over slices.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// growing is an object that bytes are added to; get and set reach the bytes
func growing(at func(*State, VPtr) (VSlice, func(*State, VSlice))) func(add func(*mcall) *Content, rets func(*mcall, *Content) []Value) func(*mcall) []Outcome {
	return func(add func(*mcall) *Content, rets func(*mcall, *Content) []Value) func(*mcall) []Outcome {
		return func(c *mcall) []Outcome {
			what := add(c)
			return c.x.derefs(c.st, c.args[0], c.site, func(st *State, p VPtr) []Outcome {
				s, put := at(st, p)
				return c.x.appendContent(st, c.site, types.Typ[types.Uint8], s, what, func(st *State, v Value) []Outcome {
					put(st, v.(VSlice))
					return ret(st, rets(c, what)...)
				})
			})
		}
	}
}

func fieldSlice(name string) func(*State, VPtr) (VSlice, func(*State, VSlice)) {
	return func(st *State, p VPtr) (VSlice, func(*State, VSlice)) {
		s, ok := st.field(p, name).(VSlice)
		if !ok {
			panic(undecided{"a library type without a field " + name})
		}
		return s, func(st *State, v VSlice) { st.setField(p, name, v) }
	}
}

// appendContent appends to a slice
func (x *Exec) appendContent(st *State, site ssa.Instruction, et types.Type, s VSlice, c *Content, f func(*State, Value) []Outcome) []Outcome {
	n := c.length()
	if n.isInt(0) {
		return f(st, s)
	}
	sl := LC(0)
	if s.Obj != nil {
		sl = s.Len
	}
	if s.Obj != nil && st.ge(s.Cap.sub(sl).sub(n)) {
		tail := s
		tail.Off = s.Off.add(sl)
		tail.Len = n
		x.writeSlice(st, tail, c, site)
		r := s
		r.Len = sl.add(n)
		return f(st, r)
	}
	if g := st.clone(); s.Obj != nil {
		g.push(n.addc(-1), false)
		g.push(s.Cap.sub(sl).sub(n), false)
		if g.infeasibleOf(n.addc(-1)) || g.infeasibleOf(s.Cap.sub(sl).sub(n)) {
			g = nil
		}
		// it may also write in place, beyond the length
		if g != nil {
			st.event(&Event{kind: "maywrite", args: []Value{s}, site: site, in: parentOf(site)})
		}
	}
	all := content(append(append([]Seg{}, st.bytesOf(s).segs...), c.segs...)...)
	r := st.newSlice("append", et, all, nil)
	if s.Obj == nil || st.isNil(s) != -1 {
		if !st.ge(n.addc(-1)) {
			t := st.fresh("appnil")
			r.Nil = t
			st.push(LT(lenTerm(t)).sub(r.Len), true)
			r.Len = sl.add(n)
		}
	}
	return f(st, r)
}

func theBytes(i int) func(*mcall) *Content {
	return func(c *mcall) *Content { return c.bytes(i) }
}
func theByte(i int) func(*mcall) *Content {
	return func(c *mcall) *Content { return content(Seg{K: 'e', V: VInt{c.int(i)}}) }
}
func countAndNil(c *mcall, w *Content) []Value { return []Value{VInt{w.length()}, VNil{}} }
func justNil(c *mcall, w *Content) []Value     { return []Value{VNil{}} }

func init() {
	buf := fieldSlice("buf")
	grow := growing(buf)
	shown := func(f func(*State, VSlice) Value, off bool) func(*mcall) []Outcome {
		return func(c *mcall) []Outcome {
			return c.x.derefs(c.st, c.args[0], c.site, func(st *State, p VPtr) []Outcome {
				s, _ := buf(st, p)
				if off {
					o := intOf(st.field(p, "off"))
					if !o.isInt(0) {
						panic(undecided{"reading from a bytes.Buffer"})
					}
				}
				return ret(st, f(st, s))
			})
		}
	}
	length := func(st *State, s VSlice) Value { return VInt{sliceLen(s)} }
	text := func(st *State, s VSlice) Value { return VStr{st.norm(st.bytesOf(s))} }
	empty := func(off bool) func(*mcall) []Outcome {
		return func(c *mcall) []Outcome {
			return c.x.derefs(c.st, c.args[0], c.site, func(st *State, p VPtr) []Outcome {
				s, put := buf(st, p)
				if off && s.Obj != nil {
					s.Len = LC(0)
					put(st, s)
				} else {
					put(st, nilSlice)
				}
				return ret(st)
			})
		}
	}
	nothing := func(c *mcall) []Outcome {
		return c.need(c.st, condGE(c.int(1)), "explicit", "negative count", func(st *State) []Outcome { return ret(st) })
	}
	for _, t := range []string{"bytes.Buffer", "strings.Builder"} {
		b := t == "bytes.Buffer"
		models[t+".Write"] = grow(theBytes(1), countAndNil)
		models[t+".WriteString"] = grow(theBytes(1), countAndNil)
		models[t+".WriteByte"] = grow(theByte(1), justNil)
		models[t+".String"] = shown(text, b)
		models[t+".Len"] = shown(length, b)
		models[t+".Reset"] = empty(b)
		models[t+".Grow"] = nothing
	}
	models["bytes.Buffer.Bytes"] = shown(func(st *State, s VSlice) Value { return s }, true)
	newBuffer := func(c *mcall) []Outcome {
		T := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := c.st.newObj("buffer", T)
		p := VPtr{Obj: o}
		c.st.heap[o] = zeroVal(T)
		switch a := c.args[0].(type) {
		case VSlice:
			c.st.setField(p, "buf", a)
		default:
			c.st.setField(p, "buf", newBytes(c.st, "buffer", c.bytes(0)))
		}
		return ret(c.st, p)
	}
	models["bytes.NewBuffer"] = newBuffer
	models["bytes.NewBufferString"] = newBuffer

	// digests fed step by step: what was written so far is kept in a slice
	for _, h := range []struct {
		ctor, sum string
		n         int64
	}{{"sha256.New", "sha256.Sum256", 32}, {"md5.New", "md5.Sum", 16}, {"sha1.New", "sha1.Sum", 20}, {"sha512.New", "sha512.Sum512", 64}} {
		h := h
		models[h.ctor] = func(c *mcall) []Outcome {
			o := c.st.newObj("digest:"+h.sum, types.NewSlice(types.Typ[types.Uint8]))
			c.st.heap[o] = nilSlice
			return ret(c.st, symNonNil(c.st, mkTerm("digest", o, h.sum, LC(h.n)), c.sig.Results().At(0).Type()))
		}
	}
	digest := func(f func(c *mcall, o *Term, sum string, n Lin, s VSlice) []Outcome) func(*mcall) []Outcome {
		return func(c *mcall) []Outcome {
			a, ok := c.args[0].(VSym)
			if !ok || a.Tm.op != "digest" {
				return nil
			}
			o := a.Tm.args[0].(*Term)
			s, ok := c.st.get(o).(VSlice)
			if !ok {
				return nil
			}
			return f(c, o, a.Tm.args[1].(string), a.Tm.args[2].(Lin), s)
		}
	}
	write := digest(func(c *mcall, o *Term, _ string, _ Lin, s VSlice) []Outcome {
		all := content(append(append([]Seg{}, c.st.bytesOf(s).segs...), c.bytes(1).segs...)...)
		c.st.heap[o] = newBytes(c.st, "digested", all)
		return ret(c.st, VInt{c.bytes(1).length()}, VNil{})
	})
	sum := digest(func(c *mcall, o *Term, sum string, n Lin, s VSlice) []Outcome {
		d := blob(mkTerm(sum, c.st.norm(c.st.bytesOf(s))), n)
		dst, ok := c.args[1].(VSlice)
		if !ok {
			return nil
		}
		return c.x.appendContent(c.st, c.site, types.Typ[types.Uint8], dst, d, func(st *State, v Value) []Outcome { return ret(st, v) })
	})
	reset := digest(func(c *mcall, o *Term, _ string, _ Lin, s VSlice) []Outcome {
		c.st.heap[o] = nilSlice
		return ret(c.st)
	})
	size := digest(func(c *mcall, o *Term, _ string, n Lin, s VSlice) []Outcome { return ret(c.st, VInt{n}) })
	for _, t := range []string{"hash.Hash", "io.Writer"} {
		models[t+".Write"] = write
		models[t+".Sum"] = sum
		models[t+".Reset"] = reset
		models[t+".Size"] = size
	}

	// copies and concatenations
	clone := func(c *mcall) []Outcome {
		s, ok := c.args[0].(VSlice)
		if !ok {
			return nil
		}
		if c.st.isNil(s) == 1 {
			return ret(c.st, s)
		}
		et := elemType(c.sig.Results().At(0).Type())
		r := c.st.newSlice("clone", et, c.st.bytesOf(s), nil)
		r.Nil = s.Nil
		return ret(c.st, r)
	}
	models["bytes.Clone"] = clone
	models["slices.Clone"] = clone
	models["slices.Concat"] = func(c *mcall) []Outcome {
		var segs []Seg
		vs := c.varargs(0)
		if vs == nil {
			return nil
		}
		for _, v := range vs {
			s, ok := v.(VSlice)
			if !ok {
				return nil
			}
			segs = append(segs, c.st.bytesOf(s).segs...)
		}
		r := c.st.newSlice("concat", elemType(c.sig.Results().At(0).Type()), content(segs...), nil)
		if !c.st.ge(r.Len.addc(-1)) {
			t := c.st.fresh("appnil")
			r.Nil = t
			c.st.push(LT(lenTerm(t)).sub(r.Len), true)
		}
		return ret(c.st, r)
	}
	models["slices.Equal"] = func(c *mcall) []Outcome {
		a, ok1 := c.args[0].(VSlice)
		_, ok2 := c.args[1].(VSlice)
		if !ok1 || !ok2 || !strings.HasSuffix(typeKey(elemType(c.sig.Params().At(0).Type())), "uint8") && !strings.HasSuffix(typeKey(elemType(c.sig.Params().At(0).Type())), "byte") {
			_ = a
			return nil
		}
		return ret(c.st, VBool{c.x.contentEq(c.st, c.bytes(0), c.bytes(1))})
	}
	for name, k := range map[string]byte{"binary.AppendUvarint": 'u', "binary.AppendVarint": 's'} {
		k := k
		models[name] = func(c *mcall) []Outcome {
			s, ok := c.args[0].(VSlice)
			if !ok {
				return nil
			}
			return c.x.appendContent(c.st, c.site, types.Typ[types.Uint8], s, content(Seg{K: k, X: c.int(1)}), func(st *State, v Value) []Outcome { return ret(st, v) })
		}
	}
	for _, e := range []string{"bigEndian", "littleEndian"} {
		for _, n := range []int{16, 32, 64} {
			n, e := n, e
			models["binary."+e+".AppendUint"+itoa(n)] = func(c *mcall) []Outcome {
				s, ok := c.args[1].(VSlice)
				if !ok {
					return nil
				}
				v := c.int(2)
				var segs []Seg
				for i := 0; i < n/8; i++ {
					sh := 8 * i
					if e == "bigEndian" {
						sh = 8 * (n/8 - 1 - i)
					}
					segs = append(segs, Seg{K: 'e', V: VInt{lowBits(divLin(v, pow2(sh)), 8)}})
				}
				return c.x.appendContent(c.st, c.site, types.Typ[types.Uint8], s, content(segs...), func(st *State, v Value) []Outcome { return ret(st, v) })
			}
		}
	}
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}
