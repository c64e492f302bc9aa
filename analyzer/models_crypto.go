package main

// Models of the cryptographic library.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func symNonNil(st *State, t *Term, ty types.Type) Value {
	nonNil(st, t)
	return symVal(t, ty)
}

// orError gives the two results of a call (value, error)
func (c *mcall) orError(st *State, zero Value, ok func(*State) []Value) []Outcome {
	bad := st.clone()
	e := freshErr(bad, c.name)
	rs := append([]Value{zero}, e)
	c.note(bad, rs...)
	good := append(ok(st), VNil{})
	c.note(st, good...)
	return []Outcome{{st: st, rets: good}, {st: bad, rets: rs}}
}

func bigHex(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

var p256 = map[string]*big.Int{
	"P":  bigHex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
	"N":  bigHex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
	"B":  bigHex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
	"Gx": bigHex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
	"Gy": bigHex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
}

// termOf is the identity of an opaque value
func termOf(v Value) Arg {
	switch a := v.(type) {
	case VSym:
		return a.Tm
	case VIface:
		return termOf(a.V)
	case VPtr:
		return a.Obj
	case VNil:
		return "nil"
	}
	return v.vkey()
}

func curveName(v Value) string {
	if s, ok := v.(VSym); ok && strings.HasPrefix(s.Tm.op, "curve:") {
		return s.Tm.op
	}
	return ""
}

func init() {
	for _, n := range []string{"P224", "P256", "P384", "P521"} {
		n := n
		models["elliptic."+n] = func(c *mcall) []Outcome {
			return ret(c.st, symNonNil(c.st, mkTerm("curve:"+n), c.sig.Results().At(0).Type()))
		}
	}
	models["elliptic.Curve.Params"] = func(c *mcall) []Outcome {
		pt := c.sig.Results().At(0).Type().(*types.Pointer)
		T := pt.Elem()
		o := mkTerm("curveparams", termOf(c.args[0]))
		objType[o] = T
		s := T.Underlying().(*types.Struct)
		v := VStruct{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if fp, ok := f.Type().(*types.Pointer); ok {
				b := mkTerm("curveparam", o, f.Name())
				objType[b] = fp.Elem()
				if k := p256[f.Name()]; k != nil && curveName(c.args[0]) == "curve:P256" {
					c.st.heap[b] = VInt{LB(k)}
				} else {
					c.st.heap[b] = VInt{LT(setRange(mkTerm("curveconst", o, f.Name()), big1, nil))}
				}
				constInit[b] = c.st.heap[b]
				v.F = append(v.F, VPtr{Obj: b})
			} else {
				v.F = append(v.F, symVal(mkTerm("curvefield", o, f.Name()), f.Type()))
			}
		}
		// they were there before anything ran
		constInit[o] = v
		if _, ok := c.st.heap[o]; !ok {
			c.st.heap[o] = v
		}
		return ret(c.st, VPtr{Obj: o})
	}
	models["elliptic.Curve.IsOnCurve"] = func(c *mcall) []Outcome {
		return c.ptrs(c.args, func(st *State, a []Value) []Outcome {
			X, Y := c.x.bigInt(st, a[1], c.site), c.x.bigInt(st, a[2], c.site)
			return ret(st, VBool{condOp(mkTerm("oncurve", termOf(a[0]), X, Y))})
		})
	}
	point := func(c *mcall) []Outcome {
		return c.ptrs(c.args, func(st *State, a []Value) []Outcome {
			var as []Arg
			as = append(as, termOf(a[0]))
			for i := range a[1:] {
				switch v := a[i+1].(type) {
				case VPtr:
					as = append(as, c.x.bigInt(st, v, c.site))
				case VSlice:
					// a scalar: the number the bytes stand for
					as = append(as, bigFrom(st, st.bytesOf(v)))
				default:
					as = append(as, v.vkey())
				}
			}
			r := VTuple{}
			for i := 0; i < 2; i++ {
				o := st.newObj("big", c.sig.Results().At(i).Type().(*types.Pointer).Elem())
				st.heap[o] = VInt{LT(setRange(mkTerm(fmt.Sprintf("%s.%d", c.name, i), as...), big0, nil))}
				r.Vs = append(r.Vs, VPtr{Obj: o})
			}
			c.note(st, r.Vs...)
			return ret(st, r.Vs...)
		})
	}
	for _, m := range []string{"ScalarBaseMult", "ScalarMult", "Add", "Double"} {
		models["elliptic.Curve."+m] = point
	}

	models["aes.NewCipher"] = func(c *mcall) []Outcome {
		k := c.bytes(0)
		n := k.length()
		bad := c.st.clone()
		var out []Outcome
		rt := c.sig.Results().At(0).Type()
		for _, l := range []int64{16, 24, 32} {
			for _, s := range given(c.st.clone(), condEQ(n.addc(-l))) {
				r := symNonNil(s, mkTerm("aes", k), rt)
				c.note(s, r, VNil{})
				out = append(out, Outcome{st: s, rets: []Value{r, VNil{}}})
			}
		}
		for _, s := range given(bad, condEQ(n.addc(-16)).not(), condEQ(n.addc(-24)).not(), condEQ(n.addc(-32)).not()) {
			e := freshErr(s, c.name)
			c.note(s, VNil{}, e)
			out = append(out, Outcome{st: s, rets: []Value{VNil{}, e}})
		}
		return out
	}
	gcm := func(size func(c *mcall) Lin) func(c *mcall) []Outcome {
		return func(c *mcall) []Outcome {
			return c.needIface(0, func(st *State) []Outcome {
				if b, ok := c.args[0].(VSym); ok && b.Tm.op == "aes" && size(c).isInt(12) {
					// its block size is the right one
					r := symNonNil(st, mkTerm("gcm", termOf(c.args[0]), size(c)), c.sig.Results().At(0).Type())
					c.note(st, r, VNil{})
					return ret(st, r, VNil{})
				}
				return c.orError(st, VNil{}, func(st *State) []Value {
					return []Value{symNonNil(st, mkTerm("gcm", termOf(c.args[0]), size(c)), c.sig.Results().At(0).Type())}
				})
			})
		}
	}
	models["cipher.NewGCM"] = gcm(func(*mcall) Lin { return LC(12) })
	models["cipher.NewGCMWithNonceSize"] = gcm(func(c *mcall) Lin { return c.int(1) })
	nonceSize := func(c *mcall) Lin {
		if s, ok := c.args[0].(VSym); ok && s.Tm.op == "gcm" {
			return s.Tm.args[1].(Lin)
		}
		return LT(setRange(mkTerm("noncesize", termOf(c.args[0])), big0, big.NewInt(1<<30)))
	}
	models["cipher.AEAD.NonceSize"] = func(c *mcall) []Outcome { return ret(c.st, VInt{nonceSize(c)}) }
	models["cipher.AEAD.Overhead"] = func(c *mcall) []Outcome { return ret(c.st, VInt{LC(16)}) }
	models["cipher.AEAD.Seal"] = func(c *mcall) []Outcome {
		dst, nonce, pt, ad := c.bytes(1), c.bytes(2), c.bytes(3), c.bytes(4)
		return c.need(c.st, condEQ(nonce.length().sub(nonceSize(c))), "nonce", "incorrect nonce length", func(st *State) []Outcome {
			t := mkTerm("gcmseal", termOf(c.args[0]), nonce, pt, ad)
			body := blob(t, pt.length().addc(16))
			r := newBytes(st, "sealed", content(append(append([]Seg{}, dst.segs...), body.segs...)...))
			if d, ok := c.args[1].(VSlice); ok && d.Obj != nil && !d.Cap.eq(LC(0)) {
				// it may write behind dst
				c.x.note(st, "maywrite", c.name, c.args, nil, c.site)
			}
			c.note(st, r)
			return ret(st, r)
		})
	}
	models["cipher.AEAD.Open"] = func(c *mcall) []Outcome {
		dst, nonce, ct, ad := c.bytes(1), c.bytes(2), c.bytes(3), c.bytes(4)
		return c.need(c.st, condEQ(nonce.length().sub(nonceSize(c))), "nonce", "incorrect nonce length", func(st *State) []Outcome {
			own := false
			outs := c.orError(st, nilSlice, func(st *State) []Value {
				st.push(ct.length().addc(-16), false)
				var body *Content
				if len(ct.segs) == 1 && ct.segs[0].K == 'b' && ct.segs[0].Src.op == "gcmseal" && ct.segs[0].Off.isInt(0) {
					t := ct.segs[0].Src
					pt := t.args[2].(*Content)
					if t == mkTerm("gcmseal", termOf(c.args[0]), nonce, pt, ad) && st.eqL(ct.segs[0].N, pt.length().addc(16)) {
						body = pt
						own = true
					}
				}
				if body == nil {
					body = blob(mkTerm("gcmopen", termOf(c.args[0]), nonce, ct, ad), ct.length().addc(-16))
				}
				return []Value{newBytes(st, "opened", content(append(append([]Seg{}, dst.segs...), body.segs...)...))}
			})
			if own {
				return outs[:1] // what was sealed with it opens
			}
			return outs
		})
	}
	models["ecdsa.Sign"] = func(c *mcall) []Outcome {
		bad := c.st.clone()
		e := freshErr(bad, c.name)
		c.note(bad, VNil{}, VNil{}, e)
		src := c.st.fresh("random:" + readerName(c.args[0]))
		var rs []Value
		for i := 0; i < 2; i++ {
			o := c.st.newObj("big", c.sig.Results().At(i).Type().(*types.Pointer).Elem())
			c.st.heap[o] = VInt{LT(setRange(mkTerm(fmt.Sprintf("signature.%d", i), src), big1, nil))}
			rs = append(rs, VPtr{Obj: o})
		}
		rs = append(rs, VNil{})
		c.note(c.st, rs...)
		return []Outcome{{st: c.st, rets: rs}, {st: bad, rets: []Value{VNil{}, VNil{}, e}}}
	}
	models["ecdsa.GenerateKey"] = func(c *mcall) []Outcome {
		return c.orError(c.st, VNil{}, func(st *State) []Value {
			T := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
			src := st.fresh("random:" + readerName(c.args[1]))
			o := mkTerm("ecdsakey", src, termOf(c.args[0]))
			objType[o] = T
			st.heap[o] = c.keyStruct(st, T, o, c.args[0])
			if curveName(c.args[0]) == "curve:P256" {
				// the secret is a scalar of the group, the point is one of the curve
				st.push(keyval(o, "D").addc(-1), false)
				st.push(LB(p256["N"]).sub(keyval(o, "D")).addc(-1), false)
				for _, f := range []string{"X", "Y"} {
					st.push(LB(p256["P"]).sub(keyval(o, f)).addc(-1), false)
				}
				if ss := st.assume(condOp(mkTerm("issquare", curveRHS(keyval(o, "X")), LB(p256["P"]))), true); len(ss) == 1 {
					*st = *ss[0]
				}
			}
			return []Value{VPtr{Obj: o}}
		})
	}
}

// keyval: a number of a generated key
func keyval(src *Term, f string) Lin { return LT(setRange(mkTerm("keyval", src, f), big0, nil)) }

// keyStruct: a generated key has its curve and all its numbers
func (c *mcall) keyStruct(st *State, T types.Type, src *Term, curve Value) Value {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return symVal(mkTerm("keyfield", src, typeKey(T)), T)
	}
	v := VStruct{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch ft := f.Type().(type) {
		case *types.Pointer:
			b := mkTerm("keynum", src, f.Name())
			objType[b] = ft.Elem()
			st.heap[b] = VInt{keyval(src, f.Name())}
			v.F = append(v.F, VPtr{Obj: b})
		default:
			if f.Name() == "Curve" {
				v.F = append(v.F, curve)
			} else {
				v.F = append(v.F, c.keyStruct(st, f.Type(), src, curve))
			}
		}
	}
	return v
}

func (c *mcall) needIface(i int, f func(*State) []Outcome) []Outcome {
	ok, bad := c.x.check(c.st, c.site, "nil", nilCond(c.st, c.args[i]).not(), func() string { return c.name + ": nil argument" })
	return each(ok, bad, f)
}
