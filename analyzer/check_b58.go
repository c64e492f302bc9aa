package main

// W09: base58. The alphabet is read off the encoder, digit by digit, and the
// two directions are composed for short inputs whose bytes (or digits) are
// unknown.

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	register("W09", "the digit tables of both directions are evaluated as constants; the composition of the two functions is evaluated for unknown bytes and unknown digits, with the arithmetic kept linear; effects of the loops summarised for inputs of any length", checkB58)
}

// b58Bytes is an array of nz zeros and n unknown bytes, of which the first is
// not zero
func b58Bytes(c *Check, st *State, nz, n int64) VSlice {
	segs := []Seg{{K: 'z', N: LC(nz)}}
	for i := int64(0); i < n; i++ {
		t := setRange(mkTerm("in:byte", LC(i)), big0, big.NewInt(255))
		if i == 0 {
			st.push(LT(t).addc(-1), false)
		}
		segs = append(segs, Seg{K: 'e', V: VInt{LT(t)}})
	}
	return b58Slice(c, st, content(segs...))
}

func b58Slice(c *Check, st *State, cc *Content) VSlice {
	b := c.symBytes("b")
	st.heap[b.Obj] = VArr{cc}
	b.Len, b.Cap = cc.length(), cc.length()
	return b
}

// b58Execs are the analyses made; what they covered is reported
var b58Execs []*Exec

func b58Explorer(c *Check) *Exec {
	x := newExec(c.r)
	x.explore = 40
	b58Execs = append(b58Execs, x)
	return x
}

const (
	b58MaxZeros = 3
	b58MaxBytes = 4
	b58MaxChars = 6
)

func checkB58(c *Check) {
	const enc, dec = "util.Base58Encode", "util.Base58Decode"
	c.need(enc)
	c.need(dec)
	str := types.Typ[types.String]
	// any input at all
	x := newExec(c.r)
	defer func() {
		for _, e := range append(b58Execs, x) {
			c.absorb(e)
		}
	}()
	c.guard("never crashes", enc, func() {
		c.call(x, newState(), enc, c.symBytes("b"))
		c.ok("never crashes", enc)
	})
	c.guard("never crashes", dec, func() {
		c.call(x, newState(), dec, c.sym("s", str))
		c.ok("never crashes", dec)
	})
	c.min["never crashes"] = 2

	// the alphabet
	var alpha []int64
	digit := map[int64]int{}
	c.guard("alphabet", enc, func() {
		for d := int64(0); d < 58; d++ {
			st := newState()
			in := b58Slice(c, st, content(Seg{K: 'e', V: VInt{LC(d)}}))
			outs := c.call(b58Explorer(c), st, enc, in)
			ch := int64(-1)
			if len(outs) == 1 {
				if s, ok := outs[0].rets[0].(VStr); ok {
					if v, ok := constVals(outs[0].st.norm(s.C)); ok && len(v) == 1 {
						ch = v[0]
					}
				}
			}
			if ch < 0 {
				c.fail("alphabet", enc, "the text of the single byte %d is not one known character", d)
				return
			}
			if o, dup := digit[ch]; dup {
				c.fail("alphabet", enc, "the bytes %d and %d have the same text %q", o, d, string(rune(ch)))
				return
			}
			digit[ch] = int(d)
			alpha = append(alpha, ch)
		}
		c.ok("alphabet", enc)
	})
	c.min["alphabet"] = 1
	if len(alpha) != 58 {
		return
	}
	// each character alone
	c.guard("character", dec, func() {
		for d, ch := range alpha {
			st := newState()
			outs := c.call(b58Explorer(c), st, dec, VStr{content(Seg{K: 'e', V: VInt{LC(ch)}})})
			for _, o := range outs {
				o := o
				want := content(Seg{K: 'e', V: VInt{LC(int64(d))}})
				v, ok := o.rets[0].(VSlice)
				c.oblige("character", fmt.Sprintf("%q", string(rune(ch))), ok && o.st.isNil(v) == -1 && o.st.eqContent(o.st.bytesOf(v), want), func() string {
					return fmt.Sprintf("the text %q of the byte %d is decoded as %s", string(rune(ch)), d, valString(o.rets[0]))
				})
			}
		}
	})
	c.min["character"] = 58
	// what is decoded is what was encoded
	for nz := int64(0); nz <= b58MaxZeros; nz++ {
		for n := int64(0); n <= b58MaxBytes; n++ {
			nz, n := nz, n
			what := fmt.Sprintf("%d zero bytes and %d others", nz, n)
			c.guard("bytes there and back", what, func() {
				st := newState()
				b := b58Bytes(c, st, nz, n)
				want := st.bytesOf(b)
				x := b58Explorer(c)
				for _, o := range c.call(x, st, enc, b) {
					for _, p := range c.call(x, o.st, dec, o.rets[0]) {
						p := p
						v, ok := p.rets[0].(VSlice)
						c.oblige("bytes there and back", what, ok && p.st.isNil(v) == -1 && p.st.eqContent(p.st.bytesOf(v), want), func() string {
							return fmt.Sprintf("after %s, decoding gives %s\n%s", valString(o.rets[0]), b58Result(p.st, p.rets[0]), p.st.dump())
						})
					}
				}
			})
		}
	}
	c.min["bytes there and back"] = (b58MaxZeros + 1) * (b58MaxBytes + 1)
	var at []Seg
	for _, ch := range alpha {
		at = append(at, Seg{K: 'e', V: VInt{LC(ch)}})
	}
	table := content(at...)
	for nz := int64(0); nz <= b58MaxZeros; nz++ {
		for n := int64(0); n <= b58MaxChars; n++ {
			nz, n := nz, n
			what := fmt.Sprintf("%d zero characters and %d others", nz, n)
			c.guard("text there and back", what, func() {
				st := newState()
				var segs []Seg
				for i := int64(0); i < nz; i++ {
					segs = append(segs, Seg{K: 'e', V: VInt{LC(alpha[0])}})
				}
				for i := int64(0); i < n; i++ {
					t := setRange(mkTerm("in:digit", LC(i)), big0, big.NewInt(57))
					if i == 0 {
						st.push(LT(t).addc(-1), false)
					}
					segs = append(segs, Seg{K: 'e', V: st.tableTerm(table, LT(t))})
				}
				want := content(segs...)
				x := b58Explorer(c)
				for _, o := range c.call(x, st, dec, VStr{want}) {
					o := o
					v, ok := o.rets[0].(VSlice)
					if !c.oblige("text there and back", what, ok && o.st.isNil(v) == -1, func() string {
						return fmt.Sprintf("%s is not decoded\n%s", want, o.st.dump())
					}) {
						continue
					}
					for _, p := range c.call(x, o.st, enc, v) {
						p := p
						s, ok := p.rets[0].(VStr)
						c.oblige("text there and back", what, ok && p.st.eqContent(s.C, want), func() string {
							return fmt.Sprintf("%s is decoded as %s, which has the text %s\n%s", want, b58Result(p.st, v), valString(p.rets[0]), p.st.dump())
						})
					}
				}
			})
		}
	}
	c.min["text there and back"] = (b58MaxZeros + 1) * (b58MaxChars + 1)
	// any other character, at any place among any others
	for lo := int64(0); lo < 256; lo++ {
		if _, ok := digit[lo]; ok {
			continue
		}
		hi := lo
		for hi+1 < 256 {
			if _, ok := digit[hi+1]; ok {
				break
			}
			hi++
		}
		for n := int64(1); n <= 4; n++ {
			for p := int64(0); p < n; p++ {
				what := fmt.Sprintf("a character from %d to %d, number %d of %d", lo, hi, p+1, n)
				lo := lo
				c.guard("other characters", what, func() {
					st := newState()
					var segs []Seg
					for i := int64(0); i < n; i++ {
						t := setRange(mkTerm("in:char", LC(i)), big0, big.NewInt(255))
						if i == p {
							st.push(LT(t).addc(-lo), false)
							st.push(LC(hi).sub(LT(t)), false)
						}
						segs = append(segs, Seg{K: 'e', V: VInt{LT(t)}})
					}
					for _, o := range c.call(b58Explorer(c), st, dec, VStr{content(segs...)}) {
						o := o
						c.oblige("other characters", what, o.st.isNil(o.rets[0]) == 1, func() string {
							return fmt.Sprintf("decoding gives %s\n%s", b58Result(o.st, o.rets[0]), o.st.dump())
						})
					}
				})
			}
		}
		lo = hi
	}
	c.min["other characters"] = 10
}

func b58Result(st *State, v Value) string {
	if s, ok := v.(VSlice); ok && st.isNil(s) == -1 {
		return fmt.Sprint(st.norm(st.bytesOf(s)))
	}
	return valString(v)
}
