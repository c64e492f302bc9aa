package main

// W08: conversions of fixed width.

import (
	"fmt"
	"go/types"
	"math/big"
)

// bigEndian is the number that the bytes of s stand for, as the property
// defines it
func (c *Check) bigEndian(st *State, s VSlice, n int) (Lin, bool) {
	l := LC(0)
	for i := 0; i < n; i++ {
		v, ok := st.at(st.arr(s), s.Off.addc(int64(i)), types.Typ[types.Uint8]).(VInt)
		if !ok {
			return Lin{}, false
		}
		l = l.mulc(256).add(v.L)
	}
	return l, true
}

func init() {
	register("W08", "abstract interpretation of each conversion to bytes on an arbitrary value, with the bytes compared against the big endian digits of the value, and of the conversion back on those bytes", func(c *Check) {
		x := newExec(c.r)
		for _, k := range []struct {
			to, from string
			T        types.Type
			n        int
		}{
			{"Int64ToByteArray", "ByteArrayToInt64", types.Typ[types.Int64], 8},
			{"Int32ToByteArray", "ByteArrayToInt32", types.Typ[types.Int32], 4},
			{"Uint32ToByteArray", "ByteArrayToUint32", types.Typ[types.Uint32], 4},
		} {
			v := c.sym(k.to+".v", k.T)
			l := intOf(v)
			for _, neg := range []bool{false, true} {
				cd, want := condGE(l), l
				if neg {
					cd, want = condGE(l.neg().addc(-1)), l.add(LB(pow2(8*k.n)))
				}
				for _, g := range given(newState(), cd) {
					for _, o := range c.call(x, g, "collection."+k.to, v) {
						b, ok := o.rets[0].(VSlice)
						if !c.oblige("width", k.to, ok && o.st.eqL(sliceLen(b), LC(int64(k.n))), func() string { return valString(o.rets[0]) + "\n" + c.path(o.st) }) {
							continue
						}
						d, ok := c.bigEndian(o.st, b, k.n)
						c.oblige("big-endian", k.to, ok && o.st.eqL(d, want), func() string {
							return fmt.Sprintf("%s for %s\n", o.st.bytesOf(b), l) + c.path(o.st)
						})
						for _, r := range c.call(x, o.st, "collection."+k.from, b) {
							c.oblige("inverse", k.from, r.st.eqL(intOf(r.rets[0]), l), func() string {
								return valString(r.rets[0]) + " for " + l.String() + "\n" + c.path(r.st)
							})
						}
					}
				}
			}
		}
		// times
		nano := c.sym("nano", types.Typ[types.Int64])
		for _, o := range c.call(x, newState(), "collection.Int64ToTime", nano) {
			for _, b := range c.call(x, o.st, "collection.TimeToBytes", o.rets[0]) {
				s, ok := b.rets[0].(VSlice)
				if !c.oblige("width", "TimeToBytes", ok && b.st.eqL(sliceLen(s), LC(8)), func() string { return valString(b.rets[0]) }) {
					continue
				}
				c.timeDigits(b.st, s, intOf(nano))
				f, ok := c.followed(b.st, s)
				if !ok {
					continue
				}
				for _, r := range c.call(x, b.st, "collection.BytesToTime", f) {
					c.sameNano(x, r, intOf(nano))
				}
			}
		}
		// numbers below 2^256
		st := newState()
		d := c.symObj(st, "d", "big.Int")
		v := LT(mkTerm("in:number"))
		st.heap[d.Obj] = VInt{v}
		for _, g := range given(st, condGE(v), condGE(LB(pow2(256)).sub(v).addc(-1))) {
			for _, o := range c.call(x, g, "collection.BigIntToByteArray", d) {
				s, ok := o.rets[0].(VSlice)
				if !c.oblige("width", "BigIntToByteArray", ok && o.st.eqL(sliceLen(s), LC(32)), func() string { return valString(o.rets[0]) + "\n" + c.path(o.st) }) {
					continue
				}
				c.oblige("big-endian", "BigIntToByteArray", o.st.eqL(bigFrom(o.st, o.st.bytesOf(s)), v), func() string { return o.st.bytesOf(s).String() + "\n" + c.path(o.st) })
				c.oblige("argument-unchanged", "BigIntToByteArray", o.st.eqVal(o.st.heap[d.Obj], VInt{v}), nil)
				for _, r := range c.call(x, o.st, "collection.ByteArrayToBigInt", s) {
					good := false
					if _, ok := r.rets[0].(VPtr); ok {
						good = r.st.eqL(x.bigInt(r.st, r.rets[0], nil), v)
					}
					c.oblige("inverse", "ByteArrayToBigInt", good, func() string { return valString(r.rets[0]) + "\n" + c.path(r.st) })
				}
			}
		}
		c.min["inverse"] = 5
		c.min["big-endian"] = 5
		c.min["width"] = 5
		c.absorb(x)
	})
}

// timeDigits: the bytes are the nanoseconds in big endian order
func (c *Check) timeDigits(st *State, s VSlice, nano Lin) {
	for _, neg := range []bool{false, true} {
		cd, want := condGE(nano), nano
		if neg {
			cd, want = condGE(nano.neg().addc(-1)), nano.add(LB(pow2(64)))
		}
		for _, g := range given(st.clone(), cd) {
			d, ok := c.bigEndian(g, s, 8)
			c.oblige("big-endian", "TimeToBytes", ok && g.eqL(d, want), func() string { return g.bytesOf(s).String() + "\n" + c.path(g) })
		}
	}
}

// sameNano: (time, error) is a time of so many nanoseconds
func (c *Check) sameNano(x *Exec, r Outcome, nano Lin) {
	good := false
	if p, ok := r.rets[0].(VPtr); ok && r.st.isNil(r.rets[1]) == 1 && r.st.isNil(p) == -1 {
		n, ok := x.unixNano(r.st, p)
		good = ok && r.st.eqL(n, nano)
	}
	c.oblige("inverse", "BytesToTime", good, func() string { return valStrings(r.rets) + "\n" + c.path(r.st) })
}

// unixNano is the time p points to, in nanoseconds
func (x *Exec) unixNano(st *State, p VPtr) (Lin, bool) {
	T := x.r.typ("time.Time")
	if T == nil {
		return Lin{}, false
	}
	ms := types.NewMethodSet(T)
	sel := ms.Lookup(nil, "UnixNano")
	if sel == nil {
		return Lin{}, false
	}
	sig := sel.Obj().(*types.Func).Type().(*types.Signature)
	os := x.external(st, "time.Time.UnixNano", sig, []Value{st.load(p)}, nil)
	if len(os) != 1 || len(os[0].rets) != 1 {
		return Lin{}, false
	}
	iv, ok := os[0].rets[0].(VInt)
	return iv.L, ok
}

var _ = big.NewInt
