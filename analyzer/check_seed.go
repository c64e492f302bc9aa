package main

// S12: nobody can guess the seed of a hash table.

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// spread is how many different values l takes, about equally often, when it
// is made of one whole draw of random bytes: all values of the bytes drawn,
// or their remainder
func spread(l Lin) (*big.Int, string) {
	l = l.sub(LB(l.k))
	_, n, why := drawn(l)
	if why == "" {
		return pow2(8 * n), ""
	}
	// X - N*div(X, N)
	for _, m := range l.ts {
		if m.t.op != "div" || m.c.Sign() >= 0 {
			continue
		}
		x, ok := m.t.args[0].(Lin)
		d := new(big.Int).Neg(m.c)
		if by, is := m.t.args[1].(Lin); !ok || !is || !by.isConst() || by.k.Cmp(d) != 0 {
			continue
		}
		if x = x.sub(LB(x.k)); !l.add(LT(m.t).mul(d)).eq(x) || !wholeMod(x, d) {
			continue
		}
		n := pow2(8 * len(x.ts))
		if n.Cmp(d) > 0 {
			n = d
		}
		return n, ""
	}
	return nil, why
}

// wholeMod: x is, but for multiples of d, a whole draw
func wholeMod(x Lin, d *big.Int) bool {
	var got, want []string
	var src *Term
	seen := map[*Term]bool{}
	for i, m := range x.ts {
		if m.t.op != "elem" || seen[m.t] {
			return false
		}
		seen[m.t] = true
		o, ok := m.t.args[0].(*Term)
		if !ok || !strings.HasPrefix(o.op, "random:crypto") || src != nil && src != o {
			return false
		}
		src = o
		got = append(got, new(big.Int).Mod(m.c, d).String())
		want = append(want, new(big.Int).Mod(pow2(8*i), d).String())
	}
	sort.Strings(got)
	sort.Strings(want)
	return strings.Join(got, " ") == strings.Join(want, " ")
}

func init() {
	register("S12", "abstract interpretation of making a hash table, and of building a perfect hash table that verifies by hash: the seed stored is a whole successful draw from the system's random source, or its remainder by at least 2^31, made in that very call", func(c *Check) {
		seed := func(rule, name string, st *State, p Value, f string) {
			q, ok := p.(VPtr)
			if !ok {
				c.fail(rule, name, "no table is made")
				return
			}
			l := intOf(st.field(q, f))
			n, why := spread(l)
			if why == "" && n.Cmp(pow2(31)) < 0 {
				why = "it is one of " + n.String() + " numbers"
			}
			c.oblige(rule, name, why == "", func() string { return "the seed is " + l.String() + ": " + why + "\n" + c.path(st) })
		}
		// tables that grow
		x := newExec(c.r)
		c.guard("table-seed", "collection.NewCustomHash", func() {
			for _, name := range []string{"collection.NewHash", "collection.NewCustomHash"} {
				for _, o := range x.callFn(newState(), c.need(name), c.argsOf(c.need(name)), nil, nil) {
					if o.panic == nil {
						seed("table-seed", name, o.st, o.rets[0], "seed")
					}
				}
			}
		})
		c.absorb(x)
		// perfect ones
		x = mphExec(c)
		delete(x.hooks, "util.RandUint64Range")
		keys := c.sym("keys", types.NewSlice(c.r.typ("util.IKey"))).(VSlice)
		neverNil[keys.Obj] = true
		st := newState()
		st.push(LC(1<<31).sub(keys.Len), false)
		c.guard("verify-seed", "util.MPHBuild", func() {
			const name = "util.MPHBuild"
			for _, o := range x.callFn(st, c.need(name), []Value{keys, VBool{condBool(false)}}, nil, nil) {
				if o.panic == nil {
					seed("verify-seed", name, o.st, o.rets[0], "verifySeed")
				}
			}
		})
		c.min["table-seed"] = 2
		c.min["verify-seed"] = 1
		c.absorb(x)
	})
}
