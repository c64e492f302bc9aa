package main

// Numbers as polynomials modulo a prime, so that formulas of the curve are
// compared by what they compute and not by how they are written.

import (
	"math/big"
	"sort"
	"strings"
)

type polynomial map[string]*monomial

type monomial struct {
	atoms []*Term // sorted by name, with repetition
	c     *big.Int
}

func (p polynomial) add(q polynomial, k *big.Int, mod *big.Int) {
	for n, m := range q {
		c := new(big.Int).Mul(m.c, k)
		if o := p[n]; o != nil {
			c.Add(c, o.c)
		}
		c.Mod(c, mod)
		if c.Sign() == 0 {
			delete(p, n)
			continue
		}
		p[n] = &monomial{m.atoms, c}
	}
}

func (p polynomial) times(q polynomial, mod *big.Int) polynomial {
	r := polynomial{}
	for _, a := range p {
		for _, b := range q {
			ts := append(append([]*Term{}, a.atoms...), b.atoms...)
			m := newMonomial(ts, new(big.Int).Mul(a.c, b.c))
			r.add(m, big1, mod)
		}
	}
	return r
}

func newMonomial(ts []*Term, c *big.Int) polynomial {
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.String())
		b.WriteByte('*')
	}
	return polynomial{b.String(): {ts, c}}
}

// polyOf: l modulo mod
func polyOf(l Lin, mod *big.Int) polynomial {
	p := polynomial{}
	p.add(newMonomial(nil, l.k), big1, mod)
	for _, m := range l.ts {
		if new(big.Int).Mod(m.c, mod).Sign() == 0 {
			continue
		}
		p.add(polyOfTerm(m.t, mod), m.c, mod)
	}
	return p
}

func polyOfTerm(t *Term, mod *big.Int) polynomial {
	switch t.op {
	case "big:big.Int.Mul", "bigprod":
		r := newMonomial(nil, big1)
		for _, a := range t.args {
			l, ok := a.(Lin)
			if !ok {
				return newMonomial([]*Term{t}, big1)
			}
			r = r.times(polyOf(l, mod), mod)
		}
		return r
	}
	return newMonomial([]*Term{t}, big1)
}

// canonMod: the number that stands for all those equal to l modulo mod by
// the laws of arithmetic
func canonMod(l Lin, mod *big.Int) Lin {
	p := polyOf(l, mod)
	r := LC(0)
	var names []string
	for n := range p {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := p[n]
		switch len(m.atoms) {
		case 0:
			r = r.add(LB(m.c))
		case 1:
			r = r.add(LT(m.atoms[0]).mul(m.c))
		default:
			var as []Arg
			for _, t := range m.atoms {
				as = append(as, LT(t))
			}
			r = r.add(LT(mkTerm("bigprod", as...)).mul(m.c))
		}
	}
	return r
}

// curveRHS: x³ - 3x + b, the square of y for the points of the curve
func curveRHS(X Lin) Lin {
	cube := LT(mkTerm("bigprod", X, X, X))
	return canonMod(cube.sub(X.mulc(3)).add(LB(p256["B"])), p256["P"])
}

// curveRoot: the root that big.Int.ModSqrt takes of it
func curveRoot(X Lin) Lin {
	return LT(setRange(mkTerm("modsqrt", curveRHS(X), LB(p256["P"])), big0, new(big.Int).Sub(p256["P"], big1)))
}
