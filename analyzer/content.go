package main

// Contents of arrays and strings: sequences of segments whose lengths are
// linear expressions.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Seg is a run of elements.
//
//	'e' one element V
//	'b' N elements of the source Src, from Off
//	'z' N zero values
//	'l' the bytes of Str
//	'u' the unsigned varint encoding of X
//	's' the signed varint encoding of X
//	'r' the bodies for Lo <= i < Hi, the canonical variable of the body standing for i
type Seg struct {
	K      byte
	V      Value
	Src    *Term
	Off, N Lin
	Str    string
	X      Lin
	Lo, Hi Lin
	Body   *Content
}

type Content struct {
	id    int
	segs  []Seg
	deps  map[int]bool
	depth int // nesting of repetitions
}

var contentTab = map[string]*Content{}
var contentN int

func segKey(s *Seg) string {
	switch s.K {
	case 'e':
		return "e" + s.V.vkey()
	case 'b':
		return "b" + termKey(s.Src) + s.Off.key() + s.N.key()
	case 'z':
		return "z" + s.N.key()
	case 'l':
		return fmt.Sprintf("l%q", s.Str)
	case 'u', 's':
		return string(s.K) + s.X.key()
	case 'r':
		return fmt.Sprintf("r%s%sc%d", s.Lo.key(), s.Hi.key(), s.Body.id)
	}
	panic("segKey")
}

func content(segs ...Seg) *Content {
	var out []Seg
	for _, s := range segs {
		switch s.K {
		case 'b', 'z':
			if s.N.isInt(0) {
				continue
			}
		case 'l':
			if s.Str == "" {
				continue
			}
		case 'r':
			if s.Lo.eq(s.Hi) || len(s.Body.segs) == 0 {
				continue
			}
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.K == 'b' && s.K == 'b' && p.Src == s.Src && p.Off.add(p.N).eq(s.Off) {
				p.N = p.N.add(s.N)
				continue
			}
			if p.K == 'z' && s.K == 'z' {
				p.N = p.N.add(s.N)
				continue
			}
			if p.K == 'l' && s.K == 'l' {
				p.Str += s.Str
				continue
			}
			if p.K == 'r' && s.K == 'r' && p.Body == s.Body && p.Hi.eq(s.Lo) {
				p.Hi = s.Hi
				continue
			}
		}
		out = append(out, s)
	}
	// fold a repetition followed by its next instance
	for i := 0; i+1 < len(out); i++ {
		if out[i].K == 'r' {
			for {
				inst := instBody(out[i].Body, out[i].Hi)
				if len(inst.segs) > 0 && segsPrefix(inst.segs, out[i+1:]) {
					out[i].Hi = out[i].Hi.addc(1)
					out = append(out[:i+1:i+1], out[i+1+len(inst.segs):]...)
					if i+1 >= len(out) {
						break
					}
					continue
				}
				break
			}
			if i+1 < len(out) && out[i+1].K == 'r' && out[i].Body == out[i+1].Body && out[i].Hi.eq(out[i+1].Lo) {
				out[i].Hi = out[i+1].Hi
				out = append(out[:i+1:i+1], out[i+2:]...)
				i--
			}
		}
	}
	var sb strings.Builder
	for i := range out {
		sb.WriteString(segKey(&out[i]))
		sb.WriteByte('|')
	}
	k := sb.String()
	if c := contentTab[k]; c != nil {
		return c
	}
	contentN++
	c := &Content{id: contentN, segs: out, deps: map[int]bool{}}
	for i := range out {
		s := &out[i]
		switch s.K {
		case 'e':
			walkValue(s.V, func(a Arg) { addDeps(c.deps, a) })
			walkValue(s.V, func(a Arg) { c.depth = maxInt(c.depth, argDepth(a)) })
		case 'b':
			addDeps(c.deps, s.Src)
			addDeps(c.deps, s.Off)
			addDeps(c.deps, s.N)
			c.depth = maxInt(c.depth, argDepth(s.Src), argDepth(s.Off), argDepth(s.N))
		case 'z':
			addDeps(c.deps, s.N)
			c.depth = maxInt(c.depth, argDepth(s.N))
		case 'u', 's':
			addDeps(c.deps, s.X)
			c.depth = maxInt(c.depth, argDepth(s.X))
		case 'r':
			addDeps(c.deps, s.Lo)
			addDeps(c.deps, s.Hi)
			addDeps(c.deps, s.Body)
			c.depth = maxInt(c.depth, s.Body.depth+1, argDepth(s.Lo), argDepth(s.Hi))
		}
	}
	contentTab[k] = c
	return c
}

func segsPrefix(p, s []Seg) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if segKey(&p[i]) != segKey(&s[i]) {
			return false
		}
	}
	return true
}

func maxInt(a int, bs ...int) int {
	for _, b := range bs {
		if b > a {
			a = b
		}
	}
	return a
}

var depthMemo = map[*Term]int{}

// argDepth: highest canonical variable index inside plus one
func argDepth(a Arg) int {
	switch x := a.(type) {
	case Lin:
		d := 0
		for _, m := range x.ts {
			d = maxInt(d, argDepth(m.t))
		}
		return d
	case *Term:
		if x == nil {
			return 0
		}
		if d, ok := depthMemo[x]; ok {
			return d
		}
		d := 0
		if strings.HasPrefix(x.op, "%k") {
			fmt.Sscanf(x.op, "%%k%d", &d)
			d++
		}
		for _, a := range x.args {
			d = maxInt(d, argDepth(a))
		}
		depthMemo[x] = d
		return d
	case *Content:
		return x.depth
	case string:
		return 0
	case Value:
		d := 0
		walkValue(x, func(a Arg) { d = maxInt(d, argDepth(a)) })
		return d
	}
	return 0
}

func canonVar(depth int) *Term { return mkTerm(fmt.Sprintf("%%k%d", depth)) }

// bodyOf abstracts the variable v out of c
func bodyOf(c *Content, v *Term) *Content {
	d := c.depth
	cv := canonVar(d)
	r := substLin1(v, LT(cv)).C(c)
	bodyVar[r] = cv
	return r
}

var bodyVar = map[*Content]*Term{}

func instBody(b *Content, i Lin) *Content {
	v := bodyVar[b]
	if v == nil {
		return b
	}
	return substLin1(v, i).C(b)
}

func (c *Content) String() string {
	var s []string
	for i := range c.segs {
		g := &c.segs[i]
		switch g.K {
		case 'e':
			s = append(s, valString(g.V))
		case 'b':
			s = append(s, fmt.Sprintf("%s[%s:+%s]", g.Src, g.Off, g.N))
		case 'z':
			s = append(s, fmt.Sprintf("0*(%s)", g.N))
		case 'l':
			s = append(s, fmt.Sprintf("%q", g.Str))
		case 'u', 's':
			s = append(s, fmt.Sprintf("%cvarint(%s)", g.K, g.X))
		case 'r':
			s = append(s, fmt.Sprintf("rep(%s..%s: %s)", g.Lo, g.Hi, g.Body))
		}
	}
	return "<" + strings.Join(s, " ++ ") + ">"
}

func uvlenLin(x Lin) Lin {
	if x.isConst() {
		n := 1
		k := x.k
		for k.Sign() > 0 && k.BitLen() > 7 {
			k = new(big.Int).Rsh(k, 7)
			n++
		}
		return LC(int64(n))
	}
	t := mkTerm("uvlen", x)
	if t.def == nil {
		setRange(t, big1, big.NewInt(10))
		// uvlen(x) <= 1 + x/128, and x bounds it
		t.def = []con{{x.sub(LT(t).mulc(128)).addc(128).addc(0), false}}
		if x.k == nil {
			t.def = nil
		}
	}
	return LT(t)
}

func svlenLin(x Lin) Lin {
	t := mkTerm("svlen", x)
	setRange(t, big1, big.NewInt(10))
	return LT(t)
}

func (s *Seg) length() Lin {
	switch s.K {
	case 'e':
		return LC(1)
	case 'b', 'z':
		return s.N
	case 'l':
		return LC(int64(len(s.Str)))
	case 'u':
		return uvlenLin(s.X)
	case 's':
		return svlenLin(s.X)
	case 'r':
		return psumLin(s.Body, s.Hi).sub(psumLin(s.Body, s.Lo))
	}
	panic("seg length")
}

func (c *Content) length() Lin {
	l := LC(0)
	for i := range c.segs {
		l = l.add(c.segs[i].length())
	}
	return l
}

// psumLin is the total length of the bodies for 0 <= i < n
func psumLin(body *Content, n Lin) Lin {
	v := bodyVar[body]
	bl := body.length()
	if v == nil || !bl.dep(v) {
		// constant length per body
		if c, ok := bl.int(); ok {
			return n.mulc(c)
		}
		if n.isConst() {
			return bl.mul(n.k)
		}
	}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() >= 0 && n.k.Int64() <= 16 {
		r := LC(0)
		for i := int64(0); i < n.k.Int64(); i++ {
			r = r.add(instBody(body, LC(i)).length())
		}
		return r
	}
	r := LC(0)
	base := Lin{ts: n.ts, k: big0}
	if n.k.IsInt64() && n.k.Int64() >= -16 && n.k.Int64() <= 16 && len(n.ts) > 0 {
		k := n.k.Int64()
		for i := int64(0); i < k; i++ {
			r = r.add(instBody(body, base.addc(i)).length())
		}
		for i := int64(-1); i >= k; i-- {
			r = r.sub(instBody(body, base.addc(i)).length())
		}
		t := mkTerm("psum", base, body)
		setRange(t, big0, pow2(60))
		return r.add(LT(t))
	}
	t := mkTerm("psum", n, body)
	setRange(t, big0, pow2(60))
	return LT(t)
}

func (s *Subst) C(c *Content) *Content {
	if c == nil || !s.touches(c.deps) {
		return c
	}
	if r, ok := s.cm[c]; ok {
		return r
	}
	segs := make([]Seg, 0, len(c.segs))
	for _, g := range c.segs {
		n := g
		switch g.K {
		case 'e':
			n.V = s.V(g.V)
		case 'b':
			n.Src, n.Off, n.N = s.T(g.Src), s.L(g.Off), s.L(g.N)
			if n.Src != g.Src && n.Src.op == "snap" {
				// a snapshot that became clearer may be spliced in
				if sc, ok := n.Src.args[0].(*Content); ok {
					if n.Off.isInt(0) && sc.length().eq(n.N) {
						segs = append(segs, sc.segs...)
						continue
					}
				}
			}
		case 'z':
			n.N = s.L(g.N)
		case 'u', 's':
			n.X = s.L(g.X)
		case 'r':
			n.Lo, n.Hi = s.L(g.Lo), s.L(g.Hi)
			nb := s.C(g.Body)
			if nb != g.Body {
				v := bodyVar[g.Body]
				if v != nil {
					// re-canonicalise
					f := freshTerm("rk")
					nb2 := substLin1(v, LT(f)).C(nb)
					nb = bodyOf(nb2, f)
				}
				n.Body = nb
			}
		}
		segs = append(segs, n)
	}
	r := content(segs...)
	if bodyVar[r] == nil {
		if v := bodyVar[c]; v != nil {
			if _, ok := s.lin[v]; !ok {
				bodyVar[r] = v
			}
		}
	}
	s.cm[c] = r
	return r
}

func elemArg(c *Content) Arg { return c }

// snapElem: element idx of a snapshot, when the position is decided structurally
func snapElem(snap *Term, idx Lin) Value {
	c, ok := snap.args[0].(*Content)
	if !ok {
		return nil
	}
	off := LC(0)
	for i := range c.segs {
		g := &c.segs[i]
		d := idx.sub(off)
		n := g.length()
		if dc, ok := d.int(); ok && dc >= 0 {
			switch g.K {
			case 'e':
				if dc == 0 {
					return g.V
				}
			case 'l':
				if dc < int64(len(g.Str)) {
					return VInt{LC(int64(g.Str[dc]))}
				}
			}
			if nc, ok := n.int(); ok && dc >= nc {
				off = off.add(n)
				continue
			}
			return nil
		}
		off = off.add(n)
	}
	return nil
}

// ---------------------------------------------------------------- state dependent operations

// locate finds the segment holding position p; rel is the position in it
func (st *State) locate(c *Content, p Lin) (int, Lin, bool) {
	off := LC(0)
	for i := range c.segs {
		g := &c.segs[i]
		d := p.sub(off)
		n := g.length()
		if dc, ok := d.int(); ok && dc < 0 {
			return 0, Lin{}, false
		}
		last := i == len(c.segs)-1
		if st.cons.entails(d) && (last || st.cons.entails(n.sub(d).addc(-1))) {
			return i, d, true
		}
		off = off.add(n)
	}
	return 0, Lin{}, false
}

// repIndex: p lies in the repetition g, at distance d from its start; the
// index of the body, and the distance in it
func (st *State) repIndex(g *Seg, d Lin) (Lin, Lin, bool) {
	v := bodyVar[g.Body]
	bl := g.Body.length()
	if c, ok := bl.int(); ok && c > 0 {
		// constant length bodies
		if c == 1 {
			return g.Lo.add(d), LC(0), true
		}
		// d = c*q + r
		q, r := LC(0), LC(0)
		cc := big.NewInt(c)
		q.k = new(big.Int).Div(d.k, cc)
		r.k = new(big.Int).Mod(d.k, cc)
		for _, m := range d.ts {
			qq, rr := new(big.Int).DivMod(m.c, cc, new(big.Int))
			q = q.add(LT(m.t).mul(qq))
			r = r.add(LT(m.t).mul(rr))
		}
		if st.cons.entails(r) && st.cons.entails(LC(c-1).sub(r)) {
			return g.Lo.add(q), r, true
		}
		return Lin{}, Lin{}, false
	}
	_ = v
	// d + psum(Lo) = psum(X) + rel
	dd := d.add(psumLin(g.Body, g.Lo))
	tryX := func(x Lin) (Lin, Lin, bool) {
		rel := dd.sub(psumLin(g.Body, x))
		il := instBody(g.Body, x).length()
		if st.ge(rel) && st.ge(il.sub(rel).addc(-1)) {
			return x, rel, true
		}
		return Lin{}, Lin{}, false
	}
	for _, m := range dd.ts {
		if m.t.op == "psum" && m.c.Cmp(big1) == 0 && m.t.args[1].(*Content) == g.Body {
			x := m.t.args[0].(Lin)
			st.lemmaPsum(g, x)
			for _, dx := range []int64{0, 1, -1} {
				if x, rel, ok := tryX(x.addc(dx)); ok {
					return x, rel, true
				}
			}
		}
	}
	st.lemmaPsum(g, g.Lo)
	if x, rel, ok := tryX(g.Lo); ok {
		return x, rel, true
	}
	return Lin{}, Lin{}, false
}

// lemmaPsum adds what is known of the partial sums of g at x
func (st *State) lemmaPsum(g *Seg, x Lin) {
	px, ph, pl := psumLin(g.Body, x), psumLin(g.Body, g.Hi), psumLin(g.Body, g.Lo)
	if st.cons.entails(x.sub(g.Lo)) {
		st.push(px.sub(pl), false)
		if st.cons.entails(g.Hi.sub(x).addc(-1)) {
			st.push(ph.sub(px).sub(instBody(g.Body, x).length()), false)
		} else if st.cons.entails(g.Hi.sub(x)) {
			st.push(ph.sub(px), false)
		}
	}
}

// splitAt splits c at position p; ok is false when it cannot be located
func (st *State) splitAt(c *Content, p Lin) (a, b *Content, ok bool) {
	off := LC(0)
	for i := range c.segs {
		g := c.segs[i]
		d := p.sub(off)
		if d.isInt(0) || !d.isConst() && st.cons.entailsEq(d) {
			return content(c.segs[:i]...), content(c.segs[i:]...), true
		}
		n := g.length()
		strict := int64(1)
		if g.K == 'b' || g.K == 'z' || g.K == 'r' {
			strict = 0
		}
		if st.ge(d) && st.ge(n.sub(d).addc(-strict)) {
			var x, y []Seg
			switch g.K {
			case 'b':
				x = []Seg{{K: 'b', Src: g.Src, Off: g.Off, N: d}}
				y = []Seg{{K: 'b', Src: g.Src, Off: g.Off.add(d), N: g.N.sub(d)}}
			case 'z':
				x = []Seg{{K: 'z', N: d}}
				y = []Seg{{K: 'z', N: g.N.sub(d)}}
			case 'l':
				dc, ok := d.int()
				if !ok {
					return nil, nil, false
				}
				x = []Seg{{K: 'l', Str: g.Str[:dc]}}
				y = []Seg{{K: 'l', Str: g.Str[dc:]}}
			case 'r':
				idx, rel, ok := st.repIndex(&g, d)
				if !ok {
					return nil, nil, false
				}
				x = []Seg{{K: 'r', Lo: g.Lo, Hi: idx, Body: g.Body}}
				if rel.isInt(0) || st.cons.entailsEq(rel) {
					// idx may be the end
					y = []Seg{{K: 'r', Lo: idx, Hi: g.Hi, Body: g.Body}}
				} else {
					if !st.ge(n.sub(d).addc(-1)) {
						return nil, nil, false
					}
					in := instBody(g.Body, idx)
					ia, ib, ok := st.splitAt(in, rel)
					if !ok {
						return nil, nil, false
					}
					x = append(x, ia.segs...)
					y = append(append([]Seg{}, ib.segs...), Seg{K: 'r', Lo: idx.addc(1), Hi: g.Hi, Body: g.Body})
				}
			default:
				return nil, nil, false
			}
			x = append(append([]Seg{}, c.segs[:i]...), x...)
			y = append(y, c.segs[i+1:]...)
			return content(x...), content(y...), true
		}
		off = off.add(n)
	}
	d := p.sub(off)
	if d.isInt(0) || st.cons.entailsEq(d) {
		return c, content(), true
	}
	return nil, nil, false
}

func snapTerm(c *Content) *Term { return mkTerm("snap", c) }

// sub is the part of c from off, n long
func (st *State) sub(c *Content, off, n Lin) *Content {
	if n.isInt(0) {
		return content()
	}
	if off.isInt(0) {
		if c.length().eq(n) {
			return c
		}
	}
	// a single source needs no case distinction
	if len(c.segs) == 1 {
		g := c.segs[0]
		switch g.K {
		case 'b':
			return content(Seg{K: 'b', Src: g.Src, Off: g.Off.add(off), N: n})
		case 'z':
			return content(Seg{K: 'z', N: n})
		}
	}
	if _, b, ok := st.splitAt(c, off); ok {
		if a, _, ok := st.splitAt(b, n); ok {
			return a
		}
		if len(b.segs) > 0 && b.segs[0].K == 'b' && st.cons.entails(b.segs[0].N.sub(n)) {
			g := b.segs[0]
			return content(Seg{K: 'b', Src: g.Src, Off: g.Off, N: n})
		}
	}
	return content(Seg{K: 'b', Src: snapTerm(c), Off: off, N: n})
}

// at is the element of c at p
func (st *State) at(c *Content, p Lin, elem types.Type) Value {
	i, d, ok := st.locate(c, p)
	if !ok {
		if v, ok := st.tableAt(c, p); ok {
			return v
		}
		return elemVal(snapTerm(c), p, elem)
	}
	g := &c.segs[i]
	switch g.K {
	case 'e':
		return g.V
	case 'b':
		if g.Src.op == "snap" {
			if sc, ok := g.Src.args[0].(*Content); ok {
				if j, _, ok := st.locate(sc, g.Off.add(d)); ok && sc.segs[j].K != 'u' {
					return st.at(sc, g.Off.add(d), elem)
				}
			}
		}
		return elemVal(g.Src, g.Off.add(d), elem)
	case 'z':
		return zeroVal(elem)
	case 'l':
		if k, ok := d.int(); ok {
			return VInt{LC(int64(g.Str[k]))}
		}
	case 'u':
		if d.isInt(0) && st.cons.entails(LC(127).sub(g.X)) {
			return VInt{g.X}
		}
		return elemVal(mkTerm("uvbytes", g.X), d, elem)
	case 's':
		return elemVal(mkTerm("svbytes", g.X), d, elem)
	case 'r':
		if idx, rel, ok := st.repIndex(g, d); ok {
			return st.at(instBody(g.Body, idx), rel, elem)
		}
	}
	return elemVal(snapTerm(c), p, elem)
}

// put replaces the element of c at p
func (st *State) put(c *Content, p Lin, v Value) *Content {
	return st.putRun(c, p, content(Seg{K: 'e', V: v}))
}

// putRun overwrites a part of c, starting at p
func (st *State) putRun(c *Content, p Lin, r *Content) *Content {
	n := r.length()
	if n.isInt(0) {
		return c
	}
	// 'u' segments and the like fall back to an unknown content of the same length
	if a, rest, ok := st.splitAt(c, p); ok {
		if _, b, ok := st.splitAt(rest, n); ok {
			return content(append(append(append([]Seg{}, a.segs...), r.segs...), b.segs...)...)
		}
		return content(append(append(append([]Seg{}, a.segs...), r.segs...),
			Seg{K: 'b', Src: st.fresh("rest"), Off: LC(0), N: rest.length().sub(n)})...)
	}
	return content(Seg{K: 'b', Src: st.fresh("written"), Off: LC(0), N: c.length()})
}
