package main

// E03: a copy holds the content of its original and shares nothing with it
// that can be changed.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// what is observable of an object, by the interface it implements
var observableOf = map[string][]string{
	"IKey":         {"Key"},
	"IValue":       {"IsValueArray", "IsRecordList", "Size", "Value", "ValueAt", "RecordAt"},
	"IRecord":      {"Key", "Value", "Scheme", "Timestamp", "Signature"},
	"IScheme":      {"Domain", "Tablet", "Buckets"},
	"IConsensusID": {"ConsensusMagic", "Buf"},
}

type copyCheck struct {
	*Check
	x      *Exec
	pre    *State
	orig   VPtr
	T      types.Type // of the original, a pointer
	iface  string
	m      string
	name   string
	mapped bool
	made   map[*Term]VSlice // objects decoded during the copy, and from what
}

func init() {
	register("E03", "abstract interpretation of every Copy and CopyConstruct over arbitrary objects: the accessors of the result give what those of the original give, the memory reachable from the result is disjoint from everything that existed before, the encoding state is not taken over, and the result of CopyConstruct is no mapped object; copies of components are the induction hypothesis", checkCopies)
}

func checkCopies(c *Check) {
	n := 0
	use := func(x *Exec, st *State, p VPtr, T types.Type, mapped bool) {
		iface := ""
		for _, i := range []string{"IKey", "IRecord", "IScheme", "IConsensusID", "IValue"} {
			if I := c.r.typ("util." + i); I != nil && implements(T, I) {
				iface = i
				break
			}
		}
		if iface == "" {
			return
		}
		for _, m := range []string{"Copy", "CopyConstruct"} {
			name := strings.TrimPrefix(typeKey(T), "*") + "." + m
			if c.r.fn(name) == nil {
				if m == "CopyConstruct" && iface == "IConsensusID" {
					continue
				}
				c.need(name)
				continue
			}
			n++
			cc := &copyCheck{Check: c, x: x, orig: p, T: T, iface: iface, m: m, name: name, mapped: mapped}
			cc.run(st.clone())
		}
	}
	c.eachDecoded(nil, func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice) {
		if p, ok := obj.(VPtr); ok {
			use(x, st, p, T, true)
		}
	})
	for _, t := range []string{"EmptyKey", "Key", "Primitive", "ValueArray", "RecordList", "Scheme", "Record"} {
		T := c.r.typ("util." + t)
		if T == nil {
			c.fail("anchor", "util."+t, "type not found")
			continue
		}
		x := newExec(c.r)
		st := newState()
		p := symNonNil(st, mkTerm("in:orig"), types.NewPointer(T)).(VPtr)
		// elements are objects
		if s, ok := st.get(p.Obj).(VStruct); ok {
			for _, f := range s.F {
				if a, ok := f.(VSlice); ok && a.Obj != nil {
					if e, ok := objType[a.Obj].Underlying().(*types.Array); ok && types.IsInterface(e.Elem()) {
						neverNil[a.Obj] = true
					}
				}
			}
		}
		use(x, st, p, types.NewPointer(T), false)
		c.absorb(x)
	}
	c.min["same-content"] = 40
	c.min["nothing-shared"] = 24
	c.min["original-unchanged"] = 24
	c.min["encoding-state"] = 12
	c.min["modifiable"] = 5
}

func (c *copyCheck) run(st *State) {
	x := c.x
	saved := x.hooks
	x.hooks = map[string]Hook{}
	defer func() { x.hooks = saved }()
	c.install()
	// the function itself is analysed, not assumed
	delete(x.hooks, c.name)
	c.pre = st.clone()
	c.made = map[*Term]VSlice{}
	for _, o := range c.call(x, st, c.name, c.orig) {
		c.result(o)
	}
}

// install sets the assumptions: component copies, decoders and, for a mapped
// value, the access to elements
func (c *copyCheck) install() {
	x := c.x
	for _, i := range []string{"IKey", "IValue", "IRecord", "IScheme"} {
		I := c.r.typ("util." + i)
		if I == nil {
			continue
		}
		names := []string{i}
		for _, t := range []string{"EmptyKey", "MappedKey", "Key", "SimpleMappedValue", "StandardMappedValue", "Primitive", "ValueArray", "RecordList", "MappedRecord", "Record"} {
			if T := c.r.typ("util." + t); T != nil && implements(types.NewPointer(T), I) && types.NewPointer(T).String() != c.T.String() {
				names = append(names, t)
			}
		}
		for _, n := range names {
			for _, m := range []string{"Copy", "CopyConstruct"} {
				c.componentCopy("util."+n+"."+m, m, I)
			}
		}
	}
	for _, d := range decoderSpecs {
		if d.typ != "" && d.errIdx >= 0 && c.r.typ(d.typ) != nil {
			c.decoder(d)
		}
	}
	for name, T := range map[string]types.Type{"util.StandardMappedValue.ValueAt": c.r.typ("util.IValue"), "util.StandardMappedValue.RecordAt": c.r.typ("util.IRecord")} {
		name, T := name, T
		if c.need(name) == nil {
			continue
		}
		x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			bad := st.clone()
			v := symNonNil(st, mkTerm("element", args[0].vkey(), intOf(args[1]), T.String()), T)
			e := freshErr(bad, name)
			x.note(bad, "call", name, args, []Value{VNil{}, e}, site)
			return []Outcome{{st: st, rets: []Value{v, VNil{}}}, {st: bad, rets: []Value{VNil{}, e}}}
		}
	}
}

func (c *copyCheck) componentCopy(name, m string, T types.Type) {
	c.x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		if m == "Copy" {
			return []Outcome{{st: st, rets: []Value{symNonNil(st, mkTerm("copyof", termOf(args[0])), T)}}}
		}
		bad := st.clone()
		r := symNonNil(st, mkTerm("constructof", termOf(args[0])), T)
		e := freshErr(bad, name)
		x.note(bad, "call", name, args, []Value{VNil{}, e}, site)
		return []Outcome{{st: st, rets: []Value{r, VNil{}}}, {st: bad, rets: []Value{VNil{}, e}}}
	}
}

// decoder: decoding the bytes of the original again succeeds, and gives an
// object with the same content over the bytes given
func (c *copyCheck) decoder(d decoderSpec) {
	fn := c.r.fn(d.name)
	if fn == nil {
		return
	}
	T := c.r.typ(d.typ)
	c.x.hooks[d.name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+d.name]++
		buf, ok := args[0].(VSlice)
		if st.isNil(args[0]) == 1 {
			buf, ok = VSlice{Off: LC(0), Len: LC(0), Cap: LC(0)}, true
		}
		if !ok {
			panic(undecided{d.name + " of " + valString(args[0])})
		}
		results := func(st *State, v Value, n Lin, err Value) Outcome {
			rs := make([]Value, fn.Signature.Results().Len())
			for i := range rs {
				rs[i] = VInt{n}
			}
			rs[d.obj], rs[d.errIdx] = v, err
			return Outcome{st: st, rets: rs}
		}
		if types.NewPointer(T).String() == c.T.String() && c.bufOf(st) != nil && (sameBytes(st, buf, c.bufOf(st)) || st.eqL(buf.Len, LC(0)) && st.eqL(sliceLen(c.bufOf(st).(VSlice)), LC(0))) {
			p := newStruct(st, d.name, T, map[string]Value{"buf": buf})
			c.made[p.Obj] = buf
			return []Outcome{results(st, p, buf.Len, VNil{})}
		}
		bad := st.clone()
		p := newStruct(st, d.name, T, nil)
		e := freshErr(bad, d.name)
		return []Outcome{results(st, p, LT(setRange(st.fresh("consumed"), big0, maxLen)), VNil{}),
			results(bad, VNil{}, LT(setRange(bad.fresh("consumed"), big0, maxLen)), e)}
	}
}

// bufOf is what the original was decoded from
func (c *copyCheck) bufOf(st *State) Value {
	if !c.mapped || fieldIndex(objType[c.orig.Obj], "buf") < 0 {
		return nil
	}
	return st.field(c.orig, "buf")
}

func (c *copyCheck) result(o Outcome) {
	st := o.st
	if len(o.rets) > 1 {
		switch st.isNil(o.rets[1]) {
		case -1:
			// only a component can make the copy fail
			failed := false
			for _, e := range flatten(st.events(nil)) {
				if e.kind == "call" && len(e.rets) == 2 && st.isNil(e.rets[1]) == -1 {
					failed = true
				}
			}
			c.oblige("copy-succeeds", c.name, failed, func() string { return "an error without a failing component\n" + c.path(st) })
			return
		case 0:
			c.fail("copy-succeeds", c.name, "the error may be nil or not: %s\n%s", valString(o.rets[1]), c.path(st))
			return
		}
	}
	v := o.rets[0]
	if f, ok := v.(VIface); ok {
		v = f.V
	}
	p, ok := v.(VPtr)
	if !ok || st.isNil(p) != -1 {
		c.fail("same-content", c.name, "the copy is %s\n%s", valString(o.rets[0]), c.path(st))
		return
	}
	// the original is as it was
	c.unchanged(st)
	// nothing modifiable is shared
	bad := c.shared(st, p)
	c.oblige("nothing-shared", c.name, bad == "", func() string { return bad + "\n" + c.path(st) })
	T := types.NewPointer(objType[p.Obj])
	if I := c.r.typ("util." + c.iface); !implements(T, I) {
		c.fail("same-content", c.name, "the copy is a %s, which is no %s", typeKey(T), c.iface)
		return
	}
	if c.m == "CopyConstruct" && c.mapped {
		c.oblige("modifiable", c.name, !strings.Contains(typeKey(T), "Mapped"), func() string { return "the constructed copy is a " + typeKey(T) + "\n" + c.path(st) })
	}
	if _, ok := c.made[p.Obj]; ok {
		c.ok("same-content", c.name+" decoded again")
		return
	}
	for _, a := range observableOf[c.iface] {
		c.compare(st.clone(), a, p, T)
	}
	if c.iface != "IConsensusID" {
		c.encoding(st.clone(), p, T)
	}
}

// access calls an accessor
func (c *copyCheck) access(st *State, p VPtr, T types.Type, a string, args ...Value) []Outcome {
	name := strings.TrimPrefix(typeKey(T), "*") + "." + a
	fn := c.r.fn(name)
	if fn == nil {
		c.fail("same-content", c.name+" "+a, "%s not found", name)
		return nil
	}
	var outs, r []Outcome
	c.guard("same-content", c.name+" "+a, func() { outs = c.x.callFn(st, fn, append([]Value{p}, args...), nil, nil) })
	for _, o := range outs {
		if o.panic == nil && !o.st.infeasible() {
			r = append(r, o)
		}
	}
	return r
}

func (c *copyCheck) compare(st *State, a string, p VPtr, T types.Type) {
	what := c.name + " " + a
	var args []Value
	if a == "ValueAt" || a == "RecordAt" {
		i := setRange(st.fresh("i"), big0, big.NewInt(65535))
		args = []Value{VInt{LT(i)}}
		// within the size, of a list of that kind
		kind := "IsValueArray"
		if a == "RecordAt" {
			kind = "IsRecordList"
		}
		var sts []*State
		for _, o := range c.access(st, c.orig, c.T, kind) {
			t, _ := o.st.branch(condOf(o.rets[0]))
			for _, s := range t {
				for _, z := range c.access(s, c.orig, c.T, "Size") {
					z.st.push(intOf(z.rets[0]).sub(LT(i)).addc(-1), false)
					if !z.st.infeasible() {
						sts = append(sts, z.st)
					}
				}
			}
		}
		for _, s := range sts {
			c.both(s, a, what, p, T, args)
		}
		if len(sts) == 0 {
			c.ok("same-content", what)
		}
		return
	}
	if c.iface == "IValue" && (a == "Size" || a == "Value") {
		// the size of a primitive, or the bytes of a list, are not content
		sts := []*State{st}
		var lists []*State
		for _, kind := range []string{"IsValueArray", "IsRecordList"} {
			var rest []*State
			for _, s := range sts {
				for _, o := range c.access(s, c.orig, c.T, kind) {
					t, f := o.st.branch(condOf(o.rets[0]))
					lists = append(lists, t...)
					rest = append(rest, f...)
				}
			}
			sts = rest
		}
		if a == "Size" {
			sts = lists
		}
		for _, s := range sts {
			c.both(s, a, what, p, T, nil)
		}
		if len(sts) == 0 {
			c.ok("same-content", what)
		}
		return
	}
	c.both(st, a, what, p, T, nil)
}

func (c *copyCheck) both(st *State, a, what string, p VPtr, T types.Type, args []Value) {
	for _, o := range c.access(st, c.orig, c.T, a, args...) {
		if len(o.rets) == 2 && (a == "ValueAt" || a == "RecordAt") && o.st.isNil(o.rets[1]) == -1 {
			continue
		}
		for _, q := range c.access(o.st, p, T, a, args...) {
			good := len(q.rets) == len(o.rets)
			for i := range o.rets {
				good = good && c.same(q.st, o.rets[i], q.rets[i], 0)
			}
			c.oblige("same-content", what, good, func() string {
				return "the original gives " + valsString(o.rets) + ", the copy " + valsString(q.rets) + "\n" + c.path(q.st)
			})
		}
	}
}

func valsString(vs []Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, valString(v))
	}
	return strings.Join(s, ", ")
}

func condOf(v Value) *Cond {
	if b, ok := v.(VBool); ok {
		return b.C
	}
	panic(undecided{"not a truth value: " + valString(v)})
}

// same: b is what a is, or a copy of it
func (c *copyCheck) same(st *State, a, b Value, depth int) bool {
	if st.isNil(a) == 1 || st.isNil(b) == 1 {
		switch x := a.(type) {
		case VSlice:
			y, ok := b.(VSlice)
			return ok && st.eqL(x.Len, LC(0)) && st.eqL(y.Len, LC(0))
		}
		return st.isNil(a) == 1 && st.isNil(b) == 1
	}
	switch x := a.(type) {
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || !st.eqL(x.Len, y.Len) {
			return false
		}
		elem := objType[x.Obj].Underlying().(*types.Array).Elem()
		if _, ok := elem.Underlying().(*types.Basic); ok {
			return sameBytes(st, a, b)
		}
		if depth > 2 {
			return false
		}
		s := st.clone()
		i := s.fresh("i")
		setRange(i, big0, maxLen)
		s.push(x.Len.sub(LT(i)).addc(-1), false)
		if s.infeasible() {
			return true
		}
		return c.same(s, s.at(s.bytesOf(x), LT(i), elem), s.at(s.bytesOf(y), LT(i), elem), depth+1)
	case VSym, VIface:
		if _, ok := a.(VSym); ok && !types.IsInterface(a.(VSym).T) {
			return st.eqVal(a, b)
		}
		t, ok := termOf(b).(*Term)
		if ok && (t.op == "copyof" || t.op == "constructof") {
			if c.m == "CopyConstruct" && t.op == "copyof" {
				return false
			}
			return argEq(t.args[0], termOf(a))
		}
		return false
	case VPtr:
		if st.eqVal(a, b) {
			return true
		}
		y, ok := b.(VPtr)
		return ok && st.isNil(x) == -1 && st.isNil(y) == -1 && immutable(st, x) && st.eqVal(st.load(x), st.load(y))
	}
	return st.eqVal(a, b)
}

func argEq(a, b Arg) bool {
	return mkTerm("arg", a) == mkTerm("arg", b)
}

// immutable: times and big numbers are never changed once they are part of a
// record
func immutable(st *State, p VPtr) bool {
	t := objType[p.Obj]
	return t != nil && (t.String() == "time.Time" || t.String() == "math/big.Int")
}

// shared names memory that the copy holds and that existed before
func (c *copyCheck) shared(st *State, p VPtr) string {
	seen := map[*Term]bool{}
	bad := ""
	var visit func(v Value, where string)
	var segs func(ct *Content, elem types.Type, where string)
	object := func(o *Term, where string) {
		if seen[o] || bad != "" {
			return
		}
		seen[o] = true
		t := objType[o]
		if s := t.String(); s == "time.Time" || s == "math/big.Int" {
			return
		}
		if _, before := c.pre.heap[o]; before || !isAlloc(o) {
			bad = where + " is " + o.String() + ", which the copy does not own"
			return
		}
		visit(st.get(o), where)
	}
	visit = func(v Value, where string) {
		if bad != "" {
			return
		}
		switch a := v.(type) {
		case VPtr:
			if st.isNil(a) != 1 {
				object(a.Obj, where)
			}
		case VSlice:
			if a.Obj != nil && !st.eqL(a.Cap, LC(0)) {
				object(a.Obj, where)
			}
		case VIface:
			visit(a.V, where)
		case VSym:
			if st.isNil(a) == 1 || a.Tm.op == "copyof" || a.Tm.op == "constructof" {
				return
			}
			if b, ok := a.T.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
				return
			}
			bad = where + " is " + valString(a)
		case VStruct:
			for _, f := range a.F {
				visit(f, where)
			}
		case VArr:
			segs(a.C, nil, where)
		}
	}
	segs = func(ct *Content, elem types.Type, where string) {
		for _, g := range ct.segs {
			switch g.K {
			case 'e':
				visit(g.V, where)
			case 'r':
				segs(g.Body, elem, where)
			case 'b', 'x':
				if g.Src != nil && objType[g.Src] != nil {
					if e, ok := objType[g.Src].Underlying().(*types.Array); ok {
						if _, basic := e.Elem().Underlying().(*types.Basic); !basic && !st.eqL(g.N, LC(0)) {
							bad = where + " holds the elements of " + g.Src.String()
						}
					}
				}
			}
		}
	}
	if _, decoded := c.made[p.Obj]; decoded {
		// decoded objects hold their bytes, and what is decoded from them
		visit(c.made[p.Obj], "the buffer")
		return bad
	}
	s, ok := st.get(p.Obj).(VStruct)
	if _, before := c.pre.heap[p.Obj]; before || !isAlloc(p.Obj) || !ok {
		return "the copy is " + valString(p)
	}
	t := objType[p.Obj].Underlying().(*types.Struct)
	for i, f := range s.F {
		visit(f, "field "+t.Field(i).Name())
	}
	return bad
}

// unchanged: what the original holds is as before
func (c *copyCheck) unchanged(st *State) {
	seen := map[*Term]bool{}
	diff := ""
	var visit func(v Value)
	object := func(o *Term) {
		if seen[o] {
			return
		}
		seen[o] = true
		a := c.pre.get(o)
		b := st.get(o)
		eq := a.vkey() == b.vkey() || st.eqVal(a, b)
		if x, ok := a.(VStruct); ok && !eq {
			if y, ok := b.(VStruct); ok {
				eq = true
				for i := range x.F {
					eq = eq && st.eqVal(x.F[i], y.F[i])
				}
			}
		}
		if x, ok := a.(VArr); ok && !eq {
			if y, ok := b.(VArr); ok {
				eq = st.eqContent(x.C, y.C)
			}
		}
		if !eq {
			diff = o.String() + " was " + valString(a) + " and is " + valString(b)
		}
		visit(a)
	}
	visit = func(v Value) {
		switch a := v.(type) {
		case VPtr:
			object(a.Obj)
		case VSlice:
			if a.Obj != nil {
				object(a.Obj)
			}
		case VStruct:
			for _, f := range a.F {
				visit(f)
			}
		}
	}
	object(c.orig.Obj)
	c.oblige("original-unchanged", c.name, diff == "", func() string { return diff + "\n" + c.path(st) })
}

// encoding: the copy is encoded only if it holds the encoded bytes
func (c *copyCheck) encoding(st *State, p VPtr, T types.Type) {
	for _, o := range c.access(st, p, T, "IsEncoded") {
		t, _ := o.st.branch(condOf(o.rets[0]))
		good := true
		why := ""
		for _, s := range t {
			for _, a := range c.access(s.clone(), p, T, "Buf") {
				for _, b := range c.access(a.st, c.orig, c.T, "Buf") {
					if !c.same(b.st, b.rets[0], a.rets[0], 0) {
						good = false
						why = "the copy claims to be encoded as " + valString(a.rets[0]) + ", the original is " + valString(b.rets[0]) + "\n" + c.path(b.st)
					}
				}
			}
		}
		c.oblige("encoding-state", c.name, good, func() string { return why })
	}
}
