package main

// P03: where passphrases and private keys can go. Summaries say which
// parameters each result, each other parameter's memory and each message
// depends on; a secret is one more parameter.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bits uint64

const secretBit bits = 1 << 63

type leak struct {
	bits bits
	what string
	pos  token.Pos
	in   *ssa.Function
}

type secrecy struct {
	c      *Check
	in     map[*ssa.Function]bool
	val    map[ssa.Value]bits
	mem    map[ssa.Value]bits // what the memory a value refers to depends on
	ret    map[*ssa.Function][]bits
	out    map[*ssa.Function][]bits // what is written into the memory of a parameter
	leaks  map[*ssa.Function]map[string]*leak
	global map[*ssa.Global]bits
	more   bool
	calls  map[ssa.CallInstruction][]*ssa.Function
	sinks  map[ssa.Instruction]bool
	srcs   map[ssa.Instruction]bool
}

func isPrivateKey(t types.Type) bool {
	s := t.String()
	return s == "*crypto/ecdsa.PrivateKey" || s == "crypto/ecdsa.PrivateKey" || s == "**crypto/ecdsa.PrivateKey"
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// root: the value whose memory an address is in
func rootOf(v ssa.Value) ssa.Value {
	for i := 0; i < 100; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.SliceToArrayPointer:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func (s *secrecy) of(v ssa.Value) bits {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	case *ssa.Global:
		return s.global[x]
	}
	b := s.val[v]
	if isPrivateKey(v.Type()) {
		b |= secretBit
	}
	if r := rootOf(v); r != v {
		if !publicPart(v) {
			b |= s.mem[r]
			if g, ok := r.(*ssa.Global); ok {
				b |= s.global[g]
			}
		}
	} else {
		b |= s.mem[v]
	}
	return b
}

// publicPart: the address is in the public half of a private key
func publicPart(v ssa.Value) bool {
	for i := 0; i < 100; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isPrivateKey(x.X.Type()) {
				return fieldNameAt(x.X.Type(), x.Field) == "PublicKey"
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func fieldNameAt(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return ""
}

func (s *secrecy) set(v ssa.Value, b bits) {
	if b == 0 || isErrFree(v) {
		return
	}
	if s.val[v]|b != s.val[v] {
		s.val[v] |= b
		s.more = true
	}
}

func isErrFree(v ssa.Value) bool {
	t, ok := v.Type().Underlying().(*types.Basic)
	return ok && t.Kind() == types.Bool
}

func (s *secrecy) write(addr ssa.Value, b bits) {
	if b == 0 {
		return
	}
	r := rootOf(addr)
	if g, ok := r.(*ssa.Global); ok {
		if s.global[g]|b != s.global[g] {
			s.global[g] |= b
			s.more = true
		}
		return
	}
	if isPrivateKey(r.Type()) {
		// its private part is secret anyway
		return
	}
	if s.mem[r]|b != s.mem[r] {
		s.mem[r] |= b
		s.more = true
	}
	// a variable that holds the reference
	switch x := r.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.write(x.X, b)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != r && s.mem[rootOf(e)]|b != s.mem[rootOf(e)] {
				s.write(e, b)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		for i, p := range f.Params {
			if p == x {
				for len(s.out[f]) <= i {
					s.out[f] = append(s.out[f], 0)
				}
				if s.out[f][i]|b != s.out[f][i] {
					s.out[f][i] |= b
					s.more = true
				}
			}
		}
	}
}

func (s *secrecy) leak(f *ssa.Function, in ssa.Instruction, b bits, what string, orig *leak) {
	s.sinks[in] = true
	if b == 0 {
		return
	}
	if s.leaks[f] == nil {
		s.leaks[f] = map[string]*leak{}
	}
	l := &leak{b, what, in.Pos(), f}
	key := what + "@" + s.c.r.pos(in.Pos())
	if orig != nil {
		l.pos, l.in = orig.pos, orig.in
		key = what + "@" + s.c.r.pos(orig.pos)
	}
	if o := s.leaks[f][key]; o != nil {
		if o.bits|b == o.bits {
			return
		}
		o.bits |= b
	} else {
		s.leaks[f][key] = l
	}
	s.more = true
}

// secretParam: parameters of the interface that are secrets
func secretParam(f *ssa.Function, i int) bool {
	if f.Signature.Recv() == nil {
		switch f.Name() {
		case "LCLoadPrivKey":
			return i == 2
		case "LCSaveKeyPair":
			return i == 3 || i == 4
		case "LCSaveKeyPairPrompt":
			return i == 3
		case "ECDSAGetPrivateKey":
			return i == 0
		}
	}
	return i < len(f.Params) && isPrivateKey(f.Params[i].Type())
}

func (s *secrecy) transfer(f *ssa.Function) {
	for i, p := range f.Params {
		b := bits(1) << uint(i%60)
		if secretParam(f, i) {
			b |= secretBit
		}
		s.set(p, b)
	}
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				for _, e := range v.Edges {
					s.set(v, s.of(e))
					if holdsRefs(v.Type(), 0) && s.mem[v] != 0 {
						s.write(e, s.mem[v])
					}
				}
			case *ssa.FieldAddr:
				if isPrivateKey(v.X.Type()) && fieldNameAt(v.X.Type(), v.Field) == "PublicKey" {
					continue
				}
				s.set(v, s.of(v.X))
			case *ssa.Field:
				if isPrivateKey(v.X.Type()) && fieldNameAt(v.X.Type(), v.Field) == "PublicKey" {
					continue
				}
				s.set(v, s.of(v.X))
			case *ssa.IndexAddr:
				s.set(v, s.of(v.X))
			case *ssa.Index:
				s.set(v, s.of(v.X))
			case *ssa.Lookup:
				s.set(v, s.of(v.X))
			case *ssa.Slice:
				s.set(v, s.of(v.X))
			case *ssa.ChangeType:
				s.set(v, s.of(v.X))
			case *ssa.ChangeInterface:
				s.set(v, s.of(v.X))
			case *ssa.MakeInterface:
				s.set(v, s.of(v.X))
			case *ssa.Convert:
				s.set(v, s.of(v.X))
			case *ssa.TypeAssert:
				s.set(v, s.of(v.X))
			case *ssa.SliceToArrayPointer:
				s.set(v, s.of(v.X))
			case *ssa.Range:
				s.set(v, s.of(v.X))
			case *ssa.Next:
				s.set(v, s.of(v.Iter))
			case *ssa.BinOp:
				s.set(v, s.of(v.X)|s.of(v.Y))
			case *ssa.UnOp:
				s.set(v, s.of(v.X))
			case *ssa.Extract:
				cl, ok := v.Tuple.(*ssa.Call)
				if !ok {
					s.set(v, s.of(v.Tuple))
					continue
				}
				s.result(f, cl, v, v.Index)
			case *ssa.MakeClosure:
				g := v.Fn.(*ssa.Function)
				for i, b := range v.Bindings {
					s.set(g.FreeVars[i], s.of(b)&secretBit)
					if m := s.mem[g.FreeVars[i]] & secretBit; m != 0 {
						s.write(b, m)
					}
				}
			case *ssa.Store:
				s.write(v.Addr, s.of(v.Val))
			case *ssa.MapUpdate:
				s.write(v.Map, s.of(v.Key)|s.of(v.Value))
			case *ssa.Send:
				s.write(v.Chan, s.of(v.X))
			case *ssa.Panic:
				s.leak(f, in, s.of(v.X), "the message of a panic", nil)
			case *ssa.Return:
				for len(s.ret[f]) < len(v.Results) {
					s.ret[f] = append(s.ret[f], 0)
				}
				for i, r := range v.Results {
					b := s.of(r)
					if isErr(r.Type()) {
						s.leak(f, in, b, "an error", nil)
					}
					if s.ret[f][i]|b != s.ret[f][i] {
						s.ret[f][i] |= b
						s.more = true
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				s.call(f, ci)
			}
		}
	}
}

// mapBits: the caller's view of what a callee's value depends on
func (s *secrecy) mapBits(b bits, args []ssa.Value) bits {
	r := b & secretBit
	for i := range args {
		if b&(1<<uint(i%60)) != 0 {
			r |= s.of(args[i])
		}
	}
	return r
}

func (s *secrecy) own(ci ssa.CallInstruction) []*ssa.Function {
	if o, ok := s.calls[ci]; ok {
		return o
	}
	var out []*ssa.Function
	if f := ci.Common().StaticCallee(); f != nil {
		if s.in[f] {
			out = []*ssa.Function{f}
		}
	} else if _, b := ci.Common().Value.(*ssa.Builtin); !b {
		for _, g := range s.c.r.callees(ci) {
			if s.in[g] {
				out = append(out, g)
			}
		}
	}
	s.calls[ci] = out
	return out
}

func libCall(ci ssa.CallInstruction) (name, pkg string) {
	cm := ci.Common()
	if cm.IsInvoke() {
		if m := cm.Method; m != nil && m.Pkg() != nil {
			return m.Name(), m.Pkg().Path()
		}
		return cm.Method.Name(), ""
	}
	if f := cm.StaticCallee(); f != nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Name(), f.Object().Pkg().Path()
		}
		return f.Name(), ""
	}
	return "", ""
}

// hides: what the library function computes tells nothing of its arguments
func hides(name, pkg string) bool {
	switch pkg {
	case "crypto/cipher":
		return name == "Seal" || name == "NonceSize" || name == "Overhead" || name == "BlockSize"
	case "crypto/ecdsa":
		return name == "Sign" || name == "SignASN1" || name == "Verify" || name == "VerifyASN1" || name == "Public"
	case "crypto/elliptic":
		return name == "ScalarBaseMult" || name == "ScalarMult" || name == "Params" || name == "IsOnCurve"
	case "crypto/subtle":
		return strings.HasPrefix(name, "ConstantTime") && name != "ConstantTimeCopy" && name != "ConstantTimeSelect"
	case "bytes", "strings":
		return name == "Equal" || name == "Compare" || strings.HasPrefix(name, "Index") || strings.HasPrefix(name, "Has") || strings.HasPrefix(name, "Contains")
	}
	switch name {
	case "Len", "BitLen", "Size", "BlockSize", "Cap", "Cmp", "CmpAbs", "Sign":
		return true
	}
	return false
}

func secretSource(name, pkg string) bool {
	switch {
	case strings.HasSuffix(pkg, "gopass"):
		return strings.HasPrefix(name, "GetPasswd")
	case strings.HasSuffix(pkg, "terminal") || strings.HasSuffix(pkg, "x/term"):
		return name == "ReadPassword"
	case pkg == "crypto/cipher":
		return name == "Open"
	}
	return false
}

// result: what the i-th result of a call depends on
func (s *secrecy) result(f *ssa.Function, cl *ssa.Call, v ssa.Value, i int) {
	args := callArgs(&cl.Call)
	own := s.own(cl)
	for _, g := range own {
		if i < len(s.ret[g]) {
			s.set(v, s.mapBits(s.ret[g][i], args))
		}
	}
	if len(own) > 0 {
		return
	}
	if bi, ok := cl.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap", "recover":
			return
		}
		for _, a := range args {
			s.set(v, s.of(a))
		}
		return
	}
	name, pkg := libCall(cl)
	if secretSource(name, pkg) {
		s.srcs[cl] = true
		if i == 0 {
			s.set(v, secretBit)
		}
		return
	}
	if hides(name, pkg) {
		return
	}
	if isErr(v.Type()) && !(pkg == "fmt" || pkg == "errors") {
		return
	}
	if cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() {
		s.set(v, s.of(cl.Call.Value))
	}
	for _, a := range args {
		s.set(v, s.of(a))
	}
}

func bufferWriter(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	switch v.Type().String() {
	case "*bytes.Buffer", "*strings.Builder", "hash.Hash", "hash.Hash32", "hash.Hash64":
		return true
	}
	return false
}

func (s *secrecy) call(f *ssa.Function, ci ssa.CallInstruction) {
	cm := ci.Common()
	args := callArgs(cm)
	in := ci.(ssa.Instruction)
	if cl, ok := in.(*ssa.Call); ok {
		if _, tuple := cl.Type().(*types.Tuple); !tuple {
			s.result(f, cl, cl, 0)
		}
	}
	own := s.own(ci)
	for _, g := range own {
		for i, b := range s.out[g] {
			if i < len(args) {
				s.write(args[i], s.mapBits(b, args))
			}
		}
		for _, l := range s.leaks[g] {
			if l.what == "an error" {
				continue // it is judged where it is made, or where the caller returns it
			}
			if b := s.mapBits(l.bits&^secretBit, args); b != 0 {
				s.leak(f, in, b, l.what, l)
			}
		}
	}
	if len(own) > 0 {
		return
	}
	all := func() (b bits) {
		for _, a := range args {
			b |= s.of(a)
		}
		return
	}
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			s.write(args[0], s.of(args[1]))
		case "append":
			if len(args) > 1 {
				s.write(args[0], s.of(args[1]))
			}
		case "print", "println":
			s.leak(f, in, all(), "the terminal", nil)
		case "panic":
			s.leak(f, in, all(), "the message of a panic", nil)
		}
		return
	}
	name, pkg := libCall(ci)
	switch pkg {
	case "fmt":
		if strings.HasPrefix(name, "Print") {
			s.leak(f, in, all(), "the terminal", nil)
			return
		}
		if strings.HasPrefix(name, "Fprint") {
			if bufferWriter(args[0]) {
				s.write(args[0], all())
			} else {
				s.leak(f, in, all()&^s.of(args[0])|all(), "what is printed", nil)
			}
			return
		}
	case "log":
		s.leak(f, in, all(), "the log", nil)
		return
	case "os", "io/ioutil", "os/exec", "net", "syscall", "net/http":
		s.leak(f, in, all(), "the system", nil)
		if name == "Read" || name == "ReadAt" {
			return
		}
		return
	case "bufio":
		if strings.HasPrefix(name, "Write") {
			s.leak(f, in, all(), "what is written", nil)
			return
		}
	case "io":
		if name == "WriteString" || name == "Write" || name == "Copy" {
			if !bufferWriter(args[0]) {
				s.leak(f, in, all(), "what is written", nil)
				return
			}
		}
	}
	if hides(name, pkg) || secretSource(name, pkg) {
		return
	}
	b := all()
	if b == 0 {
		return
	}
	// a library function may write what it is given into what it is given
	recv := cm.IsInvoke() || cm.StaticCallee() != nil && cm.StaticCallee().Signature.Recv() != nil
	sig := cm.Signature()
	if g := cm.StaticCallee(); g != nil {
		sig = g.Signature
	}
	for _, i := range mutated(cm.StaticCallee(), name, pkg, sig, recv) {
		if i < len(args) && holdsRefs(args[i].Type(), 0) {
			s.write(args[i], b)
		}
	}
}

func init() {
	register("P03", "interprocedural information flow analysis with summaries: what passphrases, private keys and decrypted contents flow into, through memory, fields, calls, conversions and formatting; they reach no message, error, log, panic or file but as the output of authenticated encryption", func(c *Check) {
		s := &secrecy{c: c, in: map[*ssa.Function]bool{}, val: map[ssa.Value]bits{}, mem: map[ssa.Value]bits{}, ret: map[*ssa.Function][]bits{},
			out: map[*ssa.Function][]bits{}, leaks: map[*ssa.Function]map[string]*leak{}, global: map[*ssa.Global]bits{},
			calls: map[ssa.CallInstruction][]*ssa.Function{}, sinks: map[ssa.Instruction]bool{}, srcs: map[ssa.Instruction]bool{}}
		fs := c.r.everyFunc()
		for _, f := range fs {
			s.in[f] = true
		}
		for s.more = true; s.more; {
			s.more = false
			for _, f := range fs {
				s.transfer(f)
			}
		}
		for _, f := range fs {
			c.fns[f] = true
			name := fname(f)
			c.ok("secret-not-shown", name)
			for _, l := range s.leaks[f] {
				if l.bits&secretBit != 0 {
					c.fail("secret-not-shown", name, "%s: a passphrase or private key can reach %s", c.r.pos(l.pos), l.what)
				}
			}
		}
		kept := 0
		for g, b := range s.global {
			if b&secretBit != 0 {
				c.fail("secret-not-kept", g.String(), "a passphrase or private key stays in a package-level variable")
			}
			kept++
		}
		c.ok("secret-not-kept", "package-level variables")
		n := 0
		for _, b := range s.val {
			if b&secretBit != 0 {
				n++
			}
		}
		for i := range s.sinks {
			c.ok("sink", fname(i.Parent())+" "+c.r.pos(i.Pos()))
		}
		for i := range s.srcs {
			c.ok("source", fname(i.Parent())+" "+c.r.pos(i.Pos()))
		}
		c.items["secret_values"] = n
		c.items["sinks"] = len(s.sinks)
		c.items["sources"] = len(s.srcs)
		c.min["secret-not-shown"] = 400
		c.min["source"] = 2
		c.min["sink"] = 20
	})
}
