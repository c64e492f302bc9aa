package main

// What is shared between all objects: package-level state. P01 decides that
// nothing modifies it, or hands out references to it; P02 that results depend
// on the arguments alone, by the effects of every function.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// holdsRefs: values of the type can lead to memory
func holdsRefs(t types.Type, depth int) bool {
	if depth > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		// errors are values
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsRefs(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsRefs(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

const (
	ownShared = 1 << iota // memory of a package-level variable of the repository
	extShared             // memory of a library that all its users share
	pooled                // memory of a pool, another user's once it is put back
)

type sharing struct {
	c      *Check
	kind   map[ssa.Value]int
	from   map[ssa.Value]string // the variable it comes from
	heap   map[string]int       // field or element type -> kinds stored there
	heapBy map[string]string
	ret    map[*ssa.Function][]int
	retBy  map[*ssa.Function]string
	more   bool
	in     map[*ssa.Function]bool
}

func (s *sharing) add(v ssa.Value, k int, from string) {
	if k == 0 || v == nil || !holdsRefs(v.Type(), 0) {
		return
	}
	if s.kind[v]|k != s.kind[v] {
		s.kind[v] |= k
		s.more = true
	}
	if s.from[v] == "" {
		s.from[v] = from
	}
}

func (s *sharing) of(v ssa.Value) (int, string) {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg != nil && s.c.r.pkgs[g.Pkg.Pkg.Name()] == g.Pkg {
			return ownShared, g.Name()
		}
		return extShared, g.String()
	}
	return s.kind[v], s.from[v]
}

func cellOf(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
	case *ssa.IndexAddr:
		return "elements of " + a.X.Type().Underlying().String()
	}
	return ""
}

func (s *sharing) put(cell string, k int, from string) {
	if cell == "" || k == 0 {
		return
	}
	if s.heap[cell]|k != s.heap[cell] {
		s.heap[cell] |= k
		s.more = true
	}
	if s.heapBy[cell] == "" {
		s.heapBy[cell] = from
	}
}

// aliasing: which argument's memory the result of a library function is in
func aliasing(fn *ssa.Function, name string, pkg string, nargs int) int {
	switch pkg {
	case "math/big":
		if fn != nil && fn.Signature.Recv() != nil && fn.Signature.Results().Len() > 0 {
			if types.Identical(fn.Signature.Results().At(0).Type(), fn.Signature.Recv().Type()) {
				return 0
			}
		}
		if name == "Bits" {
			return 0
		}
	case "bytes":
		if strings.HasPrefix(name, "Trim") || strings.HasPrefix(name, "Split") || strings.HasPrefix(name, "Fields") || strings.HasPrefix(name, "Cut") || name == "Bytes" || name == "Next" {
			return 0
		}
	case "crypto/elliptic":
		if name == "Params" {
			return 0
		}
	case "slices":
		switch name {
		case "Clip", "Grow", "Insert", "Delete", "Compact", "Replace":
			return 0
		}
	}
	return -1
}

// mutated: the arguments a library function writes through
func mutated(fn *ssa.Function, name, pkg string, sig *types.Signature, recv bool) []int {
	o := 0
	if recv {
		o = 1
	}
	switch pkg {
	case "math/big":
		if !recv {
			if name == "Jacobi" {
				return nil
			}
			return nil
		}
		switch name {
		case "DivMod", "QuoRem":
			return []int{0, 3}
		case "GCD":
			return []int{0, 1, 2}
		case "FillBytes", "Append":
			return []int{1}
		case "Scan", "UnmarshalJSON", "UnmarshalText", "GobDecode":
			return []int{0}
		}
		if strings.HasPrefix(name, "Set") || sig.Results().Len() > 0 && types.Identical(sig.Results().At(0).Type(), fn.Signature.Recv().Type()) {
			return []int{0}
		}
	case "encoding/binary":
		if strings.HasPrefix(name, "Put") || strings.HasPrefix(name, "Append") {
			return []int{o}
		}
		if name == "Read" {
			return []int{2}
		}
	case "crypto/rand":
		if name == "Read" {
			return []int{o}
		}
	case "io":
		if name == "ReadFull" || name == "ReadAtLeast" {
			return []int{1}
		}
		if name == "Read" {
			return []int{0, 1}
		}
	case "os":
		if recv && (name == "Read" || name == "ReadAt") {
			return []int{1}
		}
	case "sort":
		if strings.HasPrefix(name, "Search") || strings.HasSuffix(name, "AreSorted") || strings.HasSuffix(name, "IsSorted") {
			return nil
		}
		return []int{0}
	case "slices":
		if strings.HasPrefix(name, "Sort") || name == "Reverse" || name == "Insert" || name == "Delete" || name == "Compact" || name == "Replace" {
			return []int{0}
		}
	case "encoding/hex", "encoding/base64", "encoding/base32", "encoding/ascii85":
		if name == "Encode" || name == "Decode" {
			return []int{o}
		}
	case "encoding/json", "encoding/gob":
		if name == "Unmarshal" {
			return []int{1}
		}
		if recv {
			return []int{0, 1}
		}
	case "crypto/cipher":
		switch name {
		case "XORKeyStream", "CryptBlocks":
			return []int{0, 1}
		case "Encrypt", "Decrypt", "Seal", "Open":
			return []int{1}
		}
	case "github.com/golang/snappy":
		if name == "Encode" || name == "Decode" {
			return []int{0}
		}
	case "crypto/subtle":
		if name == "XORBytes" || name == "ConstantTimeCopy" {
			return []int{0, 1}
		}
	case "unicode/utf8":
		if name == "EncodeRune" || name == "AppendRune" {
			return []int{0}
		}
	case "strconv":
		if strings.HasPrefix(name, "Append") {
			return []int{0}
		}
	}
	if recv {
		switch pkg {
		case "hash", "hash/crc32", "hash/fnv", "hash/maphash", "hash/adler32", "hash/crc64",
			"crypto/sha256", "crypto/sha512", "crypto/sha1", "crypto/md5", "crypto/hmac",
			"github.com/spaolacci/murmur3":
			switch name {
			case "Size", "BlockSize":
				return nil
			case "Sum":
				return []int{1}
			}
			return []int{0}
		case "bytes", "bufio", "strings":
			switch name {
			case "Len", "Cap", "String", "Bytes", "Available", "Replace", "WriteString", "Size", "Buffered":
				if name != "WriteString" {
					return nil
				}
			}
			if _, ok := types.Unalias(sig.Recv().Type()).(*types.Pointer); ok {
				return []int{0}
			}
		case "math/rand", "math/rand/v2", "container/list", "container/ring", "container/heap":
			return []int{0}
		}
	}
	return nil
}

// locked: the last operation on a mutex before the instruction, on every way
// there, takes it (the readers' side is enough to read)
func locked(in ssa.Instruction, write bool) bool {
	op := func(i ssa.Instruction) int {
		ci, ok := i.(*ssa.Call)
		if !ok {
			return 0
		}
		f := ci.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
			return 0
		}
		switch f.Name() {
		case "Lock":
			return 1
		case "RLock":
			if write {
				return 0
			}
			return 1
		case "Unlock", "RUnlock":
			return -1
		}
		return 0
	}
	b := in.Block()
	start := len(b.Instrs)
	for i, x := range b.Instrs {
		if x == in {
			start = i
		}
	}
	for b != nil {
		for i := start - 1; i >= 0; i-- {
			if o := op(b.Instrs[i]); o != 0 {
				return o > 0
			}
		}
		b = b.Idom()
		if b != nil {
			start = len(b.Instrs)
		}
	}
	return false
}

// initOnly: the functions that only run while the program starts, or once
func (r *Repo) initOnly() map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	valued := map[*ssa.Function]bool{}
	once := map[*ssa.Function]bool{}
	for _, f := range r.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], f)
						if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync" && strings.HasPrefix(callee.String(), "(*sync.Once).Do") {
							for _, a := range ci.Common().Args {
								switch g := a.(type) {
								case *ssa.Function:
									once[g] = true
								case *ssa.MakeClosure:
									once[g.Fn.(*ssa.Function)] = true
								}
							}
						}
						if callee.Origin() != nil && callee.Origin().Pkg != nil && callee.Origin().Pkg.Pkg.Path() == "sync" && strings.HasPrefix(callee.Origin().Name(), "OnceValue") {
							switch g := ci.Common().Args[0].(type) {
							case *ssa.Function:
								once[g] = true
							case *ssa.MakeClosure:
								once[g.Fn.(*ssa.Function)] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						valued[g] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range once {
		out[f] = true
	}
	for _, f := range r.everyFunc() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			out[f] = true
		}
	}
	for more := true; more; {
		more = false
		for _, f := range r.everyFunc() {
			if out[f] || valued[f] || len(callers[f]) == 0 || f.Signature.Recv() != nil || token.IsExported(f.Name()) {
				continue
			}
			all := true
			for _, g := range callers[f] {
				all = all && out[g]
			}
			if all {
				out[f] = true
				more = true
			}
		}
	}
	return out
}

// everyFunc: the functions with a body, and what runs before the program
func (r *Repo) everyFunc() []*ssa.Function {
	out := append([]*ssa.Function{}, r.funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, p := range []string{"collection", "util", "main"} {
		if pk := r.pkgs[p]; pk != nil {
			if f := pk.Func("init"); f != nil && !seen[f] {
				out = append(out, f)
				seen[f] = true
			}
		}
	}
	for i := 0; i < len(out); i++ {
		for _, a := range out[i].AnonFuncs {
			if !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	return out
}

func (s *sharing) callee(ci ssa.CallInstruction) (own []*ssa.Function, ext *ssa.Function, name, pkg string) {
	cm := ci.Common()
	if f := cm.StaticCallee(); f != nil {
		if s.in[f] {
			return []*ssa.Function{f}, nil, "", ""
		}
		if f.Synthetic != "" && len(f.Blocks) > 0 && f.Pkg == nil && f.Origin() == nil {
			// a wrapper around a method of the repository
			for _, g := range s.c.r.callees(ci) {
				if s.in[g] {
					own = append(own, g)
				}
			}
			if own != nil {
				return own, nil, "", ""
			}
		}
		p := ""
		if f.Object() != nil && f.Object().Pkg() != nil {
			p = f.Object().Pkg().Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			p = f.Origin().Pkg.Pkg.Path()
		}
		n := f.Name()
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		return nil, f, n, p
	}
	for _, g := range s.c.r.callees(ci) {
		if s.in[g] {
			own = append(own, g)
		}
	}
	if cm.IsInvoke() {
		p := ""
		if m := cm.Method; m != nil && m.Pkg() != nil {
			p = m.Pkg().Path()
		}
		return own, nil, cm.Method.Name(), p
	}
	return own, nil, "", ""
}

func callArgs(cm *ssa.CallCommon) []ssa.Value {
	if cm.IsInvoke() {
		return append([]ssa.Value{cm.Value}, cm.Args...)
	}
	return cm.Args
}

func (s *sharing) transfer(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				for _, e := range v.Edges {
					k, g := s.of(e)
					s.add(v, k, g)
				}
			case *ssa.FieldAddr:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.Field:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.IndexAddr:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.Index:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.Lookup:
				k, g := s.of(v.X)
				s.add(v, k, g)
				cell := "elements of " + v.X.Type().Underlying().String()
				s.add(v, s.heap[cell], s.heapBy[cell])
			case *ssa.Slice:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.ChangeType:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.ChangeInterface:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.MakeInterface:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.TypeAssert:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.SliceToArrayPointer:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.Extract:
				if cl, ok := v.Tuple.(*ssa.Call); ok {
					s.result(cl, v, v.Index)
				} else {
					k, g := s.of(v.Tuple)
					s.add(v, k, g)
				}
			case *ssa.Range:
				k, g := s.of(v.X)
				s.add(v, k, g)
			case *ssa.Next:
				k, g := s.of(v.Iter)
				s.add(v, k, g)
			case *ssa.UnOp:
				if v.Op == token.MUL {
					k, g := s.of(v.X)
					s.add(v, k, g)
					if cell := cellOf(v.X); cell != "" {
						s.add(v, s.heap[cell], s.heapBy[cell])
					} else if k, g := s.of(v.X); k == 0 {
						_ = g
						cell := "at " + v.X.Type().String()
						s.add(v, s.heap[cell], s.heapBy[cell])
					}
				}
			case *ssa.Store:
				k, g := s.of(v.Val)
				if !holdsRefs(v.Val.Type(), 0) {
					continue
				}
				cell := cellOf(v.Addr)
				if cell == "" {
					cell = "at " + v.Addr.Type().String()
					if a, ok := v.Addr.(*ssa.Alloc); ok && !a.Heap {
						s.add(a, k&^0, g)
					}
				}
				s.put(cell, k, g)
			case *ssa.MapUpdate:
				k, g := s.of(v.Value)
				if holdsRefs(v.Value.Type(), 0) {
					s.put("elements of "+v.Map.Type().Underlying().String(), k, g)
				}
			case *ssa.MakeClosure:
				fn := v.Fn.(*ssa.Function)
				for i, bd := range v.Bindings {
					k, g := s.of(bd)
					s.add(fn.FreeVars[i], k, g)
				}
			case *ssa.Return:
				if len(s.ret[f]) < len(v.Results) {
					s.ret[f] = make([]int, len(v.Results))
				}
				for i, r := range v.Results {
					k, g := s.of(r)
					if holdsRefs(r.Type(), 0) && s.ret[f][i]|k != s.ret[f][i] {
						s.ret[f][i] |= k
						s.retBy[f] = g
						s.more = true
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				cm := ci.Common()
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						cl := in.(*ssa.Call)
						k, g := s.of(cm.Args[0])
						s.add(cl, k, g)
						if len(cm.Args) > 1 {
							if sl, ok := cm.Args[0].Type().Underlying().(*types.Slice); ok && holdsRefs(sl.Elem(), 0) {
								k, g := s.of(cm.Args[1])
								s.put("elements of "+sl.String(), k, g)
							}
						}
					}
					continue
				}
				own, _, _, _ := s.callee(ci)
				args := callArgs(cm)
				for _, g := range own {
					for i, p := range g.Params {
						if i < len(args) {
							k, from := s.of(args[i])
							s.add(p, k, from)
						}
					}
				}
				if cl, ok := in.(*ssa.Call); ok && cl.Type() != nil {
					if _, tuple := cl.Type().(*types.Tuple); !tuple {
						s.result(cl, cl, 0)
					}
				}
			}
		}
	}
}

// result: what the i-th result of a call shares
func (s *sharing) result(cl *ssa.Call, v ssa.Value, i int) {
	own, ext, name, pkg := s.callee(cl)
	for _, g := range own {
		if i < len(s.ret[g]) {
			s.add(v, s.ret[g][i], s.retBy[g])
		}
	}
	args := callArgs(&cl.Call)
	if a := aliasing(ext, name, pkg, len(args)); a >= 0 && a < len(args) {
		k, g := s.of(args[a])
		s.add(v, k, g)
	}
	if pkg == "crypto/elliptic" && (name == "P256" || name == "P224" || name == "P384" || name == "P521" || name == "Params") {
		s.add(v, extShared, "the curve")
	}
	if pkg == "sync" && name == "Get" {
		s.add(v, pooled, "a pool")
	}
	if pkg == "crypto/ecdh" && strings.HasPrefix(name, "P") {
		s.add(v, extShared, "the curve")
	}
}

// logging: the variable says where the log goes, or synchronises
func logging(g *ssa.Global) bool {
	t := g.Type().(*types.Pointer).Elem()
	s := t.String()
	return s == "*os.File" || s == "*log.Logger" || s == "log.Logger" || s == "io.Writer" || strings.HasPrefix(strings.TrimPrefix(s, "*"), "sync.") || strings.HasPrefix(strings.TrimPrefix(s, "*"), "sync/atomic.")
}

func refOnly(v ssa.Value) bool { return holdsRefs(v.Type(), 0) }

func init() {
	register("P01", "interprocedural may-alias (taint) analysis of package-level memory, of the repository and of the libraries it uses, through fields, elements, parameters, closures and results: no store, builtin or library call after initialisation writes through a reference to it without a lock, and no exported function or method returns one", func(c *Check) {
		s := &sharing{c: c, kind: map[ssa.Value]int{}, from: map[ssa.Value]string{}, heap: map[string]int{}, heapBy: map[string]string{},
			ret: map[*ssa.Function][]int{}, retBy: map[*ssa.Function]string{}, in: map[*ssa.Function]bool{}}
		fs := c.r.everyFunc()
		var mine []*ssa.Function
		for _, f := range fs {
			s.in[f] = true
			if f.Pkg != nil && (f.Pkg == c.r.pkgs["util"] || f.Pkg == c.r.pkgs["collection"]) || f.Pkg == nil {
				mine = append(mine, f)
			}
		}
		for s.more = true; s.more; {
			s.more = false
			for _, f := range fs {
				s.transfer(f)
			}
		}
		start := c.r.initOnly()
		written := map[*ssa.Global]bool{}
		writes := 0
		for _, f := range mine {
			c.fns[f] = true
			if start[f] {
				continue
			}
			name := fname(f)
			bad := func(in ssa.Instruction, v ssa.Value, what string) {
				writes++
				k, from := s.of(v)
				if k&^pooled == 0 {
					return
				}
				if g, ok := v.(*ssa.Global); ok {
					if logging(g) {
						return
					}
					written[g] = true
				}
				for r, i := rootOf(v), 0; i < 20; i++ {
					u, ok := r.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						break
					}
					if g, ok := u.X.(*ssa.Global); ok {
						if logging(g) {
							break
						}
						written[g] = true
						break
					}
					r = rootOf(u.X)
				}
				if locked(in, true) {
					return
				}
				c.fail("shared-not-written", name, "%s: %s memory that every object shares (%s)", c.r.pos(in.Pos()), what, from)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.Store:
						if a, ok := v.Addr.(*ssa.Alloc); ok && !a.Heap {
							continue // a variable of the function
						}
						if _, ok := v.Addr.(*ssa.Alloc); ok {
							continue
						}
						bad(in, v.Addr, "writes into")
					case *ssa.MapUpdate:
						bad(in, v.Map, "puts an entry into")
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cm := ci.Common()
					if bi, ok := cm.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							bad(in, cm.Args[0], bi.Name()+" writes into")
						case "append":
							if !fullCap(cm.Args[0]) {
								bad(in, cm.Args[0], "append can write into")
							}
						}
						continue
					}
					own, ext, lib, pkg := s.callee(ci)
					if own != nil && ext == nil && lib == "" {
						continue
					}
					args := callArgs(cm)
					recv := cm.IsInvoke() || ext != nil && ext.Signature.Recv() != nil
					sig := cm.Signature()
					if ext != nil {
						sig = ext.Signature
					}
					for _, i := range mutated(ext, lib, pkg, sig, recv) {
						if i < len(args) && refOnly(args[i]) {
							bad(in, args[i], lib+" writes into")
						}
					}
				}
			}
			c.ok("shared-not-written", name)
			// nothing of the own package-level memory is handed out
			if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
				c.ok("shared-not-returned", name)
				for i, k := range s.ret[f] {
					if k&(ownShared|pooled) != 0 {
						c.fail("shared-not-returned", name, "result %d can refer to memory that every object shares (%s)", i, s.retBy[f])
					}
				}
			}
		}
		// what is written under a lock is only read under it
		for _, f := range mine {
			if start[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && written[g] && !locked(in, false) {
							c.fail("shared-locked", fname(f), "%s: %s is used without the lock under which it is written", c.r.pos(in.Pos()), g.Name())
						}
					}
				}
			}
		}
		n := 0
		for _, p := range []string{"util", "collection"} {
			if pk := c.r.pkgs[p]; pk != nil {
				for _, m := range pk.Members {
					if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
						n++
					}
				}
			}
		}
		c.items["package_variables"] = n
		c.items["writes_examined"] = writes
		c.items["shared_values"] = len(s.kind)
		c.min["shared-not-written"] = 400
		c.min["shared-not-returned"] = 300
	})
}

// fullCap: appending cannot write into the array of the slice
func fullCap(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if x.Max != nil && x.High == x.Max {
			return true
		}
		if h, ok := x.High.(*ssa.Const); ok && x.Max != nil {
			if m, ok := x.Max.(*ssa.Const); ok {
				return m.Int64() == h.Int64()
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- P02

// what makes a result depend on more than the arguments
func chance(in ssa.Instruction) string {
	switch v := in.(type) {
	case *ssa.Range:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			return "the order of a map"
		}
	case *ssa.Select:
		return "which channel is ready"
	case *ssa.Go:
		return "the schedule"
	case *ssa.Convert:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			if p, ok := v.X.Type().Underlying().(*types.Basic); ok && p.Kind() == types.UnsafePointer {
				return "an address"
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			return "the terminal"
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if randomSource(ci) {
		return "chance"
	}
	if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
		return "the terminal"
	}
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return ""
	}
	switch f.Pkg.Pkg.Path() {
	case "fmt":
		if strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Scan") {
			return "the terminal"
		}
	case "log":
		return "the log"
	case "net", "net/http", "os/exec", "syscall", "os/user", "os/signal":
		return "the system"
	case "io/ioutil", "path/filepath":
		switch f.Name() {
		case "ReadFile", "WriteFile", "ReadDir", "TempFile", "TempDir", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return "files"
		}
	case "github.com/howeyc/gopass", "golang.org/x/crypto/ssh/terminal":
		return "the terminal"
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until":
			return "the time"
		}
	case "runtime", "hash/maphash":
		return f.Pkg.Pkg.Path()
	case "os":
		switch f.Name() {
		case "Getpid", "Getppid", "Hostname", "Getenv", "LookupEnv", "Environ":
			return "the environment"
		case "IsNotExist", "IsExist", "IsPermission", "NewFile":
		case "Exit":
			return "the end of the program"
		default:
			return "files"
		}
	case "math/rand", "math/rand/v2":
		return "chance"
	}
	return ""
}

// outside: what the functions of the interface may depend on, or reach, but
// for their arguments
func outside(f *ssa.Function) (allowed map[string]bool) {
	set := func(s ...string) map[string]bool {
		m := map[string]bool{}
		for _, x := range s {
			m[x] = true
		}
		return m
	}
	n := f.Name()
	if f.Signature.Recv() != nil {
		return nil
	}
	switch {
	case strings.HasPrefix(n, "Rand"), n == "MPHBuild", n == "ECDSASign",
		n == "NewHash", n == "NewCustomHash", n == "NewHashMap", n == "NewCustomHashMap", n == "NewHashSet", n == "NewCustomHashSet":
		return set("chance")
	case n == "ECDSAGenerateKey":
		return set("chance", "the terminal")
	case strings.HasPrefix(n, "LCSetLogger"):
		return set("files", "the log", "the environment", "the terminal")
	case strings.HasPrefix(n, "LCSaveKeyPair"):
		return set("chance", "files", "the terminal")
	case strings.HasPrefix(n, "LCExist"), strings.HasPrefix(n, "LCLoad"):
		return set("files", "the terminal")
	case strings.HasPrefix(n, "Prompt"):
		return set("the terminal", "files")
	case n == "Open" || n == "Write" || n == "Sync" || n == "Close":
		return set("files")
	}
	return nil
}

func init() {
	register("P02", "effect analysis over the call graph: no exported function or method of util and collection reaches a source of chance, the time, the environment, the order of a map, the schedule, an address, the terminal, the log or files, but for those whose purpose it is", func(c *Check) {
		ch := c.chances()
		pure := 0
		for _, f := range c.r.everyFunc() {
			if f.Pkg == nil || f.Pkg != c.r.pkgs["util"] && f.Pkg != c.r.pkgs["collection"] || f.Parent() != nil {
				continue
			}
			c.fns[f] = true
			if f.Object() == nil || !f.Object().Exported() {
				continue
			}
			ok := outside(f)
			bad := map[string]string{}
			for w, p := range ch[f] {
				if !ok[w] {
					bad[w] = p
				}
			}
			if ok == nil {
				pure++
			}
			c.oblige("arguments-only", fname(f), len(bad) == 0, func() string { return "it depends on, or reaches, " + chancesOf(bad) })
		}
		c.items["functions_without_effects"] = pure
		c.min["arguments-only"] = 300
	})
}

func (c *Check) chances() map[*ssa.Function]map[string]string {
	out := map[*ssa.Function]map[string]string{}
	fs := c.r.everyFunc()
	in := map[*ssa.Function]bool{}
	for _, f := range fs {
		in[f] = true
		out[f] = map[string]string{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if w := chance(i); w != "" {
					out[f][w] = c.r.pos(i.Pos())
				}
			}
		}
	}
	for more := true; more; {
		more = false
		for _, f := range fs {
			add := func(g *ssa.Function) {
				for w, p := range out[g] {
					if _, ok := out[f][w]; !ok {
						out[f][w] = p
						more = true
					}
				}
			}
			for _, a := range f.AnonFuncs {
				add(a)
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil && in[g] {
						add(g)
						continue
					}
					for _, g := range c.r.callees(ci) {
						if in[g] {
							add(g)
						}
					}
				}
			}
		}
	}
	return out
}

func chancesOf(m map[string]string) string {
	var ks []string
	for k, p := range m {
		ks = append(ks, k+" at "+p)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
