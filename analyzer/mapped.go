package main

// The decoders of the repository and what can be done with the objects they
// return, for the checks that quantify over all of them.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type decoderSpec struct {
	name    string // the decoder
	typ     string // the type of the object it makes
	obj     int    // result index of the object
	errIdx  int
	bufF    string // the field that holds the bytes, if any
	decode  string // a decoding step that follows, if any
	nested  func(x *Exec)
	iface   string
	noDecod bool
}

var decoderSpecs = []decoderSpec{
	{name: "util.NewMappedKey", typ: "util.MappedKey", errIdx: 2, iface: "IKey"},
	{name: "util.NewSimpleMappedValue", typ: "util.SimpleMappedValue", errIdx: 2, iface: "IValue"},
	{name: "util.NewStandardMappedValue", typ: "util.StandardMappedValue", errIdx: 2, iface: "IValue"},
	{name: "util.NewMappedRecord", typ: "util.MappedRecord", errIdx: 2, iface: "IRecord", nested: func(x *Exec) {
		decoderContract(x, "util.NewMappedKey", 0, nil)
		decoderContract(x, "util.NewStandardMappedValue", 1, nil)
		decoderContract(x, "util.NewSimpleMappedValue", 0, nil)
	}},
	{name: "util.NewMappedSchemd", typ: "util.MappedScheme", errIdx: -1, decode: "util.MappedScheme.Decode"},
	{name: "util.NewConsensusTime", errIdx: 1},
	{name: "util.NewMappedConsensusID", typ: "util.MappedConsensusID", errIdx: 1},
	{name: "util.NewMPHTable", typ: "util.MPHTable", errIdx: 2, nested: func(x *Exec) {
		decoderContract(x, "util.NewMappedKey", 1, nil)
	}},
}

// componentContracts stand for the components of a decoded object, when its
// methods are analysed
func componentContracts(x *Exec) {
	copyContract(x, "IKey", "IValue", "IRecord")
	copyContractOf(x, "MappedKey", "IKey")
	copyContractOf(x, "StandardMappedValue", "IValue")
	copyContractOf(x, "SimpleMappedValue", "IValue")
	copyContractOf(x, "MappedRecord", "IRecord")
}

// eachDecoded analyses every decoder on arbitrary bytes; f sees every result
// that is no error
func (c *Check) eachDecoded(prep func(x *Exec), f func(x *Exec, d decoderSpec, st *State, obj Value, T types.Type, buf VSlice)) {
	for _, d := range decoderSpecs {
		x := newExec(c.r)
		if prep != nil {
			prep(x)
		}
		if d.nested != nil {
			d.nested(x)
		}
		buf := c.symBytes("buf")
		use := func(s *State, v Value) {
			switch a := v.(type) {
			case VPtr:
				if s.isNil(a) == -1 {
					c.ok("decoded", d.name)
					f(x, d, s, a, types.NewPointer(c.r.typ(d.typ)), buf)
				}
			case VIface:
				c.ok("decoded", d.name+" "+typeKey(a.T))
				f(x, d, s, a.V, a.T, buf)
			}
		}
		for _, o := range c.call(x, newState(), d.name, buf) {
			if d.errIdx >= 0 && o.st.isNil(o.rets[d.errIdx]) == -1 {
				continue
			}
			if d.decode == "" {
				use(o.st, o.rets[d.obj])
				continue
			}
			for _, e := range c.call(x, o.st, d.decode, o.rets[0], VNil{}) {
				if e.st.isNil(e.rets[1]) != -1 {
					use(e.st, o.rets[0])
				}
			}
		}
		c.absorb(x)
	}
}

// methodsOf lists the methods with a body of a type of the repository
func (c *Check) methodsOf(T types.Type) []*ssa.Function {
	ms := c.r.prog.MethodSets.MethodSet(T)
	var r []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if f := c.r.prog.MethodValue(ms.At(i)); f != nil && f.Blocks != nil && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	return r
}

// symArgs are arbitrary arguments for the parameters of fn after the receiver
func (c *Check) symArgs(fn *ssa.Function) []Value {
	var r []Value
	for _, p := range fn.Params[1:] {
		r = append(r, c.sym("arg:"+p.Name(), p.Type()))
	}
	return r
}

// argsOf are arbitrary arguments for all parameters of fn
func (c *Check) argsOf(fn *ssa.Function) []Value {
	var r []Value
	for _, p := range fn.Params {
		r = append(r, c.sym("arg:"+p.Name(), p.Type()))
	}
	return r
}
