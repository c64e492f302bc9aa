package main

// The call graph by variable type analysis: which methods an interface call
// can reach, given the types that flow to it within the repository.

import (
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
)

var vtaGraph *callgraph.Graph

func (r *Repo) callees(site ssa.CallInstruction) []*ssa.Function {
	if vtaGraph == nil {
		fs := map[*ssa.Function]bool{}
		for _, f := range r.funcs {
			fs[f] = true
		}
		g := vta.CallGraph(fs, cha.CallGraph(r.prog))
		vtaGraph = vta.CallGraph(fs, g)
	}
	n := vtaGraph.Nodes[site.Parent()]
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for _, e := range n.Out {
		if e.Site == site {
			out = append(out, e.Callee.Func)
		}
	}
	return out
}
