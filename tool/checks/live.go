package checks

import "golang.org/x/tools/go/ssa"

// liveness computes, per block, the values live on entry (after phis).
type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

var liveMemo = map[*ssa.Function]*liveness{}

func liveOf(f *ssa.Function) *liveness {
	if l := liveMemo[f]; l != nil {
		return l
	}
	l := &liveness{map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range l.in[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					live[p.Edges[pi]] = true
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			// phis of b that are live stay in the set so that users can test them
			for v := range live {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	liveMemo[f] = l
	return l
}
