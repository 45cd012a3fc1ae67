package exec

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is the static information the executor needs about a function.
type fnInfo struct {
	n     int
	num   map[ssa.Value]int
	ipdom []int    // immediate post-dominator block index, -1 = exit
	live  [][]bool // registers live after the phis of each block
}

type infoCache struct {
	mu sync.Mutex
	m  map[*ssa.Function]*fnInfo
}

func (c *infoCache) get(fn *ssa.Function) *fnInfo {
	c.mu.Lock()
	defer c.mu.Unlock()
	if i, ok := c.m[fn]; ok {
		return i
	}
	i := buildInfo(fn)
	c.m[fn] = i
	return i
}

func buildInfo(fn *ssa.Function) *fnInfo {
	in := &fnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) { in.num[v] = in.n; in.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	in.ipdom = postdom(fn)
	// liveness
	use := make([][]bool, nb) // upward exposed, excluding phis
	def := make([][]bool, nb)
	phiDef := make([][]int, nb)
	for bi, b := range fn.Blocks {
		use[bi], def[bi] = make([]bool, in.n), make([]bool, in.n)
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				phiDef[bi] = append(phiDef[bi], in.num[ph])
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := in.num[*op]; ok && !def[bi][k] {
					use[bi][k] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[bi][in.num[v]] = true
			}
		}
	}
	in.live = make([][]bool, nb)
	for i := range in.live {
		in.live[i] = make([]bool, in.n)
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			lv := in.live[bi]
			set := func(k int) {
				if !lv[k] {
					lv[k] = true
					ch = true
				}
			}
			for k, u := range use[bi] {
				if u {
					set(k)
				}
			}
			for _, s := range b.Succs {
				isPhi := map[int]bool{}
				for _, k := range phiDef[s.Index] {
					isPhi[k] = true
				}
				for k, l := range in.live[s.Index] {
					if l && !isPhi[k] && !def[bi][k] {
						set(k)
					}
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p != b {
							continue
						}
						_ = pi
						if k, ok := in.num[ph.Edges[j]]; ok && !def[bi][k] {
							set(k)
						}
					}
				}
			}
		}
	}
	return in
}

// postdom computes the places where paths are joined: immediate
// post-dominators in the control-flow graph that keeps one return block only.
// (Paths through the other returns leave the function and are joined with the
// rest at the call.) The kept return is the one that gives most joins; which
// one it is affects how much is merged, never what is explored.
func postdom(fn *ssa.Function) []int {
	var rets []int
	for i, b := range fn.Blocks {
		if n := len(b.Instrs); n > 0 && b != fn.Recover {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				rets = append(rets, i)
			}
		}
	}
	var best []int
	bestN := -1
	pos := func(b int) int {
		in := fn.Blocks[b].Instrs
		p := int(in[len(in)-1].Pos())
		if p == 0 {
			p = 1 << 60
		}
		return p
	}
	bestPos := 0
	for _, k := range rets {
		pd := postdom1(fn, k)
		n := 0
		for i, b := range fn.Blocks {
			if len(b.Succs) > 1 && pd[i] >= 0 {
				n++
			}
		}
		if n > bestN || n == bestN && pos(k) > bestPos {
			best, bestN, bestPos = pd, n, pos(k)
		}
	}
	if best == nil {
		best = make([]int, len(fn.Blocks))
		for i := range best {
			best[i] = -1
		}
	}
	return best
}

func postdom1(fn *ssa.Function, keep int) []int {
	nb := len(fn.Blocks)
	exit := nb
	succs := make([][]int, nb+1)
	preds := make([][]int, nb+1)
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.Succs) == 0 {
			if i == keep {
				succs[i] = append(succs[i], exit)
			}
		}
	}
	for i, ss := range succs {
		for _, s := range ss {
			preds[s] = append(preds[s], i)
		}
	}
	reach := func() []bool {
		seen := make([]bool, nb+1)
		st := []int{exit}
		seen[exit] = true
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, p := range preds[x] {
				if !seen[p] {
					seen[p] = true
					st = append(st, p)
				}
			}
		}
		return seen
	}
	// order: reverse postorder of the reverse CFG from exit
	seen := reach()
	var order []int
	vis := make([]bool, nb+1)
	var dfs func(x int)
	dfs = func(x int) {
		vis[x] = true
		for _, p := range preds[x] {
			if !vis[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	pos := make([]int, nb+1)
	for i, x := range order {
		pos[x] = i
	}
	idom := make([]int, nb+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for pos[a] < pos[b] {
				a = idom[a]
			}
			for pos[b] < pos[a] {
				b = idom[b]
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for k := len(order) - 1; k >= 0; k-- {
			x := order[k]
			if x == exit {
				continue
			}
			n := -1
			for _, s := range succs[x] {
				if !seen[s] || idom[s] == -1 {
					continue
				}
				if n == -1 {
					n = s
				} else {
					n = inter(n, s)
				}
			}
			if n != idom[x] {
				idom[x] = n
				ch = true
			}
		}
	}
	out := make([]int, nb)
	for i := range out {
		out[i] = idom[i]
		if out[i] == exit {
			out[i] = -1
		}
	}
	return out
}
