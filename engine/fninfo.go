package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches the control-flow facts of one function.
type FnInfo struct {
	fn     *ssa.Function
	reg    map[ssa.Value]int
	nreg   int
	rpo    []int   // block index -> rpo number
	loops  [][]int // block index -> enclosing loop headers (block indices), outermost first
	livein [][]bool
	first  []int // first non-phi instruction
}

var fnCache sync.Map

func fnInfo(fn *ssa.Function) *FnInfo {
	if v, ok := fnCache.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := buildInfo(fn)
	v, _ := fnCache.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.reg[v] = fi.nreg; fi.nreg++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	n := len(fn.Blocks)
	fi.first = make([]int, n)
	for _, b := range fn.Blocks {
		f := 0
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
		for f < len(b.Instrs) {
			if _, ok := b.Instrs[f].(*ssa.Phi); !ok {
				break
			}
			f++
		}
		fi.first[b.Index] = f
	}
	// reverse post order
	fi.rpo = make([]int, n)
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs2 := post
		post = nil
		dfs(fn.Recover)
		post = append(post, dfs2...)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// natural loops
	body := map[int]map[int]bool{}
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, h := range b.Succs {
			if h.Dominates(b) {
				set := body[h.Index]
				if set == nil {
					set = map[int]bool{h.Index: true}
					body[h.Index] = set
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if set[x.Index] {
						continue
					}
					set[x.Index] = true
					for _, p := range x.Preds {
						if seen[p.Index] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	fi.loops = make([][]int, n)
	for _, b := range fn.Blocks {
		var hs []int
		for h, set := range body {
			if set[b.Index] {
				hs = append(hs, h)
			}
		}
		// outermost first: larger body first, ties by rpo
		for i := 1; i < len(hs); i++ {
			for j := i; j > 0; j-- {
				a, c := hs[j-1], hs[j]
				if len(body[c]) > len(body[a]) || len(body[c]) == len(body[a]) && fi.rpo[c] < fi.rpo[a] {
					hs[j-1], hs[j] = c, a
				}
			}
		}
		fi.loops[b.Index] = hs
	}
	// liveness
	use := make([][]bool, n)
	def := make([][]bool, n)
	fi.livein = make([][]bool, n)
	phiUse := make([]map[int][]int, n) // block -> pred index -> regs
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		i := b.Index
		use[i] = make([]bool, fi.nreg)
		def[i] = make([]bool, fi.nreg)
		fi.livein[i] = make([]bool, fi.nreg)
		phiUse[i] = map[int][]int{}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for k, v := range p.Edges {
					if r, ok := fi.reg[v]; ok {
						phiUse[i][k] = append(phiUse[i][k], r)
					}
				}
			} else {
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if r, ok := fi.reg[*o]; ok && !def[i][r] {
						use[i][r] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][fi.reg[v]] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for k := len(post) - 1; k >= 0; k-- {
			b := fn.Blocks[post[len(post)-1-k]]
			i := b.Index
			out := make([]bool, fi.nreg)
			for _, s := range b.Succs {
				for r, l := range fi.livein[s.Index] {
					if l {
						out[r] = true
					}
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, r := range phiUse[s.Index][pi] {
							out[r] = true
						}
					}
				}
			}
			for r := range out {
				l := use[i][r] || out[r] && !def[i][r]
				if l && !fi.livein[i][r] {
					fi.livein[i][r] = true
					changed = true
				}
			}
		}
	}
	// phi results are live at block entry for merging purposes
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if len(*p.Referrers()) > 0 {
				fi.livein[b.Index][fi.reg[p]] = true
			}
		}
	}
	return fi
}
