package main

import "golang.org/x/tools/go/ssa"

type blockT = ssa.BasicBlock

func (res *Result) addCov(p *Program, b *blockT) {
	if !p.inRepo(b.Parent()) {
		return
	}
	if res.cov == nil {
		res.cov = map[*ssa.Function]map[int]bool{}
	}
	f := b.Parent()
	if res.cov[f] == nil {
		res.cov[f] = map[int]bool{}
	}
	res.cov[f][b.Index] = true
}
