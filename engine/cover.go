package main

import (
	"bufio"
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Development aid: with GOSYMX_COVER=FILE set, the blocks of the code under
// test that no path entered are listed in FILE.

var cover = map[string][]bool{}
var coverPos = map[string][]string{}

func (c *Ctx) addCover() {
	if os.Getenv("GOSYMX_COVER") == "" {
		return
	}
	for fn, fi := range c.infos {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/jart/gosip/") || strings.Contains(fn.Pkg.Pkg.Path(), "/zzv") {
			continue
		}
		if cover[fi.name] == nil {
			cover[fi.name] = make([]bool, len(fn.Blocks))
			var ps []string
			for _, b := range fn.Blocks {
				ps = append(ps, blockPos(c, b))
			}
			coverPos[fi.name] = ps
		}
		for i, s := range fi.seen {
			if s {
				cover[fi.name][i] = true
			}
		}
	}
}

func blockPos(c *Ctx, b *ssa.BasicBlock) string {
	eff := false
	pos := token.NoPos
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Store, *ssa.Call, *ssa.Return, *ssa.Panic, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Select:
			eff = true
			if pos == token.NoPos {
				pos = in.Pos()
			}
		}
	}
	if !eff {
		return ""
	}
	p := c.l.prog.Fset.PositionFor(pos, false)
	return fmt.Sprintf("%s:%d %s", p.Filename, p.Line, b.Comment)
}

func writeCover() {
	f := os.Getenv("GOSYMX_COVER")
	if f == "" {
		return
	}
	w, err := os.Create(f)
	if err != nil {
		return
	}
	defer w.Close()
	b := bufio.NewWriter(w)
	defer b.Flush()
	var names []string
	for n := range cover {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i, s := range cover[n] {
			if p := coverPos[n][i]; p != "" {
				fmt.Fprintf(b, "%v\t%s\t%d\t%s\n", s, n, i, p)
			}
		}
	}
}
