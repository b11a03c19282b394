package main

// Workload hints. The literals and constant expressions of the source under
// test are harvested and mixed into the generated inputs, so that a special
// case keyed on some constant is driven through the monitors. The hints choose
// inputs only; no verdict depends on them.

import (
	"encoding/json"
	"errors"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type noImport struct{}

func (noImport) Import(string) (*types.Package, error) { return nil, errors.New("no imports") }

// Dict holds harvested constants.
type Dict struct {
	U []uint64
	F []float64
}

func harvest(dirs ...string) *Dict {
	us := map[uint64]bool{}
	fs := map[float64]bool{}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if u, ok := constant.Uint64Val(v); ok {
				us[u] = true
			} else if i, ok := constant.Int64Val(v); ok {
				us[uint64(i)] = true
				us[uint64(-i)] = true
			}
			if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) {
				fs[f] = true
			}
		case constant.Float:
			f, _ := constant.Float64Val(v)
			if !math.IsInf(f, 0) {
				fs[f] = true
			}
		}
	}
	for _, dir := range dirs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || n == "gen.go" {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
			if err == nil {
				files = append(files, f)
			}
		}
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && (l.Kind == token.INT || l.Kind == token.FLOAT || l.Kind == token.CHAR) {
					add(constant.MakeFromLiteral(l.Value, l.Kind, 0))
				}
				return true
			})
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: noImport{}, Error: func(error) {}}
		_, _ = conf.Check("p", fset, files, info)
		for _, tv := range info.Types {
			if tv.Value != nil {
				add(tv.Value)
			}
		}
	}
	d := &Dict{}
	for u := range us {
		d.U = append(d.U, u)
	}
	for f := range fs {
		d.F = append(d.F, f)
	}
	sort.Slice(d.U, func(i, j int) bool { return d.U[i] < d.U[j] })
	sort.Float64s(d.F)
	if len(d.U) == 0 {
		d.U = []uint64{1}
	}
	if len(d.F) == 0 {
		d.F = []float64{1}
	}
	return d
}

func (d *Dict) Pick(r *RNG) uint64 {
	if len(d.U) == 0 {
		return r.U64()
	}
	u := d.U[r.N(len(d.U))]
	switch r.N(8) {
	case 0:
		return u + 1
	case 1:
		return u - 1
	case 2:
		return -u
	case 3:
		return ^u
	}
	return u
}

// small is a literal clamped to [lo, hi], or a random one if none fits soon.
func (d *Dict) Small(r *RNG, lo, hi int64) int64 {
	for i := 0; i < 8; i++ {
		v := int64(d.Pick(r))
		if v >= lo && v <= hi {
			return v
		}
	}
	return r.Range(lo, hi)
}

func (d *Dict) PickF(r *RNG) float64 {
	if len(d.F) == 0 {
		return float64(int64(r.U64()))
	}
	f := d.F[r.N(len(d.F))]
	switch r.N(6) {
	case 0:
		return -f
	case 1:
		return math.Nextafter(f, math.Inf(1))
	case 2:
		return math.Nextafter(f, math.Inf(-1))
	}
	return f
}

type hintRec struct{ U, F []uint64 }

func saveHints(path string) {
	if path == "" {
		return
	}
	out := map[string]hintRec{}
	for k, d := range dicts {
		h := hintRec{U: d.U}
		for _, f := range d.F {
			h.F = append(h.F, math.Float64bits(f))
		}
		out[k] = h
	}
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		panic(err)
	}
}

func loadHints(path string) bool {
	if path == "" {
		return false
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return false
	}
	in := map[string]hintRec{}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	for k, h := range in {
		d := &Dict{U: h.U}
		for _, f := range h.F {
			d.F = append(d.F, math.Float64frombits(f))
		}
		dicts[k] = d
	}
	return true
}
