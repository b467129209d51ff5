package hz

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// A dictionary for the generators, as fuzzers have it: the constants which the
// code under test has and the code these generators were tuned on has not. Many
// a defect needs one length, number, count or name to show, and if so that is
// likely to be written in the code. The dictionary only steers what is
// generated; no verdict depends on it. It is empty for the original code.

//go:embed dict_base.txt
var dictBase string

type dictionary struct {
	ints []uint64
	strs []string
}

var dict = sync.OnceValue(func() (d dictionary) {
	dir := os.Getenv("HZ_REPO")
	if dir == "" {
		return
	}
	now := Constants(dir)
	for _, l := range strings.Split(dictBase, "\n") {
		if s, n, ok := cutLast(l, " "); ok {
			c, _ := strconv.Atoi(n)
			now[s] -= c
		}
	}
	var keys []string
	for k, n := range now {
		if n > 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	seen := map[uint64]bool{}
	for _, k := range keys {
		s, err := strconv.Unquote(k)
		if err == nil {
			d.strs = append(d.strs, s)
			continue
		}
		v, err := strconv.ParseUint(k, 10, 64)
		xs := []uint64{v, v - 1, v + 1}
		if v < 64 { // a number of bits?
			xs = append(xs, 1<<v, 1<<v-1, 1<<v+1)
		}
		for _, x := range xs {
			if err == nil && !seen[x] {
				seen[x] = true
				d.ints = append(d.ints, x)
			}
		}
	}
	return
})

func cutLast(s, sep string) (string, string, bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

// Constants counts the constants in the sources below dir: numbers of at least
// six in decimal, strings in quotes.
func Constants(dir string) map[string]int {
	count := map[string]int{}
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			if s := constant.StringVal(v); s != "" && len(s) <= 40 {
				count[strconv.Quote(s)]++
			}
		case constant.Int:
			if x, ok := constant.Int64Val(v); ok && x < 0 {
				v = constant.MakeInt64(-x)
			}
			if x, ok := constant.Uint64Val(v); ok && x >= 6 {
				count[strconv.FormatUint(x, 10)]++
			}
		case constant.Float:
			if x, _ := constant.Float64Val(v); !math.IsInf(x, 0) {
				count[strconv.FormatUint(math.Float64bits(x), 10)]++
			}
		}
	}
	filepath.WalkDir(dir, func(path string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			if err == nil && strings.HasPrefix(e.Name(), ".git") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.HasSuffix(path, ".pb.go") {
			return nil
		}
		file, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					n.Tag = nil
				}
			case ast.Expr:
				if v := fold(n); v != nil {
					note(v)
					_, leaf := n.(*ast.BasicLit)
					return !leaf
				}
			}
			return true
		})
		return nil
	})
	return count
}

var mathConsts = map[string]constant.Value{
	"MaxInt8": constant.MakeInt64(math.MaxInt8), "MaxUint8": constant.MakeInt64(math.MaxUint8),
	"MaxInt16": constant.MakeInt64(math.MaxInt16), "MaxUint16": constant.MakeInt64(math.MaxUint16),
	"MaxInt32": constant.MakeInt64(math.MaxInt32), "MaxUint32": constant.MakeInt64(math.MaxUint32),
	"MaxInt64": constant.MakeInt64(math.MaxInt64), "MaxUint64": constant.MakeUint64(math.MaxUint64), "MaxInt": constant.MakeInt64(math.MaxInt64),
	"MinInt8": constant.MakeInt64(math.MinInt8), "MinInt16": constant.MakeInt64(math.MinInt16), "MinInt32": constant.MakeInt64(math.MinInt32),
}

// fold computes an expression made of literals; nil if it is something else.
func fold(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil { // a shift or division go/constant refuses
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.IMAG {
			return nil
		}
		if v := constant.MakeFromLiteral(e.Value, e.Kind, 0); v.Kind() != constant.Unknown {
			return v
		}
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Name == "math" {
			if v, ok := mathConsts[e.Sel.Name]; ok {
				return v
			}
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 64 && x.Kind() == constant.Int {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// PrintConstants writes the constants below dir in the form of dict_base.txt.
func PrintConstants(dir string) {
	var ls []string
	for k, n := range Constants(dir) {
		ls = append(ls, fmt.Sprint(k, " ", n))
	}
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, "\n"))
}

// dictInt draws a number in [lo, hi] from the dictionary, in about n of 1000
// cases. Where the dictionary has none it draws nothing.
func dictInt(t *rapid.T, n, lo, hi int) (int, bool) {
	var xs []int
	for _, x := range dict().ints {
		if x >= uint64(lo) && x <= uint64(hi) {
			xs = append(xs, int(x))
		}
	}
	if len(xs) == 0 || intn(t, 0, 999) < 1000-n {
		return 0, false
	}
	return pick(t, xs), true
}

// dictBits draws a 64-bit value from the dictionary.
func dictBits(t *rapid.T, k Kind) (uint64, bool) {
	if len(dict().ints) == 0 || !chance(t, 10) {
		return 0, false
	}
	v := pick(t, dict().ints)
	if chance(t, 15) {
		v = -v
	}
	switch {
	case k == KFloat && chance(t, 70):
		v = uint64(math.Float32bits(float32(int64(v))))
	case k == KDouble && chance(t, 70):
		v = math.Float64bits(float64(int64(v)))
	}
	return v, true
}

// dictStr draws a string from the dictionary.
func dictStr(t *rapid.T, n int) (string, bool) {
	if len(dict().strs) == 0 || !chance(t, n) {
		return "", false
	}
	return pick(t, dict().strs), true
}

// dictName draws a string from the dictionary which is a name in .proto files.
func dictName(t *rapid.T, n int) (string, bool) {
	var xs []string
	for _, s := range dict().strs {
		if s = strings.Trim(s, "., :/"); isName(s) {
			xs = append(xs, s)
		}
	}
	if len(xs) == 0 || !chance(t, n) {
		return "", false
	}
	return pick(t, xs), true
}

func isName(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return strings.Trim(s, "_") != ""
}
