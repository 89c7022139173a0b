// Package dict reads the constants out of the source that is being checked: numbers, durations and strings.
// The workloads use them as sizes, counts, pauses and texts, together with values next to them. A limit
// or a special case that is written down in the code is met that way, wherever it is. What the source looks
// like has no influence on the verdict.
package dict

import (
	"cmp"
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"math/rand/v2"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

type Dict struct {
	Ints      []int64
	Durations []time.Duration
	Strings   []string

	// what has come to the source since the harness was written is tried more often.
	New *Dict
}

// Counts is how often each constant is in the source.
type Counts struct {
	Ints      map[int64]int
	Durations map[time.Duration]int
	Strings   map[string]int
}

//go:embed known.json
var known []byte

// Root returns the directory of the source that this was built from.
func Root() string {
	pc := reflect.ValueOf(proxy.ParseId).Pointer()
	file, _ := runtime.FuncForPC(pc).FileLine(pc)
	return filepath.Dir(filepath.Dir(file))
}

// Get returns the constants of the source.
var Get = sync.OnceValue(func() *Dict {
	var before Counts
	json.Unmarshal(known, &before)
	c := Read(Root())
	d := &Dict{Ints: more(c.Ints, nil), Durations: more(c.Durations, nil), Strings: more(c.Strings, nil)}
	d.New = &Dict{Ints: more(c.Ints, before.Ints), Durations: more(c.Durations, before.Durations), Strings: more(c.Strings, before.Strings)}
	return d
})

// more returns what is there more often than before.
func more[K cmp.Ordered](now, before map[K]int) (res []K) {
	for k, n := range now {
		if n > before[k] {
			res = append(res, k)
		}
	}
	slices.Sort(res)
	return res
}

var units = map[string]time.Duration{"Nanosecond": 1, "Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour}

// Read collects the constants of all source files below the directory.
func Read(root string) Counts {
	var files []*ast.File
	filepath.WalkDir(root, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() && path != root && (strings.HasPrefix(e.Name(), ".") || e.Name() == "vendor" || e.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !e.IsDir() && strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") && !strings.HasPrefix(e.Name(), "hooks_") {
			if f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0); err == nil {
				files = append(files, f)
			}
		}
		return nil
	})
	consts := map[string]constant.Value{}
	durs := map[string]bool{}
	// the value of an expression, and whether it is a duration
	var eval func(e ast.Expr, depth int) (constant.Value, bool)
	eval = func(e ast.Expr, depth int) (v constant.Value, dur bool) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		if depth > 20 {
			return nil, false
		}
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind == token.CHAR {
				return nil, false
			}
			return constant.MakeFromLiteral(e.Value, e.Kind, 0), false
		case *ast.ParenExpr:
			return eval(e.X, depth+1)
		case *ast.Ident:
			return consts[e.Name], durs[e.Name]
		case *ast.SelectorExpr:
			if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" && units[e.Sel.Name] != 0 {
				return constant.MakeInt64(int64(units[e.Sel.Name])), true
			}
		case *ast.CallExpr:
			// a conversion
			if len(e.Args) == 1 {
				if id, ok := e.Fun.(*ast.Ident); ok && (strings.HasPrefix(id.Name, "int") || strings.HasPrefix(id.Name, "uint") || strings.HasPrefix(id.Name, "float")) {
					return eval(e.Args[0], depth+1)
				}
				if sel, ok := e.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Duration" {
					v, _ := eval(e.Args[0], depth+1)
					return v, true
				}
			}
		case *ast.UnaryExpr:
			v, dur := eval(e.X, depth+1)
			if v == nil || e.Op != token.SUB {
				return nil, false
			}
			return constant.UnaryOp(e.Op, v, 0), dur
		case *ast.BinaryExpr:
			x, dx := eval(e.X, depth+1)
			y, dy := eval(e.Y, depth+1)
			if x == nil || y == nil {
				return nil, false
			}
			switch e.Op {
			case token.SHL, token.SHR:
				n, _ := constant.Uint64Val(constant.ToInt(y))
				return constant.Shift(constant.ToInt(x), e.Op, uint(min(n, 64))), dx
			case token.QUO:
				if x.Kind() == constant.Int && y.Kind() == constant.Int {
					return constant.BinaryOp(x, token.QUO_ASSIGN, y), dx && !dy
				}
				return constant.BinaryOp(x, e.Op, y), dx && !dy
			case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR:
				return constant.BinaryOp(x, e.Op, y), dx || dy
			}
		}
		return nil, false
	}
	// constants can refer to later ones
	for range 3 {
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.ValueSpec); ok {
					for i, name := range s.Names {
						if i < len(s.Values) {
							if v, dur := eval(s.Values[i], 0); v != nil {
								consts[name.Name], durs[name.Name] = v, dur
							}
						}
					}
				}
				return true
			})
		}
	}
	res := Counts{map[int64]int{}, map[time.Duration]int{}, map[string]int{}}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr:
				// messages for humans
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if x, ok := sel.X.(*ast.Ident); ok && (x.Name == "log" || x.Name == "errors" || x.Name == "fmt" || x.Name == "logrus") {
						return false
					}
				}
			case *ast.Field:
				if n.Tag != nil {
					tag, _ := strconv.Unquote(n.Tag.Value)
					name, _, _ := strings.Cut(reflect.StructTag(tag).Get("json"), ",")
					if name != "" && name != "-" {
						res.Strings[name]++
					}
					return false
				}
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v, dur := eval(e, 0)
			if v == nil {
				return true
			}
			switch {
			case v.Kind() == constant.String:
				if s := constant.StringVal(v); len(s) <= 64 {
					res.Strings[s]++
				}
			case v.Kind() == constant.Int || v.Kind() == constant.Float:
				v = constant.ToInt(v)
				i, exact := constant.Int64Val(v)
				if v.Kind() != constant.Int || !exact || i == math.MinInt64 {
					return true
				}
				i = max(i, -i)
				if dur {
					res.Durations[time.Duration(i)]++
				} else if i > 0 {
					res.Ints[i]++
				}
			}
			return true
		})
	}
	return res
}

// pick returns the constants that pass, most often one of the new ones.
func pick[K any](r *rand.Rand, all, fresh []K, pass func(K) bool) (res K, ok bool) {
	keep := func(list []K) (res []K) {
		for _, k := range list {
			if pass(k) {
				res = append(res, k)
			}
		}
		return
	}
	if r.IntN(5) > 0 {
		if list := keep(fresh); len(list) > 0 {
			return list[r.IntN(len(list))], true
		}
	}
	if list := keep(all); len(list) > 0 {
		return list[r.IntN(len(list))], true
	}
	return
}

// Int returns a number from lo to hi that is in the source, or next to one that is. The second
// result tells if there is one.
func (d *Dict) Int(r *rand.Rand, lo, hi int) (int, bool) {
	i, ok := pick(r, d.Ints, d.New.Ints, func(i int64) bool { return i >= int64(max(lo-2, 0)) && i <= int64(hi)+2 })
	if !ok {
		return 0, false
	}
	n := int(i)
	switch r.IntN(6) {
	case 0:
		n--
	case 1, 2:
		n++
	case 3:
		n += 1 + r.IntN(n/8+2)
	case 4:
		n = n*(2+r.IntN(2)) + r.IntN(3) - 1
	}
	return min(max(n, lo), hi), true
}

// Duration returns a duration from lo to hi that is in the source, or one close to it.
func (d *Dict) Duration(r *rand.Rand, lo, hi time.Duration) (time.Duration, bool) {
	t, ok := pick(r, d.Durations, d.New.Durations, func(t time.Duration) bool { return t >= lo && t <= hi })
	if !ok {
		return 0, false
	}
	switch r.IntN(4) {
	case 0:
		t += time.Duration(r.Int64N(int64(t)/4 + 1))
	case 1:
		t -= time.Duration(r.Int64N(int64(t)/10 + 1))
	case 2:
		t += 10 * time.Millisecond
	}
	return min(max(t, lo), hi), true
}

// Fresh tells if there is a new number in the range.
func (d *Dict) Fresh(lo, hi int) bool {
	return slices.ContainsFunc(d.New.Ints, func(i int64) bool { return i >= int64(lo) && i <= int64(hi) })
}

// FreshStrings tells if there are new strings.
func (d *Dict) FreshStrings() bool { return len(d.New.Strings) > 0 }

// String returns a string of the source, or one that is similar to it.
func (d *Dict) String(r *rand.Rand) string {
	s, _ := pick(r, d.Strings, d.New.Strings, func(string) bool { return true })
	switch r.IntN(12) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s[:min(1, len(s))]) + s[min(1, len(s)):]
	case 3:
		return s + "x"
	}
	return s
}
