package main

import (
	"fmt"
	"math"
	"strconv"
)

type RowsCase struct {
	Doc  *Doc  `json:"doc"`
	Rows []Row `json:"rows"`
}

func (c *RowsCase) Document() string { return render(c.Doc.xml()) }

var coefPool = []string{"1", "2", "0.5", "-1", "-0.25", "3.5", "0", "0.1", "-2", "10", "1e-3", "7"}
var bigCoefs = []string{"1e3", "-1e3", "1e5", "-1e5", "1e20", "-1e100", "750", "-750", "1e200"}

// term draws the terms of a regression table over the fields.
func (g G) table(fs []Field, hint Row, big int) RTable {
	t := RTable{Intercept: g.coef(big)}
	var nums, cats []Field
	for _, f := range fs {
		switch f.Type {
		case "double", "float", "integer":
			nums = append(nums, f)
		}
		if f.Type == "string" || f.Type == "boolean" || f.Type == "integer" {
			cats = append(cats, f)
		}
	}
	nn, nc := g.n(4), g.n(4)
	if g.chance(2) {
		nn = g.large(140)
	}
	if g.chance(2) {
		nc = g.large(140)
	}
	if len(nums) > 0 {
		for i := nn; i > 0; i-- {
			p := NumP{Name: pick(g, nums).Name, Coef: g.coef(big)}
			if g.chance(40) {
				p.Exp = pick(g, []string{"1", "2", "3", "0", "2", "-1", "4", "-2", "5"})
				if g.chance(10) {
					p.Exp = pick(g, []string{"6", "7", "11", "32", "64", "100", "127", "128", "129", "200", "255", "256", "257", "-127", "-128", "-129", "300", "1001", "-256"})
				}
			}
			t.Num = append(t.Num, p)
		}
	}
	if len(cats) > 0 {
		for i := nc; i > 0; i-- {
			f := pick(g, cats)
			v := g.value(f.Type)
			if h, ok := hint[f.Name]; ok && h.Rep != "nil" && g.chance(50) {
				v = h.Text
			}
			dup := false
			for _, c := range t.Cat {
				dup = dup || c.Name == f.Name && c.Value == v
			}
			if !dup || g.chance(20) {
				t.Cat = append(t.Cat, CatP{Name: f.Name, Value: v, Coef: g.coef(big)})
			}
		}
	}
	return t
}

func (g G) coef(big int) string {
	if g.chance(big) {
		return pick(g, bigCoefs)
	}
	return pick(g, coefPool)
}

var regNorms = []string{"", "none", "logit", "softmax", "exp", "cloglog", "cauchit"}

func (g G) outName() string {
	return pick(g, []string{"out", "predicted value", "p(é)", "score", "y&z", "result"})
}

// tamedRow draws a row without the values whose text has several spellings.
func (g G) rowsFrom(fs []Field, hint Row, n, miss int) []Row {
	rows := []Row{hint}
	for i := 1; i < n; i++ {
		if g.chance(60) {
			rows = append(rows, g.near(hint, fs, miss))
		} else {
			rows = append(rows, g.row(fs, miss))
		}
	}
	return rows
}

func init() {
	register("P11",
		"A random regression-function regression model (0-3 numeric predictors with exponents -2 to 5, 0-3 categorical predictors, rarely up to 70 of either, every supported normalization or none) and 5 rows, some with missing or large values, held in any Go type; compared to the reference formula with a tolerance scaled by the size of the terms. Non-trivial: at least two terms contribute for some row, or a missing numeric input must be reported.",
		2500, 120000,
		gen(func(g G) *RowsCase {
			fs := g.fields(g.between(1, 4), "double", "integer", "string", "float", "boolean")
			miss := g.n(2) * 15
			hint := g.row(fs, miss)
			m := &Model{Kind: "reg", Function: "regression", Schema: schemaFor(fs, ""), Outputs: []Output{{Name: g.outName(), Type: "double"}}}
			m.Reg = &Reg{Norm: pick(g, regNorms), Tables: []RTable{g.table(fs, hint, 3)}}
			return &RowsCase{Doc: &Doc{Fields: fs, Models: []*Model{m}}, Rows: g.rowsFrom(fs, hint, 5, miss)}
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			m := c.Doc.Models[0]
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, ri int) {
				vals := refRow(c.Doc, c.Rows[ri])
				n := 0
				for _, p := range m.Reg.Tables[0].Num {
					if v := vals[p.Name]; !v.missing() && v.N != 0 {
						n++
						if p.Exp != "" && p.Exp != "1" {
							cl["exponent"] = true
						}
					}
				}
				for _, p := range m.Reg.Tables[0].Cat {
					if v := vals[p.Name]; !v.missing() && v.text() == p.Value {
						n++
						cl["categorical"] = true
					}
				}
				if o.Err != "" {
					cl["missing input"] = true
				}
				if n >= 2 || o.Err != "" {
					res.Nontrivial = true
				}
			})
			cl["norm "+m.Reg.Norm] = true
			res.Classes = classes(cl)
			return res
		})

	register("P12",
		"A random classification regression model (2-5 classes, rarely up to 70; softmax, simplemax, or for two classes logit, cauchit, cloglog or none; output fields in any order, now and then one missing or doubled; coefficients and inputs up to 1e200) and 5 rows. Each probability is compared to the reference formula; except under simplemax and none they must be finite, in [0,1] and sum to 1 even when the scores are huge. Non-trivial: the linear scores differ between classes.",
		2500, 120000,
		gen(func(g G) *RowsCase {
			fs := g.fields(g.between(1, 3), "double", "integer", "string", "float")
			hint := g.row(fs, 0)
			classes := pick(g, [][]string{{"yes", "no"}, {"a", "b", "c"}, {"1", "0"}, {"p", "q", "r", "s", "t"}, {"é&", "<b"}, {"yes", "no"}})
			if g.chance(3) {
				classes = manyClasses(g.large(70))
			}
			norm := pick(g, []string{"softmax", "simplemax", "softmax"})
			if len(classes) == 2 && g.chance(60) {
				norm = pick(g, []string{"logit", "cauchit", "cloglog", "logit", "cauchit", "cloglog", "none", ""})
			}
			big := g.n(2) * 30
			m := &Model{Kind: "reg", Function: "classification", Schema: schemaFor(fs, "class"), Reg: &Reg{Norm: norm}}
			for i, cl := range classes {
				t := g.table(fs, hint, big)
				if norm != "softmax" && norm != "simplemax" && i > 0 {
					t = RTable{Intercept: "0"}
				}
				t.Category = cl
				m.Reg.Tables = append(m.Reg.Tables, t)
			}
			if norm == "simplemax" && g.chance(40) { // scores of any size
				by := pick(g, []int{-150, -60, -30, -30, 30, 60})
				for i := range m.Reg.Tables {
					for _, s := range m.Reg.Tables[i].scores() {
						if v, ok := times(*s, by); ok {
							*s = v
						}
					}
				}
			}
			for _, i := range g.perm(len(classes)) {
				name := "probability(" + classes[i] + ")"
				if g.chance(30) {
					name = fmt.Sprintf("p%d", i)
				}
				if g.chance(8) && len(m.Outputs) > 0 {
					continue // not every class need be asked for
				}
				m.Outputs = append(m.Outputs, Output{Name: name, Type: "double", Feature: "probability", Value: classes[i]})
				if g.chance(5) { // and one may be asked for twice
					m.Outputs = append(m.Outputs, Output{Name: name + " again", Type: "double", Feature: "probability", Value: classes[i]})
				}
			}
			rows := g.rowsFrom(fs, hint, 5, 0)
			if g.chance(10) {
				rows = append(rows, g.row(fs, 40))
			}
			d := &Doc{Fields: append(append([]Field{}, fs...), Field{Name: "class", Type: "string"}), Models: []*Model{m}}
			return &RowsCase{Doc: d, Rows: rows}
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			m := c.Doc.Models[0]
			_, ms := load(c.Doc)
			asked := map[string]int{}
			for _, o := range m.Outputs {
				asked[o.Value]++
			}
			each := len(asked) == len(m.Reg.Tables)
			for _, n := range asked {
				each = each && n == 1
			}
			if !each {
				cl["classes without an output, or with two"] = true
			}
			for ri, r := range c.Rows {
				want := c.Doc.Score(0, r)
				got, err := eval(ms[0], goRow(r))
				if want.Amb != "" {
					res.Skipped++
					continue
				}
				finite := true
				s := newScope(c.Doc)
				var first float64
				for i, t := range m.Reg.Tables {
					y, mag, _, _ := s.linear(t, refRow(c.Doc, r))
					finite = finite && !math.IsInf(mag, 0) && !math.IsNaN(mag)
					if i == 0 {
						first = y
					} else if y != first {
						res.Nontrivial = true
					}
					if mag > 1e4 {
						cl["large scores"] = true
					}
				}
				if !finite {
					res.Skipped++
					continue
				}
				res.Evals++
				if diff := agree(want, got, err); diff != "" {
					fail("row %d {%s}: %s\n%s", ri, showRow(r), diff, render(c.Doc.xml()))
				}
				if m.Reg.Norm == "simplemax" || m.Reg.Norm == "none" || m.Reg.Norm == "" || want.Err != "" {
					continue
				}
				sum := 0.0
				for k, v := range got {
					p := v.Float64()
					if math.IsNaN(p) || p < 0 || p > 1 {
						fail("row %d {%s}: %q is not a probability in %s\n%s", ri, showRow(r), k, showOut(got, err), render(c.Doc.xml()))
					}
					sum += p
				}
				if each && math.Abs(sum-1) > 1e-9 {
					fail("row %d {%s}: probabilities sum to %v in %s\n%s", ri, showRow(r), sum, showOut(got, err), render(c.Doc.xml()))
				}
			}
			cl["norm "+m.Reg.Norm] = true
			cl[strconv.Itoa(len(m.Reg.Tables))+" classes"] = true
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"linear scores do not overflow"}

	register("P13",
		"A document with random nested expressions (field references, constants, + - * / sum, isMissing, isNotMissing, if, mapMissingTo, defaultValue, depth <= 4) as global and local derived fields, each possibly using earlier ones, and 4 rows with missing values. Every derived field is made observable by its own model (a regression over it, or a tree testing it) and a further tree tests all of them; results are compared to the reference. Non-trivial: some derived field nests two operators or uses another derived field.",
		1500, 60000,
		gen(func(g G) *RowsCase {
			fs := g.fields(g.between(2, 4), "double", "integer", "boolean", "float", "string")
			d := &Doc{Fields: fs}
			ec := &ectx{fs: append([]Field{}, fs...)}
			ng, nl := g.n(3), g.between(1, 3)
			if g.chance(2) {
				ng = g.large(40)
			}
			if g.chance(2) {
				nl = g.large(40)
			}
			for i := ng; i > 0; i-- {
				d.Global = append(d.Global, g.derived(ec, fmt.Sprintf("g%d", i)))
			}
			var lt []Derived
			for i := nl; i > 0; i-- {
				lt = append(lt, g.derived(ec, fmt.Sprintf("l%d", i)))
			}
			hint := g.row(fs, 20)
			d.observe(fs, lt)
			// predicates over everything
			all := append([]Field{}, fs...)
			for _, df := range append(append([]Derived{}, d.Global...), lt...) {
				all = append(all, Field{Name: df.Name, Type: df.Type})
			}
			pc := g.pctx(d, all, hint)
			n := 0
			tm := &Model{Kind: "tree", Function: "regression", Schema: schemaFor(fs, ""), LT: lt, Tree: &Tree{MVS: "nullPrediction", NoTrue: "returnLastPrediction"}}
			tm.Tree.Root = g.node(&tctx{pctx: pc, function: "regression", maxDepth: 2, n: &n, predDepth: 1}, 0, true)
			d.Models = append(d.Models, tm)
			return &RowsCase{Doc: d, Rows: g.rowsFrom(fs, hint, 4, 25)}
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			checkRows(c.Doc, c.Rows, &res, nil)
			ds := append(append([]Derived{}, c.Doc.Global...), c.Doc.Models[0].LT...)
			for _, m := range c.Doc.Models {
				if len(m.LT) > 0 {
					ds = append(append([]Derived{}, c.Doc.Global...), m.LT...)
				}
			}
			names := map[string]bool{}
			for _, df := range ds {
				ops := 0
				walkExpr(df.E, func(e *Expr) {
					if e.Kind == "apply" {
						ops++
						cl[e.Func] = true
					}
					if e.Kind == "field" && names[e.Field] {
						cl["uses derived"] = true
						res.Nontrivial = true
					}
					if e.MapMiss != nil {
						cl["mapMissingTo"] = true
					}
					if e.Default != nil {
						cl["defaultValue"] = true
					}
				})
				if ops >= 2 {
					res.Nontrivial = true
				}
				names[df.Name] = true
			}
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"no division by zero", "sum has an argument that is not missing"}

	register("P14",
		"A random MapValues (1-3 input columns of strings or integers, arbitrary and prefixed column names in any cell order, up to 7 rows with repeated and near-matching keys, optional default and mapMissingTo) as a local or global derived field, with 6 rows. A tree tells apart each possible output, missing and anything else; compared to the reference lookup. Non-trivial: some row matches a table row, and there are at least two input columns or two table rows with the same key.",
		2500, 100000,
		gen(genMapCase),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			var e *Expr
			if len(c.Doc.Global) > 0 {
				e = c.Doc.Global[0].E
				cl["global"] = true
			} else {
				e = c.Doc.Models[0].LT[0].E
			}
			s := newScope(c.Doc)
			for _, r := range c.Rows {
				ee := *e
				ee.Default = nil
				v, err := s.expr(&ee, refRow(c.Doc, r))
				if err == "" && !v.missing() {
					cl["matched"] = true
					if len(e.Map.Pairs) > 1 || len(e.Map.Rows) > 1 {
						res.Nontrivial = true
					}
				} else if e.Default != nil {
					cl["default"] = true
				}
			}
			cl[fmt.Sprintf("%d columns", len(e.Map.Pairs))] = true
			checkRows(c.Doc, c.Rows, &res, nil)
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"inputs are strings or integers below 1e6", "missing inputs with a default only with mapMissingTo"}
}

var colNames = []string{"in", "out", "output", "input1", "Value", "key", "a-b", "_c", "outputColumn", "x.y", "data", "col2", "é", "row1"}

func genMapCase(g G) *RowsCase {
	k := g.between(1, 3)
	if g.chance(4) {
		k = g.between(4, 9)
	}
	fs := g.fields(k+1, "string", "string", "integer")
	m := &MapV{Prefix: pick(g, []string{"", "data:", ""})}
	cn := g.perm(len(colNames))
	m.Out = colNames[cn[0]]
	var keys []string
	of := make([]Field, k)
	for i := 0; i < k; i++ {
		col := colNames[cn[i+1]]
		of[i] = fs[i]
		if g.chance(6) { // a field may be asked for in two columns
			of[i] = fs[g.n(i+1)]
		}
		m.Pairs = append(m.Pairs, [2]string{of[i].Name, col})
		keys = append(keys, col)
	}
	extra := g.n(2)
	cols := append(append([]string{}, keys...), m.Out)
	for i := 0; i < extra; i++ {
		cols = append(cols, colNames[cn[k+1+i]])
	}
	for _, i := range g.perm(len(cols)) {
		m.Cols = append(m.Cols, cols[i])
	}
	small := func(f Field) string {
		if f.Type == "integer" {
			return pick(g, []string{"1", "2", "3", "-1", "10"})
		}
		return pick(g, []string{"a", "b", "c", "x y", "é", "<&>", "A", "1", "a ", " a", "x  y", "e\u0301", "01"})
	}
	outs := []string{"o1", "o2", "o3", "a", "b"}
	numeric := g.chance(25)
	if numeric {
		outs = []string{"1", "2.5", "-3", "10", "0"}
	}
	nr := g.between(1, 7)
	many := g.chance(3)
	if many {
		nr = g.large(260)
	}
	for i := nr; i > 0; i-- {
		cell := map[string]string{}
		for j, kc := range keys {
			cell[kc] = small(of[j])
			if many && i > 2 && of[j].Type == "string" && g.chance(70) {
				cell[kc] = "k" + strconv.Itoa(i)
			} else if many && i > 2 && g.chance(70) {
				cell[kc] = strconv.Itoa(i * 10)
			}
		}
		for j := range keys {
			for i := range keys[:j] {
				if of[i].Name == of[j].Name && g.chance(70) {
					cell[keys[j]] = cell[keys[i]]
				}
			}
		}
		cell[m.Out] = pick(g, outs)
		var r []string
		for _, c := range m.Cols {
			v, ok := cell[c]
			if !ok {
				v = pick(g, []string{"a", "b", "zzz", "1", ""})
			}
			r = append(r, v)
		}
		m.Rows = append(m.Rows, r)
	}
	e := &Expr{Kind: "map", Map: m}
	if g.chance(50) {
		e.Default = sp(pick(g, outs))
		if g.chance(50) {
			m.OutType = "string"
			if numeric {
				m.OutType = "double"
			}
		}
	}
	miss := 15
	if g.chance(50) {
		e.MapMiss = sp(pick(g, outs))
	} else if e.Default != nil {
		miss = 0
	}
	var rows []Row
	for i := 0; i < 6; i++ {
		r := Row{}
		src := pick(g, m.Rows)
		for j, f := range fs {
			if g.chance(miss) {
				if g.chance(50) {
					r[f.Name] = Cell{Rep: "nil"}
				}
				continue
			}
			v := small(f)
			if j < k && of[j].Name == f.Name && g.chance(70) {
				for ci, c := range m.Cols {
					if c == keys[j] {
						v = src[ci]
					}
				}
			}
			r[f.Name] = g.cell(f.Type, v)
		}
		rows = append(rows, r)
	}
	df := Derived{Name: "mapped", Type: "string", OpType: "categorical", E: e}
	if numeric {
		df.Type, df.OpType = "double", "continuous"
	}
	d := &Doc{Fields: fs}
	var lt []Derived
	if g.chance(40) {
		d.Global = []Derived{df}
	} else {
		lt = []Derived{df}
	}
	root := &TNode{Pred: &Pred{Kind: "true"}, Score: "-1"}
	root.Kids = append(root.Kids, &TNode{Pred: &Pred{Kind: "simple", Field: "mapped", Op: "isMissing"}, Score: "900"})
	for i, o := range outs {
		root.Kids = append(root.Kids, &TNode{Pred: &Pred{Kind: "simple", Field: "mapped", Op: "equal", Value: o}, Score: strconv.Itoa(i + 1)})
	}
	root.Kids = append(root.Kids, &TNode{Pred: &Pred{Kind: "true"}, Score: "999"})
	d.Models = []*Model{{Kind: "tree", Function: "regression", Schema: schemaFor(fs, ""), LT: lt, Tree: &Tree{MVS: "none", NoTrue: "returnNullPrediction", Root: root}}}
	return &RowsCase{Doc: d, Rows: rows}
}

func walkExpr(e *Expr, f func(*Expr)) {
	f(e)
	for _, a := range e.Args {
		walkExpr(a, f)
	}
}

// ectx is what expressions may refer to.
type ectx struct {
	fs []Field
}

func (c *ectx) of(types ...string) []Field {
	var out []Field
	for _, f := range c.fs {
		for _, t := range types {
			if f.Type == t {
				out = append(out, f)
			}
		}
	}
	return out
}

func (g G) derived(c *ectx, name string) Derived {
	df := Derived{Name: name}
	if g.chance(25) {
		df.Type, df.OpType = "boolean", "categorical"
		df.E = g.boolExpr(c, 2)
	} else {
		df.Type, df.OpType = pick(g, []string{"double", "float"}), "continuous"
		df.E = g.numExpr(c, 3)
		if g.chance(2) {
			// deeply nested
			for i := g.large(60); i > 0; i-- {
				e := &Expr{Kind: "apply", Func: "+", Args: []*Expr{df.E, {Kind: "const", Const: "1"}}}
				switch g.n(4) {
				case 0:
					e.Func = "sum"
				case 1:
					e = &Expr{Kind: "apply", Func: "if", Args: []*Expr{g.boolExpr(c, 0), df.E, {Kind: "const", Const: pick(g, numPool)}}}
				case 2:
					e.MapMiss = sp(pick(g, numPool))
				}
				df.E = e
			}
		}
	}
	c.fs = append(c.fs, Field{Name: name, Type: df.Type})
	return df
}

func (g G) numExpr(c *ectx, depth int) *Expr {
	k := g.n(10)
	nums := c.of("double", "integer", "float")
	if depth == 0 && k >= 4 {
		k = g.n(4)
	}
	if k < 3 && len(nums) > 0 {
		e := &Expr{Kind: "field", Field: nums[len(nums)-1-g.n(len(nums))].Name}
		if g.chance(12) {
			e.MapMiss = sp(pick(g, numPool))
		}
		return e
	}
	if k < 4 {
		return &Expr{Kind: "const", Const: pick(g, numPool)}
	}
	e := &Expr{Kind: "apply"}
	switch {
	case k < 8:
		e.Func = pick(g, []string{"+", "-", "*", "/", "+", "*", "-"})
		e.Args = []*Expr{g.numExpr(c, depth-1), g.numExpr(c, depth-1)}
	case k == 8:
		e.Func = "sum"
		na := g.between(1, 4)
		if g.chance(3) {
			na, depth = g.large(70), 1
		}
		for i := na; i > 0; i-- {
			e.Args = append(e.Args, g.numExpr(c, depth-1))
		}
	default:
		e.Func = "if"
		e.Args = []*Expr{g.boolExpr(c, depth-1), g.numExpr(c, depth-1), g.numExpr(c, depth-1)}
	}
	if g.chance(10) {
		e.MapMiss = sp(pick(g, numPool))
	}
	if g.chance(10) {
		e.Default = sp(pick(g, numPool))
	}
	return e
}

func (g G) boolExpr(c *ectx, depth int) *Expr {
	bools := c.of("boolean")
	if len(bools) > 0 && g.chance(30) {
		return &Expr{Kind: "field", Field: pick(g, bools).Name}
	}
	e := &Expr{Kind: "apply", Func: pick(g, []string{"isMissing", "isNotMissing"})}
	if depth > 0 && g.chance(50) {
		e.Args = []*Expr{g.numExpr(c, depth-1)}
	} else {
		e.Args = []*Expr{{Kind: "field", Field: pick(g, c.fs).Name}}
	}
	return e
}

// observe adds one model per derived field that shows its value.
func (d *Doc) observe(fs []Field, lt []Derived) {
	all := append(append([]Derived{}, d.Global...), lt...)
	for i, df := range all {
		use := lt
		if i < len(d.Global) && i%2 == 0 {
			use = nil
		}
		d.Models = append(d.Models, observer(fs, use, df))
	}
}

func observer(fs []Field, lt []Derived, df Derived) *Model {
	m := &Model{Schema: schemaFor(fs, ""), LT: lt, Function: "regression"}
	if df.OpType == "continuous" {
		m.Kind = "reg"
		m.Outputs = []Output{{Name: "out", Type: "double"}}
		m.Reg = &Reg{Tables: []RTable{{Intercept: "0", Num: []NumP{{Name: df.Name, Coef: "1"}}}}}
		return m
	}
	m.Kind = "tree"
	m.Tree = &Tree{MVS: "nullPrediction", NoTrue: "returnNullPrediction", Root: &TNode{Pred: &Pred{Kind: "true"}, Score: "0", Kids: []*TNode{
		{Pred: &Pred{Kind: "simple", Field: df.Name, Op: "equal", Value: "true"}, Score: "1"},
		{Pred: &Pred{Kind: "true"}, Score: "2"}}}}
	return m
}
