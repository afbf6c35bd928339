package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// ---- P35: the transformations by themselves

func genInput(g G) *RowsCase {
	switch g.n(6) {
	case 0:
		return genMapCase(g)
	case 1:
		c := g.anyCase(g.between(1, 2), g.n(3)*12, 4, 80)
		for _, m := range c.Doc.Models {
			g.replacements(m.Schema, c.Doc.baseFields(), 25)
		}
		return c
	}
	fs := g.fields(g.between(2, 4), "double", "integer", "boolean", "float", "string")
	d := &Doc{Fields: fs}
	ec := &ectx{fs: append([]Field{}, fs...)}
	for i := g.n(3); i > 0; i-- {
		d.Global = append(d.Global, g.derived(ec, fmt.Sprintf("g%d", i)))
	}
	for k := g.between(1, 2); k > 0; k-- {
		lc := &ectx{fs: append([]Field{}, ec.fs...)}
		var lt []Derived
		for i := g.n(4); i > 0; i-- {
			lt = append(lt, g.derived(lc, fmt.Sprintf("l%d", i)))
		}
		df := Derived{Name: fs[0].Name}
		if len(lt) > 0 {
			df = lt[0]
		}
		m := observer(fs, lt, df)
		g.replacements(m.Schema, fs, 25)
		d.Models = append(d.Models, m)
	}
	return &RowsCase{Doc: d, Rows: g.rowsFrom(fs, g.row(fs, 20), 4, 35)}
}

// holds says whether a value is the one wanted.
func holds(v evaluation.Value, want RV) bool {
	switch want.K {
	case 0:
		return v.Raw() == nil
	case 'b':
		if b, ok := v.Raw().(bool); ok {
			return b == want.B
		}
		return v.Raw() != nil && v.String() == fmt.Sprint(want.B)
	case 's':
		return v.Raw() != nil && v.String() == want.S
	}
	if v.Raw() == nil {
		return false
	}
	f := v.Float64()
	return math.Abs(f-want.N) <= want.Dev+1e-9*(1+math.Abs(want.N)) || f == want.N
}

func checkInput(c *RowsCase) Res {
	var res Res
	cl := map[string]bool{}
	text := render(c.Doc.xml())
	p, err := decode(text)
	if err != nil {
		fail("a valid document does not decode: %v\n%s", err, text)
	}
	if len(p.Models) != len(c.Doc.Models) {
		fail("document with %d models decodes to %d\n%s", len(c.Doc.Models), len(p.Models), text)
	}
	was := digestOf(p)
	dd, td := &p.DataDictionary, &p.TransformationDictionary
	for mi, m := range c.Doc.Models {
		decoded := reflect.ValueOf(p.Models[mi]).Elem()
		lt := decoded.FieldByName("LocalTransformations").Addr().Interface().(*models.LocalTransformations)
		ms := decoded.FieldByName("MiningSchema").Addr().Interface().(*models.MiningSchema)
		replaced := false
		for _, f := range m.Schema {
			replaced = replaced || f.Replacement != nil
		}
		for _, row := range c.Rows {
			where := func() string { return fmt.Sprintf("model %d, row {%s}", mi, showRow(row)) }
			var s *scope
			var want map[string]RV
			open := func() (open bool) {
				defer func() {
					switch r := recover().(type) {
					case nil:
					case openOutcome:
						open = true
					default:
						panic(r)
					}
				}()
				var e string
				s, want, e = newScope(c.Doc).prepare(m, refRow(c.Doc, row))
				return e != ""
			}()
			if open {
				res.Skipped++
				continue
			}
			in := goRow(row)
			var out evaluation.DataRow
			var err error
			guard("HandleInput", func() { out, err = evaluation.HandleInput(in, dd, td, lt, ms) })
			if err != nil {
				fail("%s: HandleInput fails: %v\n%s", where(), err, text)
			}
			same := func(a, b evaluation.Value) bool {
				return reflect.DeepEqual(a.Raw(), b.Raw()) || sameFloat(a.Raw(), b.Raw())
			}
			given := goRow(row)
			if len(in) != len(given) {
				fail("%s: HandleInput changes the row it is given: {%s}\n%s", where(), showOut(in, nil), text)
			}
			for k, v := range given {
				if x, ok := in[k]; !ok || !same(v, x) {
					fail("%s: HandleInput changes %q in the row it is given\n%s", where(), k, text)
				}
			}
			derived := map[string]bool{}
			for _, df := range append(append([]Derived{}, c.Doc.Global...), m.LT...) {
				derived[df.Name] = true
			}
			known := func(k string) bool {
				if _, ok := in[k]; ok {
					return true
				}
				if derived[k] {
					return true
				}
				for _, f := range m.Schema {
					if f.Name == k && f.Replacement != nil {
						return true
					}
				}
				return false
			}
			for k, v := range out {
				if !known(k) {
					fail("%s: HandleInput makes up a field %q=%v\n%s", where(), k, v.Raw(), text)
				}
				res.Evals++
				if !holds(v, want[k]) {
					fail("%s: HandleInput gives %s=%v, expected %s\n%s", where(), k, v.Raw(), showRV(want[k]), text)
				}
				if x, ok := in[k]; ok && x.Raw() != nil && !derived[k] && !same(x, v) {
					fail("%s: HandleInput turns %q into %T %v\n%s", where(), k, v.Raw(), v.Raw(), text)
				}
			}
			for k, w := range want {
				if _, ok := out[k]; !ok && w.K != 0 {
					fail("%s: HandleInput leaves out %s=%s\n%s", where(), k, showRV(w), text)
				}
			}
			equal := func(what string, again evaluation.DataRow) {
				res.Evals++
				for k, v := range out {
					if x, ok := again[k]; v.Raw() != nil && !ok || !same(v, x) {
						fail("%s: HandleInput %s gives %s=%v instead of %v\n%s", where(), what, k, x.Raw(), v.Raw(), text)
					}
				}
				if len(again) != len(out) {
					fail("%s: HandleInput %s gives %d fields instead of %d\n%s", where(), what, len(again), len(out), text)
				}
			}
			call := func(what string, in evaluation.DataRow, td *models.TransformationDictionary, ms *models.MiningSchema) {
				var again evaluation.DataRow
				guard("HandleInput "+what, func() { again, err = evaluation.HandleInput(in, dd, td, lt, ms) })
				if err != nil {
					fail("%s: HandleInput %s fails: %v\n%s", where(), what, err, text)
				}
				equal(what, again)
			}
			call("again", goRow(row), td, ms)
			call("of its own result", out, td, ms)
			if len(c.Doc.Global) == 0 {
				call("without a transformation dictionary", goRow(row), nil, ms)
				cl["no dictionary"] = true
			}
			if !replaced {
				call("without a mining schema", goRow(row), td, nil)
			}
			// the expressions, of what is known in the end
			try := func(ds []models.DerivedField, abs []Derived) {
				if len(ds) != len(abs) {
					fail("%d derived fields decode to %d\n%s", len(abs), len(ds), text)
				}
				for i, df := range ds {
					w, e := s.expr(abs[i].E, want)
					if e != "" {
						continue
					}
					res.Evals++
					var v evaluation.Value
					guard("HandleExpression", func() { v, err = evaluation.HandleExpression(df.Expression, out, dd, td, lt, ms) })
					if err != nil {
						fail("%s: HandleExpression fails for %s: %v\n%s", where(), df.Name, err, text)
					}
					if !holds(v, w) {
						fail("%s: HandleExpression gives %v for %s, expected %s\n%s", where(), v.Raw(), df.Name, showRV(w), text)
					}
					if w.K != 0 {
						res.Nontrivial = true
						cl[map[byte]string{'b': "truth value", 'n': "number", 's': "text"}[w.K]] = true
					} else {
						cl["missing"] = true
					}
				}
			}
			guardOpen(func() {
				try(td.DerivedFields, c.Doc.Global)
				try(lt.DerivedFields, m.LT)
			})
			equal("after HandleExpression", out)
		}
		if replaced {
			cl["replacement"] = true
		}
	}
	if digestOf(p) != was {
		fail("the transformations change the document\n%s", text)
	}
	if len(c.Doc.Global) > 0 {
		cl["global"] = true
	}
	res.Classes = classes(cl)
	return res
}

// guardOpen gives up quietly where an outcome hangs on the last digits.
func guardOpen(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(openOutcome); !ok {
				panic(r)
			}
		}
	}()
	f()
}

func showRV(v RV) string {
	switch v.K {
	case 0:
		return "no value"
	case 'n':
		return fmt.Sprint(v.N)
	case 'b':
		return fmt.Sprint(v.B)
	}
	return fmt.Sprintf("%q", v.S)
}

func init() {
	register("P35",
		"A random document (nested expressions, MapValues, replacements, global and local derived fields) and rows with missing values, of which HandleInput is called directly for each model: the row it returns must hold what was given unchanged, the replacements, and every derived field with the value the reference gives it, and nothing else; the row it is given and the document must stay as they were; called again, of its own result, without a dictionary or schema that say nothing, it must return the same. HandleExpression, called on that row for every expression, must return the value of the reference. Non-trivial: an expression has a value.",
		2000, 80000,
		gen(genInput), checkInput)
}
