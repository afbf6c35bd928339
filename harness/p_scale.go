package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// P36: units and scales. A field that is only compared takes other values in
// the same order; any other numeric field is measured in another unit; the
// records of a tree are counted in another unit; the scores of a simplemax are
// multiplied.

// number is what a text means for a field of the type.
func number(dt, s string) (i int64, f float64, ok bool) {
	s = strings.TrimSpace(s)
	if dt == "integer" {
		i, err := strconv.ParseInt(s, 10, 64)
		return i, 0, err == nil
	}
	f, err := strconv.ParseFloat(s, 64)
	return 0, f, err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

// uses is where the numbers of a field are.
type uses struct {
	dt     string
	texts  []*string // constants and replacements
	sets   []*Pred
	cells  []Cell
	refs   []*Expr // references in arithmetic
	preds  []*NumP // numeric predictors
	closed bool    // used otherwise
}

func (t *twin) uses(rows []Row) map[string]*uses {
	us := map[string]*uses{}
	count := map[string]int{}
	for _, f := range t.d.Fields {
		count[f.Name]++
	}
	for _, f := range t.d.baseFields() {
		if f.Type != "string" && f.Type != "boolean" && count[f.Name] == 1 {
			us[f.Name] = &uses{dt: f.Type}
		}
	}
	shut := func(name string) {
		if u := us[name]; u != nil {
			u.closed = true
		}
	}
	text := func(field string, s *string) {
		if u := us[field]; u != nil {
			u.texts = append(u.texts, s)
			if _, _, ok := number(u.dt, *s); !ok {
				u.closed = true
			}
		}
	}
	var expr func(e *Expr, inside string)
	expr = func(e *Expr, inside string) {
		if e.Kind == "field" {
			switch inside {
			case "+", "-", "*", "/", "sum", "isMissing", "isNotMissing":
				if u := us[e.Field]; u != nil {
					u.refs = append(u.refs, e)
				}
			default:
				shut(e.Field)
			}
		}
		if e.Map != nil {
			for _, p := range e.Map.Pairs {
				shut(p[0])
			}
		}
		for _, a := range e.Args {
			expr(a, e.Func)
		}
	}
	derived := func(ds []Derived) {
		for i := range ds {
			shut(ds[i].Name)
			expr(ds[i].E, "")
		}
	}
	pred := func(p *Pred) {
		if p == nil {
			return
		}
		walkPred(p, func(q *Pred) {
			switch {
			case q.Kind == "set":
				if u := us[q.Field]; u != nil {
					u.sets = append(u.sets, q)
				}
				for i := range q.Items {
					text(q.Field, &q.Items[i])
				}
			case q.Kind == "simple" && q.Op != "isMissing" && q.Op != "isNotMissing":
				text(q.Field, &q.Value)
			}
		})
	}
	derived(t.d.Global)
	for _, m := range t.d.Models {
		walkModels(m, 0, func(m *Model, _ int) {
			for i := range m.Schema {
				if r := m.Schema[i].Replacement; r != nil {
					text(m.Schema[i].Name, r)
				}
			}
			derived(m.LT)
			for _, o := range m.Outputs {
				shut(o.Name)
			}
			for _, tg := range m.Targets {
				shut(tg.Field)
			}
			if m.Tree != nil {
				walkNodes(m.Tree.Root, func(n *TNode) { pred(n.Pred) })
			}
			if m.Reg != nil {
				for i := range m.Reg.Tables {
					r := &m.Reg.Tables[i]
					for j := range r.Num {
						if u := us[r.Num[j].Name]; u != nil {
							u.preds = append(u.preds, &r.Num[j])
						}
					}
					for _, c := range r.Cat {
						shut(c.Name)
					}
				}
			}
			if m.Mining != nil {
				for _, s := range m.Mining.Segments {
					pred(s.Pred)
				}
			}
		})
	}
	for _, row := range rows {
		for k, c := range row {
			u := us[k]
			if u == nil || c.Rep == "nil" {
				continue
			}
			u.cells = append(u.cells, c)
			if _, _, ok := number(u.dt, c.Text); !ok || c.Rep == "bool" {
				u.closed = true
			}
		}
	}
	for k, u := range us {
		if u.closed {
			delete(us, k)
		}
	}
	return us
}

// ascending draws n integers or n doubles in ascending order.
func (g G) ascending(dt string, n int) []string {
	var out []string
	if dt == "integer" {
		at := pick(g, []int64{math.MinInt64, -1 << 53, -1 << 31, -5, 0, 1, 90, 1<<24 - 2, 1<<31 - 2, 1<<53 - 2, 1<<62 - 1, math.MaxInt64 - int64(n)*40})
		gap := pick(g, []int{1, 1, 2, 40})
		for i := 0; i < n; i++ {
			out = append(out, strconv.FormatInt(at, 10))
			if i+1 < n {
				at += int64(g.between(1, gap))
			}
		}
		return out
	}
	at := pick(g, []float64{-1e300, -1e16, -1, -1e-7, -5e-324, 0, 5e-324, 1e-310, 1e-7, 0.1, 0.3, 1, 99.99, 1<<24 - 1, 1e15, 1<<53 - 3, 1e21, 1e200, math.Nextafter(0.5, 0)})
	step := g.n(4)
	for i := 0; i < n; i++ {
		f := byte('g')
		if g.chance(20) && math.Abs(at) > 1e-8 && math.Abs(at) < 1e22 {
			f = 'f'
		} else if g.chance(20) {
			f = 'e'
		}
		out = append(out, strconv.FormatFloat(at, f, -1, 64))
		switch step {
		case 0:
			at = math.Nextafter(at, math.Inf(1))
		case 1:
			for k := g.between(1, 3); k > 0; k-- {
				at = math.Nextafter(at, math.Inf(1))
			}
		case 2:
			at += math.Max(1, math.Abs(at)/64)
		default:
			if next := at + pick(g, []float64{0.1, 1e-9, 1, 1e7}); next > at {
				at = next
			} else {
				at = math.Nextafter(at, math.Inf(1))
			}
		}
	}
	return out
}

// another gives the values of a field that is only compared others in the
// same order.
func (t *twin) another(name string, u *uses, rows []Row) {
	id := func(s string) interface{} {
		i, f, _ := number(u.dt, s)
		if u.dt == "integer" {
			return i
		}
		return f + 0
	}
	seen := map[interface{}]bool{}
	for _, s := range u.texts {
		seen[id(*s)] = true
	}
	for _, c := range u.cells {
		seen[id(c.Text)] = true
	}
	if len(seen) < 2 {
		return
	}
	var all []interface{}
	for v := range seen {
		all = append(all, v)
	}
	sort.Slice(all, func(i, j int) bool {
		if u.dt == "integer" {
			return all[i].(int64) < all[j].(int64)
		}
		return all[i].(float64) < all[j].(float64)
	})
	to := map[interface{}]string{}
	for i, s := range t.g.ascending(u.dt, len(all)) {
		to[all[i]] = s
	}
	t.did("other values in the same order")
	t.replace(name, u, rows, func(s string) string { return to[id(s)] })
}

// replace writes other numbers for a field.
func (t *twin) replace(name string, u *uses, rows []Row, to func(string) string) {
	for _, s := range u.texts {
		*s = to(*s)
	}
	for _, p := range u.sets {
		p.AType = "string"
		if t.g.chance(50) {
			p.AType = "real"
			if u.dt == "integer" {
				p.AType = "int"
			}
		}
	}
	for _, row := range rows {
		if c, ok := row[name]; ok && c.Rep != "nil" {
			row[name] = t.g.cell(u.dt, to(c.Text))
		}
	}
	for i := range t.d.Fields {
		f := &t.d.Fields[i]
		if f.Name == name {
			f.Values = nil
		}
	}
}

// unit measures a field in units 2^by times as small.
func (t *twin) unit(name string, u *uses, rows []Row) {
	by := t.g.between(1, 12)
	if u.dt != "integer" && t.g.chance(50) {
		by = -by
	}
	small := func(s string) bool {
		i, f, _ := number(u.dt, s)
		if u.dt == "integer" {
			return i > -1<<40 && i < 1<<40
		}
		return f == 0 || math.Abs(f) > 1e-60 && math.Abs(f) < 1e60
	}
	for _, s := range u.texts {
		if !small(*s) {
			return
		}
	}
	for _, c := range u.cells {
		if !small(c.Text) || c.Rep == "float32" && u.dt == "integer" {
			return
		}
	}
	coefs := make([]float64, len(u.preds))
	for i, p := range u.preds {
		e := 1
		if p.Exp != "" {
			var err error
			if e, err = strconv.Atoi(strings.TrimSpace(p.Exp)); err != nil || e < -6 || e > 6 {
				return
			}
		}
		c, err := strconv.ParseFloat(strings.TrimSpace(p.Coef), 64)
		if err != nil || c != 0 && !(math.Abs(c) > 1e-60 && math.Abs(c) < 1e60) {
			return
		}
		coefs[i] = math.Ldexp(c, -by*e)
	}
	for i, p := range u.preds {
		p.Coef = strconv.FormatFloat(coefs[i], 'g', -1, 64)
	}
	for _, e := range u.refs {
		e.Kind, e.Func = "apply", "*"
		e.Args = []*Expr{{Kind: "field", Field: e.Field}, {Kind: "const", Const: strconv.FormatFloat(math.Ldexp(1, -by), 'g', -1, 64)}}
		if t.g.chance(50) {
			e.Args[0], e.Args[1] = e.Args[1], e.Args[0]
		}
		e.Field = ""
	}
	t.did("another unit")
	t.replace(name, u, rows, func(s string) string {
		i, f, _ := number(u.dt, s)
		if u.dt == "integer" {
			return strconv.FormatInt(i<<by, 10)
		}
		return strconv.FormatFloat(math.Ldexp(f, by)+0, 'g', -1, 64)
	})
}

// times multiplies a number by a power of two, if that is exact.
func times(s string, by int) (string, bool) {
	f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	if err != nil || f != 0 && !(math.Abs(f) > 1e-100 && math.Abs(f) < 1e100) {
		return "", false
	}
	return strconv.FormatFloat(math.Ldexp(f, by), 'g', -1, 64), true
}

// scores are the numbers that are added up.
func (r *RTable) scores() []*string {
	all := []*string{&r.Intercept}
	for j := range r.Num {
		all = append(all, &r.Num[j].Coef)
	}
	for j := range r.Cat {
		all = append(all, &r.Cat[j].Coef)
	}
	return all
}

// all multiplies all of some numbers by the same power of two.
func (t *twin) all(what string, texts []*string) {
	by := pick(t.g, []int{-20, -3, -1, 1, 2, 7, 30})
	to := make([]string, len(texts))
	for i, s := range texts {
		var ok bool
		if to[i], ok = times(*s, by); !ok {
			return
		}
	}
	for i, s := range texts {
		*s = to[i]
	}
	if len(texts) > 0 {
		t.did(what)
	}
}

func (t *twin) scale(rows []Row) {
	us := t.uses(rows)
	var names []string
	for n := range us {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		u := us[n]
		if len(u.texts)+len(u.preds)+len(u.refs) == 0 {
			continue
		}
		if len(u.preds)+len(u.refs) == 0 && t.g.chance(70) {
			t.another(n, u, rows)
		} else if t.g.chance(70) {
			t.unit(n, u, rows)
		}
	}
	for _, m := range t.d.Models {
		walkModels(m, 0, func(m *Model, _ int) {
			if m.Tree != nil && t.g.chance(50) {
				var counts []*string
				walkNodes(m.Tree.Root, func(n *TNode) {
					if n.RC != nil {
						counts = append(counts, n.RC)
					}
					for i := range n.SD {
						counts = append(counts, &n.SD[i].RC)
					}
				})
				t.all("records counted otherwise", counts)
			}
			if m.Reg != nil && m.Reg.Norm == "simplemax" && t.g.chance(70) {
				var scores []*string
				for i := range m.Reg.Tables {
					scores = append(scores, m.Reg.Tables[i].scores()...)
				}
				t.all("scores of a simplemax multiplied", scores)
			}
		})
	}
	if len(t.d.Models) > 1 && t.g.chance(20) {
		t.did("models")
	}
}

func copyRows(rows []Row) []Row {
	var out []Row
	for _, r := range rows {
		c := Row{}
		for k, v := range r {
			c[k] = v
		}
		out = append(out, c)
	}
	return out
}

func init() {
	register("P36",
		"A random document with one to three models of any kinds and 4 rows, and the same with other numbers: fields that are only compared (in predicates, sets, replacements, rows) take other values in the same order, neighbours and the ends of the range among them; fields that are calculated with are measured in another unit, with the constants compared with them, their coefficients and the references to them in expressions changed accordingly; the records of a tree are counted in another unit; the scores of a simplemax are multiplied. Every model must give the same results, up to rounding. Non-trivial: something was changed and a compared row has a prediction.",
		600, 26000,
		gen(func(g G) *TwinCase {
			var rows []Row
			c := g.twinCase(func(t *twin) { t.scale(rows) }, func(c *TwinCase) {
				rows = copyRows(c.Rows)
				for _, m := range c.Doc.Models {
					if m.Reg != nil && m.Reg.Norm == "softmax" && g.chance(50) {
						m.Reg.Norm = "simplemax"
					}
				}
			})
			c.TwinRows = rows
			return c
		}),
		func(c *TwinCase) Res { return checkTwin(c, 1) })
}
