package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
)

// Relations between documents that say the same thing: P30 names are
// exchanged for others throughout, P31 parts that cannot matter are added.

func (d *Doc) deepCopy() *Doc {
	b, err := json.Marshal(d)
	must(err)
	c := new(Doc)
	must(json.Unmarshal(b, c))
	return c
}

// ---- P30

// Renaming maps every name in a document to another.
type Renaming struct {
	Names  map[string]string            `json:"names"`
	Labels map[string]string            `json:"labels,omitempty"`
	IDs    map[string]string            `json:"ids,omitempty"`
	Cols   map[string]string            `json:"cols,omitempty"`
	Values map[string]map[string]string `json:"values,omitempty"`
}

type RenameCase struct {
	Doc  *Doc     `json:"doc"`
	Rows []Row    `json:"rows"`
	Ren  Renaming `json:"ren"`
}

func (c *RenameCase) Document() string { return render(c.Doc.xml()) }

func (r *Renaming) name(s string) string {
	if n, ok := r.Names[s]; ok {
		return n
	}
	if strings.HasPrefix(s, "probability(") && strings.HasSuffix(s, ")") {
		return "probability(" + r.label(s[len("probability("):len(s)-1]) + ")"
	}
	return s
}

func (r *Renaming) label(s string) string {
	if n, ok := r.Labels[s]; ok {
		return n
	}
	return s
}

func (r *Renaming) id(s string) string {
	if n, ok := r.IDs[s]; ok {
		return n
	}
	return s
}

func (r *Renaming) value(field, s string) string {
	if field == "class" {
		return r.label(s)
	}
	if n, ok := r.Values[field][s]; ok {
		return n
	}
	return s
}

// parts calls a function on the places where names stand. The field functions
// get pointers to the texts.
type parts struct {
	name  func(*string)                 // of a field, an output, a target
	label func(*string)                 // of a class
	id    func(*string)                 // of a node or segment
	value func(field string, v *string) // of a field, in a predicate or so
	expr  func(*Expr)
	pred  func(*Pred)
	model func(*Model)
}

func (p *parts) doc(d *Doc) {
	for i := range d.Fields {
		f := &d.Fields[i]
		for j := range f.Values {
			p.value(f.Name, &f.Values[j])
		}
		p.name(&f.Name)
	}
	for i := range d.Global {
		p.derived(&d.Global[i])
	}
	for _, m := range d.Models {
		p.inModel(m)
	}
}

func (p *parts) derived(df *Derived) {
	walkExpr(df.E, func(e *Expr) {
		if p.expr != nil {
			p.expr(e)
		}
		if e.Kind == "field" {
			p.name(&e.Field)
		}
		if e.Map != nil {
			for i := range e.Map.Pairs {
				p.name(&e.Map.Pairs[i][0])
			}
		}
	})
	p.name(&df.Name)
}

func (p *parts) inPred(x *Pred) {
	walkPred(x, func(q *Pred) {
		if p.pred != nil {
			p.pred(q)
		}
		switch q.Kind {
		case "simple":
			p.value(q.Field, &q.Value)
			p.name(&q.Field)
		case "set":
			for i := range q.Items {
				p.value(q.Field, &q.Items[i])
			}
			p.name(&q.Field)
		}
	})
}

func (p *parts) inModel(m *Model) {
	if p.model != nil {
		p.model(m)
	}
	for i := range m.Schema {
		if r := m.Schema[i].Replacement; r != nil {
			p.value(m.Schema[i].Name, r)
		}
		p.name(&m.Schema[i].Name)
	}
	for i := range m.LT {
		p.derived(&m.LT[i])
	}
	for i := range m.Targets {
		p.name(&m.Targets[i].Field)
	}
	for i := range m.Outputs {
		p.name(&m.Outputs[i].Name)
		if m.Outputs[i].Value != "" {
			p.label(&m.Outputs[i].Value)
		}
	}
	if m.Tree != nil {
		walkNodes(m.Tree.Root, func(n *TNode) {
			p.id(&n.ID)
			p.id(&n.Default)
			if m.Function == "classification" && n.Score != "" {
				p.label(&n.Score)
			}
			for i := range n.SD {
				p.label(&n.SD[i].Value)
			}
			p.inPred(n.Pred)
		})
	}
	if m.Reg != nil {
		for i := range m.Reg.Tables {
			t := &m.Reg.Tables[i]
			if t.Category != "" {
				p.label(&t.Category)
			}
			for j := range t.Num {
				p.name(&t.Num[j].Name)
			}
			for j := range t.Cat {
				p.value(t.Cat[j].Name, &t.Cat[j].Value)
				p.name(&t.Cat[j].Name)
			}
		}
	}
	if m.Mining != nil {
		for _, sg := range m.Mining.Segments {
			p.id(&sg.ID)
			p.inPred(sg.Pred)
			p.inModel(sg.Model)
		}
	}
}

func (r *Renaming) apply(d *Doc) *Doc {
	d = d.deepCopy()
	p := &parts{
		name:  func(s *string) { *s = r.name(*s) },
		label: func(s *string) { *s = r.label(*s) },
		id:    func(s *string) { *s = r.id(*s) },
		value: func(f string, s *string) { *s = r.value(f, *s) },
		expr: func(e *Expr) {
			if e.Map == nil {
				return
			}
			col := func(s *string) {
				if n, ok := r.Cols[*s]; ok {
					*s = n
				}
			}
			col(&e.Map.Out)
			for i := range e.Map.Pairs {
				col(&e.Map.Pairs[i][1])
			}
			for i := range e.Map.Cols {
				col(&e.Map.Cols[i])
			}
		},
	}
	p.doc(d)
	return d
}

// spelling is a list of names that are easily taken for one another.
func (g G) spellings(n int) []string {
	w := pick(g, []string{"x", "Amount", "v", "a.b", "é", "f1", "class", "true", "data", "id", "value", "1", "field name", "NaN", "missing", "g", "node"})
	pool := []string{w, w + " ", " " + w, strings.ToUpper(w), strings.ToLower(w), w + w, w + "_", "_" + w, w + "1", w + "2", w + "11", w + ".1", "(" + w + ")", w + ")", "'" + w + "'", w + "\u00a0", w + "e\u0301", w + "=", w + "|" + w, w + "," + w, w + "&", w + "<", w + "0", w + "  " + w, strings.Title(w), "d" + w, "nil", "null", "<nil>", "$" + w, "%s", "undefined"}
	for i := 0; len(pool) < 2*n; i++ {
		pool = append(pool, fmt.Sprintf("%s%d", w, i+20))
	}
	seen := map[string]bool{"score": true}
	var out []string
	for _, i := range g.perm(len(pool)) {
		if !seen[pool[i]] {
			seen[pool[i]] = true
			out = append(out, pool[i])
		}
	}
	for i := 0; len(out) < n; i++ {
		out = append(out, fmt.Sprintf("%s#%d", w, i))
	}
	return out
}

// siblingIDs gives the children of a node ids that are nearly the same.
func (g G) siblingIDs(d *Doc, ids map[string]string) {
	parent, given := 0, map[string]bool{}
	for _, m := range d.Models {
		walkModels(m, 0, func(m *Model, depth int) {
			if m.Tree == nil {
				return
			}
			walkNodes(m.Tree.Root, func(n *TNode) {
				parent++
				w := fmt.Sprintf("n%d.x", parent)
				near := []string{w, strings.ToUpper(w), w + " ", " " + w, strings.TrimSuffix(w, "x") + "X", "0" + w, w + "\u00a0", w + "x", w + "\u0301", w + "\uff10"}
				for i, j := range g.perm(len(near)) {
					if i < len(n.Kids) && n.Kids[i].ID != "" && !given[n.Kids[i].ID] {
						given[n.Kids[i].ID] = true
						ids[n.Kids[i].ID] = near[j]
					}
				}
			})
		})
	}
}

// renaming draws other names for everything in the document.
func (g G) renaming(d *Doc, rows []Row) Renaming {
	r := Renaming{Names: map[string]string{}, Labels: map[string]string{}, IDs: map[string]string{}, Values: map[string]map[string]string{}}
	names, labels, ids, cols := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	values := map[string]map[string]bool{}
	free := map[string]bool{} // string fields whose values are only told apart
	for _, f := range d.Fields {
		if f.Type == "string" {
			free[f.Name] = true
			values[f.Name] = map[string]bool{}
		}
	}
	chain, trees := false, false
	p := &parts{
		name: func(s *string) {
			if *s != "score" && !strings.HasPrefix(*s, "probability(") {
				names[*s] = true
			}
		},
		label: func(s *string) {
			if *s != "" { // no label is empty
				labels[*s] = true
			}
		},
		id: func(s *string) {
			if *s != "" {
				ids[*s] = true
			}
		},
		value: func(f string, s *string) {
			if f == "class" {
				if *s != "" {
					labels[*s] = true
				}
			} else if values[f] != nil {
				values[f][*s] = true
			}
		},
		expr: func(e *Expr) {
			delete(free, e.Field)
			if e.Map != nil {
				cols[e.Map.Out] = true
				for _, pr := range e.Map.Pairs {
					delete(free, pr[0])
					cols[pr[1]] = true
				}
				for _, c := range e.Map.Cols {
					cols[c] = true
				}
			}
		},
		pred: func(q *Pred) {
			switch q.Op {
			case "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual":
				delete(free, q.Field)
			}
			if q.Kind == "simple" && (q.Op == "isMissing" || q.Op == "isNotMissing") {
				return
			}
			if q.Kind == "set" && q.AType != "string" {
				delete(free, q.Field)
			}
		},
		model: func(m *Model) {
			if m.Mining != nil && m.Mining.Method == "modelChain" {
				chain = true
			}
			if m.Tree != nil {
				trees = true
			}
			if m.Reg != nil {
				for _, t := range m.Reg.Tables {
					for _, n := range t.Num {
						delete(free, n.Name)
					}
				}
			}
		},
	}
	p.doc(d)
	for _, row := range rows {
		for k, c := range row {
			if values[k] != nil && c.Rep != "nil" {
				values[k][c.Text] = true
				if c.Rep != "string" {
					delete(free, k)
				}
			}
			if !names[k] {
				names[k] = true
			}
		}
	}
	list := func(m map[string]bool) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	// to maps each of a list to another text: one of the list, or new ones
	to := func(l []string, into map[string]string, pool func(n int) []string) {
		ps := l
		if !g.chance(30) {
			ps = pool(len(l))
		}
		for i, j := range g.perm(len(l)) {
			into[l[i]] = ps[j]
		}
	}
	to(list(names), r.Names, func(n int) []string {
		sp := g.spellings(n)
		if (!chain || !trees) && g.chance(15) {
			sp[g.n(n)] = "score"
		}
		return sp
	})
	if free["class"] {
		to(list(labels), r.Labels, func(n int) []string {
			for _, i := range g.perm(len(classPools)) {
				if len(classPools[i]) >= n {
					return classPools[i]
				}
			}
			return g.spellings(n)
		})
	}
	to(list(ids), r.IDs, g.spellings)
	if g.chance(60) {
		g.siblingIDs(d, r.IDs)
	}
	r.Cols = map[string]string{}
	to(list(cols), r.Cols, func(n int) []string {
		pool := []string{"a", "A", "aa", "row", "Row", "column", "output", "data", "a.b", "a-b", "_", "é", "InlineTable", "x1", "x11", "Extension2", "value", "xmlns2", "null", "a_"}
		for i := 0; len(pool) < n; i++ {
			pool = append(pool, fmt.Sprintf("c%d", i))
		}
		return pool
	})
	for _, f := range d.Fields {
		if free[f.Name] && f.Name != "class" && g.chance(70) {
			m := map[string]string{}
			to(list(values[f.Name]), m, func(n int) []string {
				pool := append(append([]string{}, strPool...), oddStrs...)
				if len(pool) < n {
					return g.spellings(n)
				}
				return pool
			})
			r.Values[f.Name] = m
		}
	}
	// names of which no two are seen in the same place may be the same
	if g.chance(50) {
		taken := map[string]bool{"score": true}
		for _, n := range r.Names {
			taken[n] = true
		}
		fresh := func(s string) string {
			for taken[s] {
				s += "'"
			}
			return s
		}
		local, member := fresh(pick(g, []string{"l", "local", "tmp", "X"})), fresh(pick(g, []string{"out", "p", "prediction"}))
		for _, m := range d.Models {
			walkModels(m, 0, func(m *Model, depth int) {
				for i, l := range m.LT {
					r.Names[l.Name] = fmt.Sprintf("%s.%d.%d", local, depth, i)
				}
				if m.Mining != nil && m.Function == "regression" && (m.Mining.Method == "sum" || m.Mining.Method == "average" || m.Mining.Method == "") {
					for _, sg := range m.Mining.Segments {
						if k := sg.Model; len(k.Outputs) == 1 && (k.Reg != nil || k.Mining != nil && k.Mining.Method != "modelChain" && k.Mining.Method != "selectFirst") {
							r.Names[k.Outputs[0].Name] = member
						}
					}
				}
			})
		}
	}
	return r
}

// renamed says how two results differ, of which the second is of a renamed
// document.
func (r *Renaming) differ(want Out, a evaluation.DataRow, aerr error, b evaluation.DataRow, berr error) string {
	both := func() string { return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr)) }
	if (aerr != nil) != (berr != nil) || aerr == nil && len(a) != len(b) {
		return both()
	}
	if aerr != nil {
		return ""
	}
	for k, x := range a {
		y, ok := b[r.name(k)]
		if !ok {
			return both()
		}
		if s, ok := x.Raw().(string); ok {
			if len(want.Vals[k].Labels) > 1 {
				continue
			}
			if y.String() != r.value(k, s) && y.String() != s {
				return both()
			}
			if k == "class" && y.String() != r.label(s) {
				return both()
			}
			continue
		}
		fx, fy := x.Float64(), y.Float64()
		if !(math.Abs(fx-fy) <= 1e-9*(1+math.Abs(fx)) || math.IsNaN(fx) && math.IsNaN(fy) || fx == fy) {
			return both()
		}
	}
	return ""
}

func init() {
	register("P30",
		"A random document with two models of any kinds (trees of all strategies, regressions, ensembles and chains, derived fields, MapValues) and 4 rows, and a renaming of everything that has a name: fields of the dictionary, derived fields, outputs and targets, class labels, node and segment ids, MapValues columns and the values of string fields that are only told apart - to each other's names, or to names easily taken for one another (upper and lower case, prefixes, white space, doubled, numbered); derived fields and outputs of sibling models may all get the same name. The renamed document must give the renamed results for the renamed rows. Non-trivial: a compared row has a prediction and at least three names that the document uses have changed.",
		700, 30000,
		gen(func(g G) *RenameCase {
			c := &RenameCase{}
			switch g.n(6) {
			case 0:
				m := genMapCase(g)
				c.Doc, c.Rows = m.Doc, m.Rows
				if len(c.Rows) > 5 {
					c.Rows = c.Rows[:5]
				}
			case 1, 2:
				m := g.miningCase([]string{"modelChain", "sum", "average", "selectFirst"}, g.between(1, 2), 4)
				c.Doc, c.Rows = m.Doc, m.Rows
			default:
				any := g.anyCase(2, g.n(2)*12, 4, 45)
				c.Doc, c.Rows = any.Doc, any.Rows
				for _, m := range c.Doc.Models {
					g.replacements(m.Schema, c.Doc.baseFields(), 15)
				}
			}
			c.Ren = g.renaming(c.Doc, c.Rows)
			return c
		}),
		func(c *RenameCase) Res {
			var res Res
			cl := map[string]bool{}
			changed := 0
			for a, b := range c.Ren.Names {
				if a != b {
					changed++
				}
			}
			seen := map[string]bool{}
			for _, b := range c.Ren.Names {
				if seen[b] {
					cl["one name for several"] = true
				}
				seen[b] = true
			}
			for a, b := range c.Ren.Labels {
				if a != b {
					cl["labels"] = true
				}
			}
			for range c.Ren.Values {
				cl["values"] = true
			}
			for a, b := range c.Ren.Cols {
				if a != b {
					cl["columns"] = true
				}
			}
			for a, b := range c.Ren.IDs {
				if a != b {
					cl["ids"] = true
				}
			}
			ren := c.Ren.apply(c.Doc)
			_, ms := load(c.Doc)
			_, rs := load(ren)
			for mi, m := range ms {
				for ri, row := range c.Rows {
					want := c.Doc.Score(mi, row)
					if want.Amb != "" {
						res.Skipped++
						continue
					}
					rrow := Row{}
					for k, v := range row {
						if v.Rep == "string" {
							v.Text = c.Ren.value(k, v.Text)
						}
						rrow[c.Ren.name(k)] = v
					}
					a, aerr := eval(m, goRow(row))
					b, berr := eval(rs[mi], goRow(rrow))
					res.Evals += 2
					if diff := c.Ren.differ(want, a, aerr, b, berr); diff != "" {
						fail("model %d, row %d {%s}: with other names {%s} the result is another: %s\n%s\nrenamed:\n%s", mi, ri, showRow(row), showRow(rrow), diff, render(c.Doc.xml()), render(ren.xml()))
					}
					if len(a) > 0 && changed >= 3 {
						res.Nontrivial = true
						cl[c.Doc.Models[mi].Kind] = true
					}
				}
			}
			res.Classes = classes(cl)
			return res
		})
}

// ---- P31

// AddCase is a document and the same with parts added that cannot matter.
type AddCase struct {
	Doc   *Doc     `json:"doc"`
	Rows  []Row    `json:"rows"`
	More  *Doc     `json:"more"`
	At    []int    `json:"at"` // where the models of Doc are in More
	MRows []Row    `json:"mrows"`
	Added []string `json:"added"`
}

func (c *AddCase) Document() string { return render(c.More.xml()) }

// addition adds to a copy of a document.
type addition struct {
	g       G
	d       *Doc
	base    []Field
	all     []Field // with the derived fields all models see
	hint    Row
	classes []string
	full    map[string]bool // fields with a number in every row
	names   []string        // unused ones, most of them like the used ones
	n       int
	what    map[string]bool
}

func (a *addition) name() string {
	if len(a.names) == 0 {
		a.n++
		return fmt.Sprintf("unused%d", a.n)
	}
	s := a.names[0]
	a.names = a.names[1:]
	return s
}

// unused is a derived field that can always be computed.
func (a *addition) unused() Derived {
	g := a.g
	df := Derived{Name: a.name(), Type: pick(g, []string{"double", "string", "float", "integer", "boolean"}), OpType: "categorical"}
	f := "no value"
	if len(a.base) > 0 {
		f = pick(g, a.base).Name
	}
	switch g.n(5) {
	case 0:
		df.Type, df.OpType = "double", "continuous"
		df.E = &Expr{Kind: "const", Const: g.value("double")}
	case 1:
		df.E = &Expr{Kind: "field", Field: f}
		df.Type = "string"
		for _, x := range a.base {
			if x.Name == f {
				df.Type = x.Type
			}
		}
	case 2:
		df.Type = "boolean"
		df.E = &Expr{Kind: "apply", Func: pick(g, []string{"isMissing", "isNotMissing"}), Args: []*Expr{{Kind: "field", Field: f}}}
	case 3:
		df.Type, df.OpType = "double", "continuous"
		df.E = &Expr{Kind: "apply", Func: pick(g, []string{"+", "*", "-", "sum"}), Args: []*Expr{{Kind: "const", Const: "2"}, {Kind: "const", Const: g.value("double")}}}
	case 4:
		df.Type = "string"
		m := &MapV{Out: "o", Cols: []string{"i", "o"}, Pairs: [][2]string{{f, "i"}}, Rows: [][]string{{"a", "b"}, {"1", "c"}}}
		df.E = &Expr{Kind: "map", Map: m, Default: sp("d")}
	}
	return df
}

func (a *addition) done(what string) { a.what[what] = true }

func (a *addition) never() *Pred {
	g := a.g
	switch g.n(5) {
	case 1:
		return &Pred{Kind: "compound", Op: "and", Kids: []*Pred{{Kind: "true"}, {Kind: "false"}}}
	case 2:
		if len(a.base) > 0 {
			f := pick(g, a.base)
			return &Pred{Kind: "compound", Op: "and", Kids: []*Pred{{Kind: "simple", Field: f.Name, Op: "isMissing"}, {Kind: "simple", Field: f.Name, Op: "isNotMissing"}}}
		}
	case 3:
		return &Pred{Kind: "compound", Op: "xor", Kids: []*Pred{{Kind: "true"}, {Kind: "true"}}}
	case 4:
		pc := a.g.pctx(a.d, a.all, a.hint)
		if len(a.all) > 0 {
			return &Pred{Kind: "compound", Op: "and", Kids: []*Pred{a.g.pred(pc, 1), {Kind: "false"}}}
		}
	}
	return &Pred{Kind: "false"}
}

// operands adds operands that decide nothing.
func (a *addition) operands(p *Pred) *Pred {
	if p == nil {
		return p
	}
	for i, k := range p.Kids {
		p.Kids[i] = a.operands(k)
	}
	if p.Kind == "set" && len(p.Items) > 0 && a.g.chance(40) {
		x := pick(a.g, p.Items)
		if p.AType == "string" && a.g.chance(50) {
			for _, f := range a.base {
				if f.Name == p.Field && f.Type == "string" {
					x = "never such\u2020"
				}
			}
		}
		at := a.g.n(len(p.Items) + 1)
		p.Items = append(p.Items[:at:at], append([]string{x}, p.Items[at:]...)...)
		a.done("set item")
	}
	if p.Kind == "compound" && a.g.chance(40) {
		k := &Pred{Kind: "false"}
		if p.Op == "and" {
			k.Kind = "true"
		}
		if p.Op == "surrogate" { // asked only while nothing is known
			return p
		}
		at := a.g.n(len(p.Kids) + 1)
		p.Kids = append(p.Kids[:at:at], append([]*Pred{k}, p.Kids[at:]...)...)
		a.done("neutral operands")
	} else if a.g.chance(15) {
		a.done("predicates wrapped")
		switch a.g.n(3) {
		case 0:
			return &Pred{Kind: "compound", Op: "and", Kids: []*Pred{p, {Kind: "true"}}}
		case 1:
			return &Pred{Kind: "compound", Op: "or", Kids: []*Pred{{Kind: "false"}, p}}
		case 2:
			return &Pred{Kind: "compound", Op: "surrogate", Kids: []*Pred{p, p}}
		}
	}
	return p
}

// tables adds rows that no value matches, or that come after one that
// matches the same.
func (a *addition) tables(ds []Derived) {
	for i := range ds {
		walkExpr(ds[i].E, func(e *Expr) {
			if e.Map == nil || len(e.Map.Rows) == 0 || !a.g.chance(50) {
				return
			}
			row := append([]string{}, pick(a.g, e.Map.Rows)...)
			out := append([]string{}, pick(a.g, e.Map.Rows)...)
			for k, c := range e.Map.Cols {
				if k < len(row) && k < len(out) && c == e.Map.Out {
					row[k] = out[k]
				}
			}
			at := len(e.Map.Rows)
			if a.g.chance(50) && len(e.Map.Pairs) > 0 {
				at = a.g.n(at + 1)
				for k, c := range e.Map.Cols {
					if k < len(row) && c == e.Map.Pairs[0][1] {
						row[k] = "never such\u2020"
					}
				}
			}
			e.Map.Rows = append(e.Map.Rows[:at:at], append([][]string{row}, e.Map.Rows[at:]...)...)
			a.done("table row")
		})
	}
}

func (a *addition) inModel(m *Model, depth int) {
	g := a.g
	if g.chance(30) {
		f := MField{Name: a.name()}
		typ := pick(g, []string{"double", "string", "integer", "boolean"})
		a.d.Fields = append(a.d.Fields, Field{Name: f.Name, Type: typ})
		if g.chance(60) {
			f.Replacement = sp(g.value(typ))
		}
		f.Usage = pick(g, []string{"", "active", "supplementary", "order", "group"})
		at := g.n(len(m.Schema) + 1)
		m.Schema = append(m.Schema[:at:at], append([]MField{f}, m.Schema[at:]...)...)
		a.done("mining field")
	}
	if g.chance(30) {
		at := g.n(len(m.LT) + 1)
		m.LT = append(m.LT[:at:at], append([]Derived{a.unused()}, m.LT[at:]...)...)
		a.done("local derived field")
	}
	a.tables(m.LT)
	if m.Tree != nil {
		walkNodes(m.Tree.Root, func(n *TNode) { n.Pred = a.operands(n.Pred) })
		walkNodes(m.Tree.Root, func(n *TNode) {
			if len(n.Kids) == 0 || !g.chance(30) {
				return
			}
			k := &TNode{Pred: a.never(), Score: "3"}
			if g.chance(70) {
				k.ID = fmt.Sprintf("never%d", a.n)
				a.n++
			}
			k.RC = n.RC
			if m.Function == "classification" {
				k.Score = pick(g, a.classes)
				if k.RC != nil || g.chance(30) {
					k.RC = sp("7")
					k.SD = []SDist{{Value: k.Score, RC: "7"}}
				}
			}
			if g.chance(30) {
				k.Kids = []*TNode{{Pred: &Pred{Kind: "true"}, Score: k.Score, RC: k.RC, SD: k.SD, ID: k.ID + "a"}}
			}
			at := g.n(len(n.Kids) + 1)
			n.Kids = append(n.Kids[:at:at], append([]*TNode{k}, n.Kids[at:]...)...)
			a.done("node never entered")
		})
	}
	if m.Reg != nil {
		for i := range m.Reg.Tables {
			t := &m.Reg.Tables[i]
			for _, f := range a.base {
				if (f.Type == "double" || f.Type == "integer") && a.full[f.Name] && g.chance(25) {
					at := g.n(len(t.Num) + 1)
					n := NumP{Name: f.Name, Coef: pick(g, []string{"0", "0.0", "-0", "0e5"})}
					t.Num = append(t.Num[:at:at], append([]NumP{n}, t.Num[at:]...)...)
					a.done("predictor with coefficient 0")
				}
				if f.Type == "string" && g.chance(25) {
					at := g.n(len(t.Cat) + 1)
					c := CatP{Name: f.Name, Value: pick(g, []string{"never such", "a ", "aa", "yes\u00a0", "B"}), Coef: pick(g, []string{"1", "1e6", "-3"})}
					if c.Value == "a " || c.Value == "B" || c.Value == "aa" {
						c.Value += "\u2020"
					}
					t.Cat = append(t.Cat[:at:at], append([]CatP{c}, t.Cat[at:]...)...)
					a.done("predictor for a value that never occurs")
				}
			}
		}
	}
	if m.Mining != nil {
		for _, sg := range m.Mining.Segments {
			sg.Pred = a.operands(sg.Pred)
			a.inModel(sg.Model, depth+1)
		}
		for i := g.n(3); i > 0; i-- {
			fs := a.base
			c := mctx{d: a.d, base: fs, fs: append([]Field{}, a.all...), hint: a.hint, n: &a.n, derive: 20, classes: a.classes}
			sg := &Seg{Pred: a.never(), Model: g.member(c, pick(g, []string{m.Function, m.Function, "regression", "classification"}), false, 1-depth)}
			if g.chance(70) {
				sg.ID = fmt.Sprintf("never%d", a.n)
			}
			at := g.n(len(m.Mining.Segments) + 1)
			m.Mining.Segments = append(m.Mining.Segments[:at:at], append([]*Seg{sg}, m.Mining.Segments[at:]...)...)
			a.done("segment never active")
		}
	}
}

func sortedKeys(m map[string]bool) []string { return classes(m) }

func (g G) add(c *AddCase, classes []string) {
	c.More = c.Doc.deepCopy()
	a := &addition{g: g, d: c.More, base: c.Doc.baseFields(), hint: c.Rows[0], classes: classes, n: 1000, what: map[string]bool{}, full: map[string]bool{}}
	for _, f := range a.base {
		a.full[f.Name] = true
		for _, r := range c.Rows {
			x, err := strconv.ParseFloat(r[f.Name].Text, 64)
			if err != nil || !(math.Abs(x) < 1e300) || r[f.Name].Rep == "nil" {
				a.full[f.Name] = false
			}
		}
	}
	a.all = append([]Field{}, a.base...)
	for _, df := range c.Doc.Global {
		a.all = append(a.all, Field{Name: df.Name, Type: df.Type})
	}
	used := map[string]bool{"score": true}
	p := &parts{name: func(s *string) { used[*s] = true }, label: func(*string) {}, id: func(*string) {}, value: func(string, *string) {}}
	p.doc(c.Doc)
	for s := range used {
		for _, v := range []string{strings.ToUpper(s), strings.ToLower(s), s + " ", s + "1", s + "_"} {
			if !used[v] && !strings.HasPrefix(s, "probability(") && v != "score" {
				a.names = append(a.names, v)
			}
		}
	}
	sort.Strings(a.names)
	for i, j := range g.perm(len(a.names)) {
		a.names[i], a.names[j] = a.names[j], a.names[i]
	}
	seen := map[string]bool{}
	var names []string
	for _, s := range a.names {
		if !seen[s] && !used[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	a.names = names

	for _, m := range c.More.Models {
		a.inModel(m, 0)
	}
	a.tables(c.More.Global)
	c.At = nil
	var models []*Model
	for i := range c.More.Models {
		for k := g.n(3); k > 0 && g.chance(50); k-- {
			a.n += 100
			models = append(models, g.anyModel(c.More, a.base, a.hint, classes, &a.n, 20))
			a.done("model")
		}
		c.At = append(c.At, len(models))
		models = append(models, c.More.Models[i])
	}
	c.More.Models = models
	for k := g.n(4); k > 0; k-- {
		f := Field{Name: a.name(), Type: pick(g, []string{"double", "string", "integer", "boolean", "float", "date"})}
		if g.chance(30) {
			f.Values = []string{"1", "2"}
			f.OpType = "categorical"
		}
		at := g.n(len(c.More.Fields) + 1)
		c.More.Fields = append(c.More.Fields[:at:at], append([]Field{f}, c.More.Fields[at:]...)...)
		a.done("data field")
	}
	for k := g.n(3); k > 0; k-- {
		at := g.n(len(c.More.Global) + 1)
		c.More.Global = append(c.More.Global[:at:at], append([]Derived{a.unused()}, c.More.Global[at:]...)...)
		a.done("global derived field")
	}
	var extra []string
	for k := g.n(4); k > 0; k-- {
		extra = append(extra, a.name())
	}
	for _, f := range c.More.Fields { // values for what was added
		if !used[f.Name] && g.chance(60) {
			extra = append(extra, f.Name)
		}
	}
	// what models put out, unless something looks at it
	in, results := map[string]bool{}, map[string]bool{"score": true}
	for _, c := range classes {
		results["probability("+c+")"] = true
	}
	look := &parts{
		name: func(*string) {}, label: func(*string) {}, id: func(*string) {},
		value: func(f string, _ *string) { in[f] = true },
		expr: func(e *Expr) {
			in[e.Field] = true
			if e.Map != nil {
				for _, pr := range e.Map.Pairs {
					in[pr[0]] = true
				}
			}
		},
		pred: func(q *Pred) { in[q.Field] = true },
		model: func(m *Model) {
			for _, df := range m.LT {
				in[df.Name] = true
			}
			for _, o := range m.Outputs {
				results[o.Name] = true
			}
			for _, t := range m.Targets {
				results[t.Field] = true
			}
			for _, f := range m.Schema {
				if f.Usage == "target" || f.Usage == "predicted" {
					results[f.Name] = true
				}
			}
			if m.Reg != nil {
				for _, t := range m.Reg.Tables {
					for _, n := range t.Num {
						in[n.Name] = true
					}
					for _, c := range t.Cat {
						in[c.Name] = true
					}
				}
			}
		},
	}
	look.doc(c.More)
	for _, df := range c.More.Global {
		in[df.Name] = true
	}
	for _, s := range sortedKeys(results) {
		if !in[s] && g.chance(30) {
			extra = append(extra, s)
			a.done("value of a result in the row")
		}
	}
	odd := []Cell{{"string", "x"}, {"int", "5"}, {"float64", "NaN"}, {"bool", "true"}, {Rep: "nil"}, {"string", ""}, {"uint64", "18446744073709551615"}, {"float64", "1e300"}}
	for _, r := range c.Rows {
		q := Row{}
		for k, v := range r {
			q[k] = v
		}
		for _, e := range extra {
			typ := ""
			for _, f := range c.More.Fields {
				if f.Name == e {
					typ = f.Type
				}
			}
			if typ != "" && typ != "date" {
				q[e] = g.cell(typ, g.value(typ))
			} else {
				q[e] = pick(g, odd)
			}
			a.done("value in the row")
		}
		c.MRows = append(c.MRows, q)
	}
	for w := range a.what {
		c.Added = append(c.Added, w)
	}
	sort.Strings(c.Added)
}

func init() {
	register("P31",
		"A random document with one or two models of any kinds and 4 rows, and the same with parts added at random places that cannot matter: values of fields the document does not use, or that have the names of results, in the rows; data fields, mining fields with replacements, global and local derived fields nothing refers to, most with names close to used ones; nodes and segments (with models of any kind) whose predicates are false for every row; operands that decide nothing; set items that are there already or never occur; table rows that are never matched first; categorical predictors for values that never occur and numeric ones with coefficient 0; further models before and after. Every model must give the same results, up to rounding. Non-trivial: at least three kinds of parts are added and a compared row has a prediction.",
		500, 22000,
		gen(func(g G) *AddCase {
			c := &AddCase{}
			if g.chance(40) {
				m := g.miningCase([]string{"modelChain", "sum", "average", "selectFirst"}, g.between(1, 2), 4)
				c.Doc, c.Rows = m.Doc, m.Rows
			} else {
				any := g.anyCase(g.between(1, 2), g.n(2)*12, 4, 45)
				c.Doc, c.Rows = any.Doc, any.Rows
				for _, m := range c.Doc.Models {
					g.replacements(m.Schema, c.Doc.baseFields(), 15)
				}
			}
			var classes []string
			for _, f := range c.Doc.Fields {
				if f.Name == "class" {
					classes = f.Values
				}
			}
			g.add(c, classes)
			return c
		}),
		func(c *AddCase) Res {
			var res Res
			cl := map[string]bool{}
			_, ms := load(c.Doc)
			_, rs := load(c.More)
			for mi, m := range ms {
				for ri, row := range c.Rows {
					want := c.Doc.Score(mi, row)
					if want.Amb != "" {
						res.Skipped++
						continue
					}
					a, aerr := eval(m, goRow(row))
					b, berr := eval(rs[c.At[mi]], goRow(c.MRows[ri]))
					res.Evals += 2
					diff := closeOut(a, aerr, b, berr)
					if diff != "" {
						same := Renaming{}
						diff = same.differ(want, a, aerr, b, berr)
					}
					if diff != "" {
						fail("model %d, row %d {%s}: parts that cannot matter (%s) change the result, row {%s}: %s\n%s\nwith them:\n%s", mi, ri, showRow(row), strings.Join(c.Added, ", "), showRow(c.MRows[ri]), diff, render(c.Doc.xml()), render(c.More.xml()))
					}
					if len(a) > 0 && len(c.Added) >= 3 {
						res.Nontrivial = true
						cl[c.Doc.Models[mi].Kind] = true
					}
				}
			}
			for _, w := range c.Added {
				cl[w] = true
			}
			res.Classes = classes(cl)
			return res
		})
}
