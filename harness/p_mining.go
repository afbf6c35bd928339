package main

import (
	"fmt"
	"strings"
)

// mctx is what the members of an ensemble may refer to.
type mctx struct {
	d       *Doc
	base    []Field // fields of the row
	fs      []Field // every visible field: the row, derived fields, chain outputs
	hint    Row
	classes []string
	n       *int
	// replacements below the top level, only sound while no derived field
	// outside has read the field already
	leafRepl bool
	derive   int // percentage of models with local transformations
	strats   bool
	fed      map[string]bool // chain outputs
	miss     int
}

func (c mctx) name(prefix string) string {
	*c.n++
	return fmt.Sprintf("%s%d", prefix, *c.n)
}

func (c mctx) with(fs ...Field) mctx {
	c.fs = append(append([]Field{}, c.fs...), fs...)
	return c
}

func (g G) ltFor(c *mctx) []Derived {
	if !g.chance(c.derive) {
		return nil
	}
	ec := &ectx{fs: append([]Field{}, c.fs...)}
	var lt []Derived
	for i := g.between(1, 2); i > 0; i-- {
		df := g.derived(ec, c.name("l"))
		lt = append(lt, df)
		*c = c.with(Field{Name: df.Name, Type: df.Type})
	}
	return lt
}

func (g G) replacements(ms []MField, fs []Field, pct int) {
	for i := range ms {
		for _, f := range fs {
			if f.Name == ms[i].Name && ms[i].Usage == "" && g.chance(pct) {
				ms[i].Replacement = sp(g.value(f.Type))
				if g.chance(20) {
					ms[i].Usage = pick(g, []string{"active", "supplementary", "group", "order", "frequencyWeight", "analysisWeight"})
				}
			}
		}
	}
}

// member draws a model for a segment. one asks for a model whose result holds
// a single number, which sum and average need.
func (g G) member(c mctx, fn string, one bool, depth int) *Model {
	k := g.n(10)
	if depth > 0 && k >= 5 {
		var method string
		if one && fn == "classification" {
			method = pick(g, []string{"sum", "average"})
		} else {
			method = pick(g, []string{"sum", "average", "selectFirst", "modelChain", ""})
		}
		m := g.ensemble(c, fn, method, false, depth)
		// what counts is the rescaled number, whatever else there is
		if one && fn == "regression" && len(m.Outputs)+len(m.Targets) == 1 && m.Mining.Method != "modelChain" && m.Mining.Method != "selectFirst" {
			if len(m.Outputs) == 0 && g.chance(40) {
				m.Outputs = []Output{{Name: c.name("o"), Type: "double"}}
			}
			if len(m.Outputs) > 0 && g.chance(25) {
				m.Outputs[0].Name = "score"
			}
		}
		return m
	}
	if k < 3 {
		return g.regMember(c, fn)
	}
	return g.treeMember(c, fn)
}

func (g G) regMember(c mctx, fn string) *Model {
	m := &Model{Kind: "reg", Function: fn, Schema: schemaFor(c.base, "")}
	if c.leafRepl {
		g.replacements(m.Schema, c.base, 15)
	}
	m.LT = g.ltFor(&c)
	var fs []Field
	for _, f := range c.fs {
		if h, ok := c.hint[f.Name]; ok && h.Rep != "nil" || c.fed[f.Name] || !ok && !strings.HasPrefix(f.Name, "l") && g.chance(20) {
			fs = append(fs, f)
		} else if ok && g.chance(6) {
			fs = append(fs, f)
		}
	}
	if fn == "regression" {
		m.Outputs = []Output{{Name: c.name("o"), Type: pick(g, []string{"double", "double", ""})}}
		m.Reg = &Reg{Norm: pick(g, []string{"", "none", "logit", "cauchit", ""}), Tables: []RTable{g.table(fs, c.hint, 0)}}
		return m
	}
	m.Schema = schemaFor(c.base, "class")
	m.Reg = &Reg{Norm: "softmax"}
	link := len(c.classes) == 2 && g.chance(50)
	if link {
		m.Reg.Norm = pick(g, []string{"logit", "cauchit", "cloglog", "none", ""})
	}
	for i, cl := range c.classes {
		t := g.table(fs, c.hint, 0)
		if link && i > 0 {
			t = RTable{Intercept: "0"}
		}
		t.Category = cl
		m.Reg.Tables = append(m.Reg.Tables, t)
	}
	for _, i := range g.perm(len(c.classes)) {
		m.Outputs = append(m.Outputs, Output{Name: "probability(" + c.classes[i] + ")", Type: "double", Feature: "probability", Value: c.classes[i]})
	}
	return m
}

func (g G) treeMember(c mctx, fn string) *Model {
	m := &Model{Kind: "tree", Function: fn, Tree: &Tree{NoTrue: "returnLastPrediction"}}
	target := ""
	if fn == "classification" {
		target = "class"
	}
	m.Schema = schemaFor(c.base, target)
	if c.leafRepl {
		g.replacements(m.Schema, c.base, 15)
	}
	m.LT = g.ltFor(&c)
	m.Tree.MVS = pick(g, []string{"none", "lastPrediction", ""})
	n := 0
	tc := &tctx{pctx: g.pctx(c.d, c.fs, c.hint), function: fn, classes: c.classes, maxDepth: 2, unknown: 10, deadEnd: 5, n: &n, predDepth: 1}
	if fn == "classification" && g.chance(40) {
		m.Tree.MVS = pick(g, []string{"defaultChild", "weightedConfidence", "aggregateNodes"})
		tc.ids, tc.records = true, true
		m.Tree.Penalty = sp(pick(g, []string{"1", "0.5", "0.8"}))
	}
	m.Tree.Root = g.node(tc, 0, true)
	return m
}

// segPred draws the predicate of a segment.
func (g G) segPred(c mctx, active int) *Pred {
	pc := g.pctx(c.d, c.fs, c.hint)
	for _, f := range c.fs {
		pc.types[f.Name] = f.Type
	}
	if g.chance(active) {
		return g.predFor(pc, 1, T, 4)
	}
	if g.chance(40) {
		return g.predFor(pc, 1, U, 5)
	}
	return g.predFor(pc, 1, F, 4)
}

func (g G) ensemble(c mctx, fn, method string, top bool, depth int) *Model {
	m := &Model{Kind: "mining", Function: fn, Mining: &Mining{Method: method}}
	m.Schema = schemaFor(c.base, "")
	if fn == "classification" {
		m.Schema = schemaFor(c.base, "class")
	}
	if top || c.leafRepl {
		g.replacements(m.Schema, c.base, 12)
	}
	m.LT = g.ltFor(&c)
	if len(m.LT) > 0 {
		c.leafRepl = false
	}
	combine := method == "sum" || method == "average" || method == ""
	if combine {
		if fn == "classification" {
			for _, i := range g.perm(len(c.classes)) {
				if i == 0 || !g.chance(15) {
					m.Outputs = append(m.Outputs, Output{Name: "probability(" + c.classes[i] + ")", Type: "double", Feature: "probability", Value: c.classes[i]})
				}
			}
		} else {
			no, nt := 1, 0
			if g.chance(50) {
				no, nt = 0, 1
			}
			if top {
				no, nt = g.n(3), pick(g, []int{0, 1, 0, 1, 0, 1, 2})
				if no+nt == 0 {
					no = 1
				}
			}
			for ; no > 0; no-- {
				m.Outputs = append(m.Outputs, Output{Name: c.name("o"), Type: pick(g, []string{"double", ""})})
			}
			for ; nt > 0; nt-- {
				t := Target{Field: c.name("t")}
				if g.chance(75) {
					t.Factor = sp(pick(g, []string{"2", "0.5", "-1", "1", "0", "10", "0.25"}))
				}
				if g.chance(75) {
					t.Constant = sp(pick(g, []string{"1", "-3", "0.5", "100", "0"}))
				}
				m.Targets = append(m.Targets, t)
				c.d.Fields = append(c.d.Fields, Field{Name: t.Field, Type: "double"})
			}
		}
	}
	k := g.between(1, 4)
	active := 75
	many := top && g.chance(3)
	if many {
		k = g.large(120)
		depth = 1
		if combine && g.chance(25) {
			k, active = pick(g, []int{257, 260, 300, g.large(258)}), 100
		}
	}
	if method == "selectFirst" {
		active = 45
		if many {
			active = 5
		}
	}
	fed := map[string]bool{}
	for f := range c.fed {
		fed[f] = true
	}
	c.fed = fed
	for i := 0; i < k; i++ {
		sfn := fn
		if method == "modelChain" && i < k-1 && g.chance(40) {
			sfn = pick(g, []string{"regression", "classification"})
		}
		sg := &Seg{Pred: g.segPred(c, active)}
		if g.chance(70) {
			sg.ID = fmt.Sprint(i + 1)
		}
		sg.Model = g.member(c, sfn, combine, depth-1)
		m.Mining.Segments = append(m.Mining.Segments, sg)
		if method != "modelChain" {
			continue
		}
		add := func(name, typ string) {
			for _, f := range c.fs {
				if f.Name == name {
					return
				}
			}
			c = c.with(Field{Name: name, Type: typ})
			fed[name] = true
		}
		for _, o := range sg.Model.Outputs {
			add(o.Name, "double")
		}
		for _, t := range sg.Model.Targets {
			add(t.Field, "double")
		}
		if sg.Model.Kind == "tree" && sfn == "classification" {
			add("class", "string")
		}
	}
	// a chain or selection puts out what its segments do, and may declare it
	if !top && (method == "modelChain" || method == "selectFirst") && g.chance(60) {
		segs := m.Mining.Segments
		if method == "modelChain" {
			segs = segs[len(segs)-1:]
		}
		seen := map[string]bool{}
		for _, s := range segs {
			for _, o := range s.Model.Outputs {
				if !seen[o.Name] {
					seen[o.Name] = true
					m.Outputs = append(m.Outputs, Output{Name: o.Name, Type: pick(g, []string{"double", ""})})
				}
			}
		}
	}
	return m
}

func (g G) miningCase(methods []string, depth, rows int) *RowsCase {
	miss := g.n(3) * 12
	fs := g.fields(g.between(2, 4))
	hint := g.row(fs, miss)
	n := 0
	c := mctx{d: &Doc{Fields: append([]Field{}, fs...)}, base: fs, fs: append([]Field{}, fs...), hint: hint, n: &n, derive: 20, miss: miss}
	c.classes = pick(g, classPools)
	if g.chance(25) {
		ec := &ectx{fs: append([]Field{}, fs...)}
		for i := g.between(1, 2); i > 0; i-- {
			df := g.derived(ec, c.name("g"))
			c.d.Global = append(c.d.Global, df)
			c = c.with(Field{Name: df.Name, Type: df.Type})
		}
	}
	c.leafRepl = len(c.d.Global) == 0
	c.d.Fields = append(c.d.Fields, Field{Name: "class", Type: "string", Values: c.classes})
	fn := pick(g, []string{"regression", "classification"})
	m := g.ensemble(c, fn, pick(g, methods), true, depth)
	c.d.Models = []*Model{m}
	return &RowsCase{Doc: c.d, Rows: g.rowsFrom(fs, hint, rows, miss)}
}

func walkModels(m *Model, depth int, f func(*Model, int)) {
	f(m, depth)
	if m.Mining != nil {
		for _, s := range m.Mining.Segments {
			walkModels(s.Model, depth+1, f)
		}
	}
}

func miningClasses(c *RowsCase, cl map[string]bool) (nested int) {
	walkModels(c.Doc.Models[0], 0, func(m *Model, depth int) {
		if depth > nested && m.Kind == "mining" {
			nested = depth
		}
		if m.Kind == "mining" {
			cl[m.Function+" "+m.Mining.Method] = true
		} else if depth > 0 {
			cl[m.Function+" "+m.Kind] = true
		}
		if len(m.LT) > 0 {
			cl["local transformations"] = true
		}
		for _, f := range m.Schema {
			if f.Replacement != nil {
				cl["replacement"] = true
			}
		}
	})
	if len(c.Doc.Global) > 0 {
		cl["global transformations"] = true
	}
	return
}

func init() {
	register("P07",
		"A random sum or average mining model (1-4 segments: trees, regressions, at times nested ensembles; regression or classification; rescaled targets; local and global derived fields; replacements) whose segment predicates are true, false or unknown for the rows, and 4 rows, compared to the reference combination of the active segments. Non-trivial: for a compared row at least two segments are active, or some but not all.",
		1200, 50000,
		gen(func(g G) *RowsCase {
			return g.miningCase([]string{"sum", "average", "average", "sum", ""}, g.between(1, 2), 4)
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if o.Info.Active >= 2 {
					res.Nontrivial = true
					cl["several active"] = true
				}
				if o.Info.Active > 0 && o.Info.Active < o.Info.Segments {
					res.Nontrivial = true
					cl["some inactive"] = true
				}
				if o.None {
					cl["none active"] = true
				}
				if o.Err != "" {
					cl["error"] = true
				}
			})
			miningClasses(c, cl)
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"active segments have a prediction"}

	register("P08",
		"A random modelChain (1-4 segments of trees, regressions or nested ensembles) in which later predicates, predictors and derived fields may use the outputs, labels and targets of earlier segments, and 4 rows; compared to the reference. Non-trivial: for a compared row at least two segments are active and a later one mentions an earlier output.",
		1200, 50000,
		gen(func(g G) *RowsCase { return g.miningCase([]string{"modelChain"}, g.between(1, 2), 4) }),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			uses := chainUses(c.Doc.Models[0], cl)
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if o.Info.Active >= 2 && uses {
					res.Nontrivial = true
				}
				if o.Info.Active < o.Info.Segments {
					cl["some inactive"] = true
				}
				if o.None {
					cl["no prediction"] = true
				}
				if o.Err != "" {
					cl["error"] = true
				}
			})
			miningClasses(c, cl)
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"no ties between the classes fed forward"}

	register("P09",
		"A random selectFirst mining model (1-4 segments with true, false and unknown predicates) and 5 rows; compared to the reference, and, where the first true predicate is that of segment k, to the library's own result for the model reduced to segment k. Non-trivial: a compared row selects a segment that is not the first, or none.",
		1200, 50000,
		gen(func(g G) *RowsCase { return g.miningCase([]string{"selectFirst"}, g.between(1, 2), 5) }),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			d := c.Doc
			checkRows(d, c.Rows, &res, nil)
			_, ms := load(d)
			alone := map[int][]int{}
			top := d.Models[0]
			for ri, r := range c.Rows {
				s, vals, e := newScope(d).prepare(top, refRow(d, r))
				if e != "" {
					continue
				}
				chosen := -1
				unknown := false
				for i, sg := range top.Mining.Segments {
					p := evalPred(sg.Pred, vals, s.types)
					unknown = unknown || p == U && chosen < 0
					if p == T {
						chosen = i
						break
					}
				}
				if chosen != 0 {
					res.Nontrivial = true
				}
				if unknown {
					cl["unknown predicate skipped"] = true
				}
				cl[fmt.Sprintf("segment %d selected", chosen+1)] = true
				if chosen < 0 {
					out, err := eval(ms[0], goRow(r))
					res.Evals++
					if err != nil || len(out) != 0 {
						fail("row %d {%s}: no segment applies but the result is %s\n%s", ri, showRow(r), showOut(out, err), render(d.xml()))
					}
					continue
				}
				alone[chosen] = append(alone[chosen], ri)
			}
			for k, rows := range alone {
				m := *top
				m.Mining = &Mining{Method: "selectFirst", Segments: []*Seg{{Pred: &Pred{Kind: "true"}, Model: top.Mining.Segments[k].Model}}}
				dd := *d
				dd.Models = []*Model{&m}
				_, one := load(&dd)
				for _, ri := range rows {
					a, aerr := eval(ms[0], goRow(c.Rows[ri]))
					b, berr := eval(one[0], goRow(c.Rows[ri]))
					res.Evals++
					if diff := sameOut(a, aerr, b, berr); diff != "" {
						fail("row %d {%s}: segment %d is selected, but its model alone gives another result: %s\n%s", ri, showRow(c.Rows[ri]), k+1, diff, render(d.xml()))
					}
				}
			}
			miningClasses(c, cl)
			res.Classes = classes(cl)
			return res
		})

	register("P27",
		"A random mining model nested up to three levels, at times up to 27 (all four methods, trees and regressions at the leaves, derived fields and replacements at any level, chain outputs used deeper down) and 4 rows; compared to the reference applied recursively. Non-trivial: the document nests at least two mining models and a row is compared.",
		700, 30000,
		gen(func(g G) *RowsCase {
			c := g.miningCase([]string{"sum", "average", "modelChain", "selectFirst", "modelChain"}, 3, 4)
			if g.chance(3) {
				// far down
				m := c.Doc.Models[0]
				for i := g.between(2, 24); i > 0; i-- {
					m = (&twin{g: g, n: i * 10}).around(m, nil, pick(g, []string{"selectFirst", "modelChain"}), false)
					m.Mining.Segments[0].Pred = &Pred{Kind: "true"}
				}
				c.Doc.Models[0] = m
			}
			return c
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			nested := miningClasses(c, cl)
			checkRows(c.Doc, c.Rows, &res, func(o Out, _, _ int) {
				if nested >= 1 {
					res.Nontrivial = true
				}
				cl[fmt.Sprintf("nesting %d", nested)] = true
			})
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"active members of sums and averages have a prediction"}
}

// chainUses tells whether a later segment mentions an earlier output.
func chainUses(m *Model, cl map[string]bool) bool {
	out := map[string]bool{}
	uses := false
	mention := func(where, f string) {
		if out[f] {
			uses = true
			cl["fed to "+where] = true
		}
	}
	for _, sg := range m.Mining.Segments {
		walkPred(sg.Pred, func(p *Pred) { mention("segment predicate", p.Field) })
		walkModels(sg.Model, 0, func(x *Model, _ int) {
			for _, l := range x.LT {
				walkExpr(l.E, func(e *Expr) { mention("derived field", e.Field) })
			}
			if x.Reg != nil {
				for _, t := range x.Reg.Tables {
					for _, p := range t.Num {
						mention("predictor", p.Name)
					}
				}
			}
			if x.Tree != nil {
				walkNodes(x.Tree.Root, func(n *TNode) { walkPred(n.Pred, func(p *Pred) { mention("tree", p.Field) }) })
			}
		})
		for _, o := range sg.Model.Outputs {
			out[o.Name] = true
		}
		for _, t := range sg.Model.Targets {
			out[t.Field] = true
		}
		if sg.Model.Kind == "tree" {
			out["class"] = true
		}
	}
	return uses
}
