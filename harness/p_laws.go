package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
)

// Pairs of documents that mean the same: P33 orders that mean nothing, P34
// other ways to write the same thing.

// TwinCase is a document and another that must give the same results.
type TwinCase struct {
	Doc      *Doc     `json:"doc"`
	Rows     []Row    `json:"rows"`
	Twin     *Doc     `json:"twin"`
	TwinRows []Row    `json:"twinrows,omitempty"` // if they are not Rows
	At       []int    `json:"at"`                 // where the models of Doc are in Twin
	How      []string `json:"how"`
}

func (c *TwinCase) Document() string { return render(c.Twin.xml()) }

// twin makes the second document.
type twin struct {
	g     G
	d     *Doc
	how   map[string]bool
	types map[string]string // of the fields of the row
	full  map[string]bool   // those with a number in every row
	n     int
}

func (g G) twinCase(make func(t *twin), first ...func(*TwinCase)) *TwinCase {
	c := &TwinCase{}
	if g.chance(50) {
		m := g.miningCase([]string{"modelChain", "sum", "average", "selectFirst"}, g.between(1, 2), 4)
		c.Doc, c.Rows = m.Doc, m.Rows
	} else {
		derive := 45
		if len(first) > 0 && g.chance(50) {
			derive = 0
		}
		any := g.anyCase(g.between(1, 3), g.n(3)*12, 4, derive)
		c.Doc, c.Rows = any.Doc, any.Rows
	}
	for _, f := range first {
		f(c)
	}
	t := &twin{g: g, d: c.Doc.deepCopy(), how: map[string]bool{}, types: map[string]string{}, full: map[string]bool{}, n: 0}
	for _, f := range c.Doc.baseFields() {
		t.types[f.Name] = f.Type
		t.full[f.Name] = true
		for _, r := range c.Rows {
			x, err := strconv.ParseFloat(r[f.Name].Text, 64)
			if err != nil || !(math.Abs(x) < 1e100) || r[f.Name].Rep == "nil" {
				t.full[f.Name] = false
			}
		}
	}
	for i := range c.Doc.Models {
		c.At = append(c.At, i)
	}
	make(t)
	if len(c.At) > 1 && t.how["models"] {
		perm := g.perm(len(c.At))
		ms := t.d.Models
		t.d.Models = nil
		for _, i := range perm {
			c.At[i] = len(t.d.Models)
			t.d.Models = append(t.d.Models, ms[i])
		}
	}
	c.Twin = t.d
	c.How = classes(t.how)
	return c
}

func (t *twin) did(what string) { t.how[what] = true }

func (t *twin) name() string {
	t.n++
	return fmt.Sprintf("twin%d", t.n)
}

// swap puts a list in another order.
func (t *twin) swap(what string, n int, exchange func(i, j int)) {
	if n < 2 || !t.g.chance(75) {
		return
	}
	t.did(what)
	if t.g.chance(40) { // back to front
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			exchange(i, j)
		}
		return
	}
	for i := n - 1; i > 0; i-- {
		exchange(i, t.g.n(i+1))
	}
}

// key is what two texts that may match the same value share.
func key(s string) string {
	s = strings.TrimSpace(s)
	if x, err := strconv.ParseFloat(s, 64); err == nil {
		return strconv.FormatFloat(x, 'g', 6, 64)
	}
	return strings.ToLower(s)
}

func (t *twin) orderExpr(e *Expr) {
	if e == nil {
		return
	}
	walkExpr(e, func(e *Expr) {
		if e.Kind == "apply" && (e.Func == "+" || e.Func == "*") && len(e.Args) == 2 {
			t.swap("factors and terms", 2, func(i, j int) { e.Args[i], e.Args[j] = e.Args[j], e.Args[i] })
		}
		if e.Kind == "apply" && e.Func == "sum" {
			t.swap("arguments of a sum", len(e.Args), func(i, j int) { e.Args[i], e.Args[j] = e.Args[j], e.Args[i] })
		}
		m := e.Map
		if m == nil {
			return
		}
		t.swap("pairs of a MapValues", len(m.Pairs), func(i, j int) { m.Pairs[i], m.Pairs[j] = m.Pairs[j], m.Pairs[i] })
		even := true
		for _, r := range m.Rows {
			even = even && len(r) == len(m.Cols)
		}
		if even {
			t.swap("cells of a row", len(m.Cols), func(i, j int) {
				m.Cols[i], m.Cols[j] = m.Cols[j], m.Cols[i]
				for _, r := range m.Rows {
					r[i], r[j] = r[j], r[i]
				}
			})
		}
		seen := map[string]bool{}
		for _, r := range m.Rows {
			s := ""
			for k, c := range m.Cols {
				if c != m.Out && k < len(r) {
					if strings.TrimSpace(r[k]) == "" {
						even = false
					}
					s += key(r[k]) + "\x00"
				}
			}
			if seen[s] {
				even = false
			}
			seen[s] = true
		}
		if even {
			t.swap("rows of a table", len(m.Rows), func(i, j int) { m.Rows[i], m.Rows[j] = m.Rows[j], m.Rows[i] })
		}
	})
}

func mentions(e *Expr, name string) (yes bool) {
	if e == nil {
		return
	}
	walkExpr(e, func(e *Expr) {
		if e.Kind == "field" && e.Field == name {
			yes = true
		}
		if e.Map != nil {
			for _, p := range e.Map.Pairs {
				yes = yes || p[0] == name
			}
		}
	})
	return
}

// orderDerived exchanges neighbours of which neither uses the other.
func (t *twin) orderDerived(ds []Derived) {
	for i := range ds {
		t.orderExpr(ds[i].E)
	}
	for k := 2 * len(ds); k > 0; k-- {
		if len(ds) < 2 {
			return
		}
		i := t.g.n(len(ds) - 1)
		if a, b := ds[i], ds[i+1]; a.Name != b.Name && !mentions(a.E, b.Name) && !mentions(b.E, a.Name) {
			ds[i], ds[i+1] = b, a
			t.did("derived fields")
		}
	}
}

func (t *twin) orderPred(p *Pred) {
	if p == nil {
		return
	}
	walkPred(p, func(p *Pred) {
		switch {
		case p.Kind == "set":
			t.swap("set items", len(p.Items), func(i, j int) { p.Items[i], p.Items[j] = p.Items[j], p.Items[i] })
		case p.Kind == "compound" && p.Op != "surrogate":
			t.swap("operands", len(p.Kids), func(i, j int) { p.Kids[i], p.Kids[j] = p.Kids[j], p.Kids[i] })
		}
	})
}

func (t *twin) orderModel(m *Model) {
	t.swap("mining fields", len(m.Schema), func(i, j int) { m.Schema[i], m.Schema[j] = m.Schema[j], m.Schema[i] })
	t.orderDerived(m.LT)
	if m.Tree != nil {
		walkNodes(m.Tree.Root, func(n *TNode) {
			t.orderPred(n.Pred)
			t.swap("score distributions", len(n.SD), func(i, j int) { n.SD[i], n.SD[j] = n.SD[j], n.SD[i] })
		})
	}
	if m.Reg != nil {
		for i := range m.Reg.Tables {
			r := &m.Reg.Tables[i]
			t.swap("numeric predictors", len(r.Num), func(i, j int) { r.Num[i], r.Num[j] = r.Num[j], r.Num[i] })
			t.swap("categorical predictors", len(r.Cat), func(i, j int) { r.Cat[i], r.Cat[j] = r.Cat[j], r.Cat[i] })
		}
		ts := m.Reg.Tables
		if m.Reg.Norm == "softmax" || m.Reg.Norm == "simplemax" {
			t.swap("regression tables", len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		}
		if m.Function == "classification" {
			t.swap("outputs", len(m.Outputs), func(i, j int) { m.Outputs[i], m.Outputs[j] = m.Outputs[j], m.Outputs[i] })
		}
	}
	if m.Mining != nil {
		for _, sg := range m.Mining.Segments {
			t.orderPred(sg.Pred)
			t.orderModel(sg.Model)
		}
		t.swap("outputs", len(m.Outputs), func(i, j int) { m.Outputs[i], m.Outputs[j] = m.Outputs[j], m.Outputs[i] })
		switch m.Mining.Method {
		case "sum", "average", "":
			ss := m.Mining.Segments
			if m.Mining.Method == "" {
				break
			}
			t.swap("segments", len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		}
	}
}

func (t *twin) order() {
	d := t.d
	t.swap("data fields", len(d.Fields), func(i, j int) { d.Fields[i], d.Fields[j] = d.Fields[j], d.Fields[i] })
	for k := range d.Fields {
		vs := d.Fields[k].Values
		t.swap("values of a field", len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	}
	t.orderDerived(d.Global)
	for _, m := range d.Models {
		t.orderModel(m)
	}
	if len(d.Models) > 1 && t.g.chance(70) {
		t.did("models")
	}
}

// ---- P34

func pand(ps ...*Pred) *Pred { return &Pred{Kind: "compound", Op: "and", Kids: ps} }
func por(ps ...*Pred) *Pred  { return &Pred{Kind: "compound", Op: "or", Kids: ps} }
func pxor(ps ...*Pred) *Pred { return &Pred{Kind: "compound", Op: "xor", Kids: ps} }
func pnot(p *Pred) *Pred     { return pxor(p, &Pred{Kind: "true"}) }

func (p *Pred) with(op string) *Pred {
	q := *p
	q.Op = op
	return &q
}

// rewritePred says the same of a row in other words.
func (t *twin) rewritePred(p *Pred) *Pred {
	if p == nil {
		return nil
	}
	for i, k := range p.Kids {
		p.Kids[i] = t.rewritePred(k)
	}
	g := t.g
	if !g.chance(45) {
		return p
	}
	typ := t.types[p.Field]
	switch p.Kind {
	case "simple":
		ordered := typ == "double" || typ == "integer" || typ == "float"
		other := map[string]string{"equal": "notEqual", "notEqual": "equal", "isMissing": "isNotMissing", "isNotMissing": "isMissing"}
		if ordered {
			other["lessThan"], other["greaterOrEqual"], other["lessOrEqual"], other["greaterThan"] = "greaterOrEqual", "lessThan", "greaterThan", "lessOrEqual"
		}
		weak := map[string]string{"lessOrEqual": "lessThan", "greaterOrEqual": "greaterThan"}
		strict := map[string]string{"lessThan": "lessOrEqual", "greaterThan": "greaterOrEqual"}
		switch {
		case ordered && weak[p.Op] != "" && g.chance(50):
			t.did("weak order as strict or equal")
			return por(p.with(weak[p.Op]), p.with("equal"))
		case ordered && strict[p.Op] != "" && g.chance(50):
			t.did("strict order as weak and unequal")
			return pand(p.with(strict[p.Op]), p.with("notEqual"))
		case ordered && p.Op == "equal" && g.chance(50):
			t.did("equal as neither less nor greater")
			return pand(p.with("lessOrEqual"), p.with("greaterOrEqual"))
		case typ != "" && (p.Op == "equal" || p.Op == "notEqual") && p.Value != "" && g.chance(40):
			t.did("equality as a set")
			op := "isIn"
			if p.Op == "notEqual" {
				op = "isNotIn"
			}
			return &Pred{Kind: "set", Field: p.Field, Op: op, AType: "string", Items: []string{p.Value}}
		case other[p.Op] != "":
			t.did("operator as its opposite denied")
			return pnot(p.with(other[p.Op]))
		}
	case "set":
		if typ == "" || len(p.Items) == 0 {
			return p
		}
		if g.chance(40) {
			t.did("set as its opposite denied")
			return pnot(p.with(map[string]string{"isIn": "isNotIn", "isNotIn": "isIn"}[p.Op]))
		}
		if typ == "string" && p.AType != "string" {
			return p
		}
		if len(p.Items) > 1 && g.chance(40) {
			t.did("set as two sets")
			k := g.between(1, len(p.Items)-1)
			a, b := p.with(p.Op), p.with(p.Op)
			a.Items, b.Items = p.Items[:k:k], p.Items[k:]
			if p.Op == "isIn" {
				return por(a, b)
			}
			return pand(a, b)
		}
		t.did("set as equalities")
		op := "equal"
		if p.Op == "isNotIn" {
			op = "notEqual"
		}
		var ks []*Pred
		for _, x := range p.Items {
			ks = append(ks, &Pred{Kind: "simple", Field: p.Field, Op: op, Value: x})
		}
		if len(ks) == 1 {
			return ks[0]
		}
		if p.Op == "isNotIn" {
			return pand(ks...)
		}
		return por(ks...)
	case "compound":
		if len(p.Kids) < 2 {
			return p
		}
		switch k := g.n(5); {
		case k == 0 && (p.Op == "and" || p.Op == "or"):
			t.did("De Morgan")
			q := &Pred{Kind: "compound", Op: map[string]string{"and": "or", "or": "and"}[p.Op]}
			for _, x := range p.Kids {
				q.Kids = append(q.Kids, pnot(x))
			}
			return pnot(q)
		case k == 1 && len(p.Kids) > 2:
			t.did("operands grouped")
			// behind: a surrogate asks from the front
			at := g.between(1, len(p.Kids)-2)
			q := *p
			q.Kids = append(append([]*Pred{}, p.Kids[:at]...), &Pred{Kind: "compound", Op: p.Op, Kids: p.Kids[at:]})
			return &q
		case k == 2 && len(p.Kids) > 2:
			t.did("operands grouped")
			at := g.between(2, len(p.Kids)-1)
			q := *p
			q.Kids = append([]*Pred{{Kind: "compound", Op: p.Op, Kids: p.Kids[:at:at]}}, p.Kids[at:]...)
			return &q
		case k == 3 && len(p.Kids) == 2 && p.Op == "xor":
			t.did("xor spelled out")
			a, b := p.Kids[0], p.Kids[1]
			return por(pand(a, pnot(b)), pand(pnot(a), b))
		case k == 3 && len(p.Kids) == 2 && (p.Op == "and" || p.Op == "or"):
			for i, x := range p.Kids {
				dual := map[string]string{"and": "or", "or": "and"}[p.Op]
				if x.Kind == "compound" && x.Op == dual && len(x.Kids) > 1 {
					t.did("distributed")
					q := &Pred{Kind: "compound", Op: dual}
					for _, y := range x.Kids {
						q.Kids = append(q.Kids, &Pred{Kind: "compound", Op: p.Op, Kids: []*Pred{p.Kids[1-i], y}})
					}
					return q
				}
			}
		}
	}
	if g.chance(20) {
		t.did("denied twice")
		return pnot(pnot(p))
	}
	return p
}

// rewriteExpr writes an expression differently; fields are put into lt.
func (t *twin) rewriteExpr(e *Expr, lt *[]Derived, deep int) *Expr {
	g := t.g
	if e == nil || e.Kind == "raw" {
		return e
	}
	for i, a := range e.Args {
		e.Args[i] = t.rewriteExpr(a, lt, deep+1)
	}
	if e.Kind == "apply" && e.MapMiss == nil && e.Default == nil && len(e.Args) == 2 && e.Func == "-" && g.chance(40) {
		t.did("difference as a sum")
		return &Expr{Kind: "apply", Func: "+", Args: []*Expr{e.Args[0], {Kind: "apply", Func: "*", Args: []*Expr{{Kind: "const", Const: "-1"}, e.Args[1]}}}}
	}
	if e.Kind == "apply" && e.Func == "if" && len(e.Args) == 3 && len(e.Args[0].Args) == 1 && e.Args[0].MapMiss == nil && e.Args[0].Default == nil && g.chance(50) {
		if c := e.Args[0]; c.Func == "isMissing" || c.Func == "isNotMissing" {
			t.did("branches exchanged")
			c.Func = map[string]string{"isMissing": "isNotMissing", "isNotMissing": "isMissing"}[c.Func]
			e.Args[1], e.Args[2] = e.Args[2], e.Args[1]
		}
	}
	if deep > 0 && lt != nil && g.chance(30) {
		t.did("part of an expression as a field")
		name := t.name()
		*lt = append(*lt, Derived{Name: name, Type: "string", OpType: "categorical", E: e})
		return &Expr{Kind: "field", Field: name}
	}
	return e
}

func (t *twin) rewriteDerived(ds []Derived, local bool) []Derived {
	var out []Derived
	for _, d := range ds {
		d.E = t.rewriteExpr(d.E, &out, 0)
		out = append(out, d)
	}
	return out
}

// around puts a model into an ensemble that does nothing.
func (t *twin) around(m *Model, p *Pred, method string, top bool) *Model {
	w := &Model{Kind: "mining", Function: m.Function, Mining: &Mining{Method: method}}
	for _, f := range m.Schema {
		if !top { // others have been used before the replacement
			f.Replacement = nil
		}
		w.Schema = append(w.Schema, f)
	}
	if p == nil {
		p = &Pred{Kind: "true"}
	}
	sg := &Seg{Pred: p, Model: m}
	if t.g.chance(60) {
		sg.ID = t.name()
	}
	if t.g.chance(20) {
		sg.Pred = nil // always active
		if p.Kind != "true" {
			sg.Pred = p
		}
	}
	w.Mining.Segments = []*Seg{sg}
	return w
}

// alike declares the outputs of a chain or selection.
func alike(w, m *Model) *Model {
	if m.Kind != "tree" {
		for _, o := range m.Outputs {
			w.Outputs = append(w.Outputs, Output{Name: o.Name, Type: o.Type})
		}
	}
	return w
}

func (t *twin) rewriteModel(m *Model, deep int) *Model {
	g := t.g
	m.LT = t.rewriteDerived(m.LT, true)
	if m.Tree != nil {
		t.rewriteTree(m)
	}
	if m.Reg != nil {
		t.rewriteReg(m)
	}
	if m.Mining != nil {
		t.rewriteMining(m, deep)
	}
	if deep == 0 && g.chance(35) {
		t.did("model alone in an ensemble")
		return t.around(m, nil, pick(g, []string{"selectFirst", "modelChain"}), true)
	}
	return m
}

func (t *twin) rewriteTree(m *Model) {
	g := t.g
	walkNodes(m.Tree.Root, func(n *TNode) { n.Pred = t.rewritePred(n.Pred) })
	var through func(n *TNode)
	through = func(n *TNode) {
		for _, k := range n.Kids {
			through(k)
		}
		if !g.chance(20) {
			return
		}
		t.did("node below a node of its own")
		in := *n
		in.Pred = &Pred{Kind: "true"}
		if n.ID != "" {
			in.ID = t.name()
			n.Default = in.ID
		}
		n.Kids = []*TNode{&in}
	}
	through(m.Tree.Root)
}

func (t *twin) rewriteReg(m *Model) {
	g := t.g
	for i := range m.Reg.Tables {
		r := &m.Reg.Tables[i]
		var num []NumP
		for _, n := range r.Num {
			c, err := strconv.ParseFloat(n.Coef, 64)
			if err == nil && g.chance(30) && math.Abs(c) > 1e-200 && math.Abs(c) < 1e200 {
				t.did("coefficient in two halves")
				n.Coef = strconv.FormatFloat(c/2, 'g', -1, 64)
				num = append(num, n)
			}
			num = append(num, n)
		}
		r.Num = num
		if len(m.Reg.Tables) == 1 && g.chance(25) {
			for _, f := range m.Schema {
				if t.full[f.Name] && f.Usage != "target" && t.types[f.Name] != "string" {
					t.did("intercept as a predictor of power 0")
					r.Num = append(r.Num, NumP{Name: f.Name, Exp: "0", Coef: r.Intercept})
					r.Intercept = "0"
					break
				}
			}
		}
	}
	if m.Reg.Norm == "softmax" && g.chance(40) {
		t.did("all scores moved")
		by := pick(g, []float64{1, -2, 0.5, 8})
		for i := range m.Reg.Tables {
			c, err := strconv.ParseFloat(m.Reg.Tables[i].Intercept, 64)
			must(err)
			m.Reg.Tables[i].Intercept = strconv.FormatFloat(c+by, 'g', -1, 64)
		}
	}
}

func (t *twin) rewriteMining(m *Model, deep int) {
	g := t.g
	method := m.Mining.Method
	var segs []*Seg
	double := method == "average" && g.chance(30)
	for _, sg := range m.Mining.Segments {
		sg.Pred = t.rewritePred(sg.Pred)
		sg.Model = t.rewriteModel(sg.Model, deep+1)
		switch {
		case method == "modelChain" && g.chance(35):
			t.did("segment in an ensemble of its own")
			kind := pick(g, []string{"selectFirst", "modelChain"})
			if g.chance(50) && sg.Pred != nil { // the test goes along
				in := t.around(sg.Model, sg.Pred, kind, false)
				sg = &Seg{ID: sg.ID, Pred: sg.Pred, Model: alike(in, sg.Model)}
			} else {
				sg = &Seg{ID: sg.ID, Pred: sg.Pred, Model: alike(t.around(sg.Model, nil, kind, false), sg.Model)}
			}
		case method == "selectFirst" && g.chance(35):
			t.did("segment in an ensemble of its own")
			sg = &Seg{ID: sg.ID, Pred: sg.Pred, Model: t.around(sg.Model, nil, pick(g, []string{"selectFirst", "modelChain"}), false)}
		case (method == "sum" || method == "average") && m.Function == "regression" && g.chance(35):
			t.did("member in an ensemble of its own")
			w := t.around(sg.Model, nil, pick(g, []string{"sum", "average"}), false)
			if w.Mining.Method == "average" && g.chance(60) {
				w.Mining.Segments = append(w.Mining.Segments, &Seg{Pred: &Pred{Kind: "true"}, Model: sg.Model})
				if g.chance(40) {
					w.Mining.Segments = append(w.Mining.Segments, &Seg{Pred: &Pred{Kind: "false"}, Model: sg.Model})
				}
			}
			w.Outputs = []Output{{Name: t.name(), Type: "double"}}
			sg = &Seg{ID: sg.ID, Pred: sg.Pred, Model: w}
		case method == "sum" && sg.Model.Reg != nil && m.Function == "regression" && (sg.Model.Reg.Norm == "" || sg.Model.Reg.Norm == "none") && g.chance(60):
			r := &sg.Model.Reg.Tables[0]
			if len(r.Num)+len(r.Cat) < 2 {
				break
			}
			t.did("regression as two")
			var other Model
			other = *sg.Model
			reg := *other.Reg
			i, j := g.n(len(r.Num)+1), g.n(len(r.Cat)+1)
			reg.Tables = []RTable{{Intercept: "0", Num: r.Num[i:], Cat: r.Cat[j:]}}
			other.Reg = &reg
			*r = RTable{Category: r.Category, Intercept: r.Intercept, Num: r.Num[:i:i], Cat: r.Cat[:j:j]}
			segs = append(segs, &Seg{Pred: sg.Pred, Model: &other})
		}
		segs = append(segs, sg)
		if double {
			t.did("every segment twice")
			segs = append(segs, sg)
		}
	}
	m.Mining.Segments = segs
	if method == "selectFirst" && g.chance(25) && len(segs) > 0 {
		t.did("the last selected once more")
		segs = append(segs, segs[g.n(len(segs))])
		m.Mining.Segments = segs
	}
	if (method == "sum" || method == "average") && len(m.Targets) > 0 && g.chance(50) {
		// a rescaled combination is another one
		for i := range m.Targets {
			x := &m.Targets[i]
			if x.Constant == nil && g.chance(50) {
				t.did("defaults written")
				x.Constant = sp("0")
			}
			if x.Factor == nil && g.chance(50) {
				t.did("defaults written")
				x.Factor = sp("1")
			}
		}
	}
}

func (t *twin) rewrite() {
	d := t.d
	d.Global = t.rewriteDerived(d.Global, false)
	flat := len(d.Global) > 0
	for i := range d.Models {
		flat = flat && d.Models[i].Mining == nil
	}
	if flat && t.g.chance(40) {
		t.did("global fields as local ones")
		for _, m := range d.Models {
			b := (&Doc{Global: d.Global}).deepCopy()
			m.LT = append(b.Global, m.LT...)
		}
		d.Global = nil
	}
	for i, m := range d.Models {
		d.Models[i] = t.rewriteModel(m, 0)
	}
	if len(d.Models) > 1 && t.g.chance(30) {
		t.did("models")
	}
}

// apart says how two results differ that may be computed in different ways.
func (want Out) apart(a evaluation.DataRow, aerr error, b evaluation.DataRow, berr error) string {
	both := func() string { return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr)) }
	if (aerr != nil) != (berr != nil) || aerr == nil && len(a) != len(b) {
		return both()
	}
	if aerr != nil {
		return ""
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			return both()
		}
		w := want.Vals[k]
		if s, ok := x.Raw().(string); ok {
			if y.String() != s && len(w.Labels) < 2 {
				return both()
			}
			continue
		}
		fx, fy := x.Float64(), y.Float64()
		if !(math.Abs(fx-fy) <= 2*(w.Tol+w.Dev)+1e-9*(1+math.Abs(fx)) || math.IsNaN(fx) && math.IsNaN(fy) || fx == fy) {
			return both()
		}
	}
	return ""
}

// outOfRange says that numbers of another size leave the range or the
// precision of a float64 on the way to the result.
func outOfRange(a, b Out) bool {
	if b.Amb != "" {
		return true
	}
	for k, x := range a.Vals {
		y := b.Vals[k]
		if x.Labels == nil && !(math.Abs(x.N-y.N) <= 1e-6*(1+math.Abs(x.N)) || math.IsNaN(x.N) && math.IsNaN(y.N) || x.N == y.N) {
			return true
		}
	}
	return false
}

func checkTwin(c *TwinCase, least int) Res {
	var res Res
	cl := map[string]bool{}
	_, ms := load(c.Doc)
	_, ts := load(c.Twin)
	for mi, m := range ms {
		for ri, row := range c.Rows {
			want := c.Doc.Score(mi, row)
			if want.Amb != "" {
				res.Skipped++
				continue
			}
			other := row
			if c.TwinRows != nil {
				other = c.TwinRows[ri]
				if outOfRange(want, c.Twin.Score(c.At[mi], other)) {
					res.Skipped++
					continue
				}
			}
			a, aerr := eval(m, goRow(row))
			b, berr := eval(ts[c.At[mi]], goRow(other))
			res.Evals += 2
			if diff := want.apart(a, aerr, b, berr); diff != "" {
				fail("model %d, row %d {%s} and {%s}: the same said otherwise (%s) gives another result: %s\n%s\nand:\n%s", mi, ri, showRow(row), showRow(other), strings.Join(c.How, ", "), diff, render(c.Doc.xml()), render(c.Twin.xml()))
			}
			if len(a) > 0 && len(c.How) >= least {
				res.Nontrivial = true
				cl[c.Doc.Models[mi].Kind] = true
			}
		}
	}
	for _, w := range c.How {
		cl[w] = true
	}
	res.Classes = classes(cl)
	return res
}

func init() {
	register("P33",
		"A random document with one to three models of any kinds and 4 rows, and the same in another order wherever order means nothing: data fields and their values, mining fields, derived fields that do not use one another, terms and factors, arguments of sum, table rows with different keys, their cells and column pairs, set items, operands of and, or and xor, score distributions, predictors, the tables of a softmax, outputs, segments of sums and averages, models. Every model must give the same results, up to rounding. Non-trivial: at least three kinds of order are changed and a compared row has a prediction.",
		600, 26000,
		gen(func(g G) *TwinCase { return g.twinCase((*twin).order) }),
		func(c *TwinCase) Res { return checkTwin(c, 3) })

	register("P34",
		"A random document with one to three models of any kinds and 4 rows, and the same written otherwise: predicates by the laws of three-valued logic and of order (opposites denied, De Morgan, grouping, distribution, sets as equalities, weak as strict order), expressions with parts as derived fields of their own, differences as sums and exchanged branches, global derived fields as local ones, tree nodes below a node of their own, regressions with split coefficients, moved scores and intercepts as predictors, and ensembles whose segments are in an ensemble of their own, repeated in an average or selection, or split in two in a sum. Every model must give the same results, up to rounding. Non-trivial: at least two kinds of rewriting were done and a compared row has a prediction.",
		600, 26000,
		gen(func(g G) *TwinCase { return g.twinCase((*twin).rewrite) }),
		func(c *TwinCase) Res { return checkTwin(c, 2) })
}
