package main

import (
	"encoding/json"
	"strings"
)

// ---- P24: what cannot be scored faithfully is rejected

// RejectCase is a document that scores, and the same document with one
// construct replaced by one that is unsupported or malformed.
type RejectCase struct {
	Fault string `json:"fault"`
	Good  *Doc   `json:"good"`
	Bad   *Doc   `json:"bad"`
	Rows  []Row  `json:"rows"`
}

func (c *RejectCase) Document() string { return render(c.Bad.xml()) }

func (d *Doc) clone() *Doc {
	b, err := json.Marshal(d)
	must(err)
	c := new(Doc)
	must(json.Unmarshal(b, c))
	return c
}

var otherModels = []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel"}
var otherFunctions = []string{"clustering", "associationRules", "sequences", "timeSeries", "mixed", "Regression", "classify"}
var otherFeatures = []string{"affinity", "clusterId", "confidence", "decision", "entityId", "predictedDisplayValue", "reasonCode", "residual", "ruleValue", "standardError", "support", "transformedValue", "warning", "Probability", "predicted"}
var otherMethods = []string{"majorityVote", "weightedMajorityVote", "weightedAverage", "weightedSum", "median", "weightedMedian", "max", "selectAll", "Sum", "chain", "multiModelChain"}

var pmmlFunctions = map[string]bool{}

func init() {
	for _, f := range strings.Fields("min max avg median product log10 ln sqrt abs exp pow threshold floor ceil round modulo isValid isNotValid equal notEqual lessThan lessOrEqual greaterThan greaterOrEqual and or not isIn isNotIn uppercase lowercase stringLength substring trimBlanks concat replace matches formatNumber formatDatetime dateDaysSinceYear dateSecondsSinceYear dateSecondsSinceMidnight normalCDF normalPDF stdNormalCDF stdNormalPDF erf normalIDF stdNormalIDF expm1 hypot ln1p rint sin asin sinh cos acos cosh tan atan tanh") {
		pmmlFunctions[f] = true
	}
}

// badExpr draws an expression nothing supports.
func (g G) badExpr(field string) (*El, string) {
	ref := func() *El { return el("FieldRef", "field", field) }
	num := func() *El { return el("Constant", "dataType", "double").add(text("1")) }
	switch g.n(8) {
	case 7:
		bad := pick(g, [][2]string{{"integer", "abc"}, {"integer", "1.5"}, {"double", "1,5"}, {"double", "none"}, {"float", "x"}, {"boolean", "maybe"}, {"date", "2020-01-01"}})
		return el("MapValues", "outputColumn", "out", "dataType", bad[0], "defaultValue", bad[1]).add(
			el("FieldColumnPair", "field", field, "column", "in"),
			inlineTable("", []string{"in", "out"}, [][]string{{"never the value of it", "1"}}, nil)), "default of another type"
	case 0:
		return pick(g, []*El{
			el("Discretize", "field", field, "defaultValue", "x").add(el("DiscretizeBin", "binValue", "a").add(el("Interval", "closure", "openClosed", "rightMargin", "1"))),
			el("NormContinuous", "field", field).add(el("LinearNorm", "orig", "0", "norm", "0"), el("LinearNorm", "orig", "1", "norm", "1")),
			el("NormDiscrete", "field", field, "value", "1"),
			el("Aggregate", "field", field, "function", "sum"),
			el("Lag", "field", field),
			el("TextIndex", "textField", field).add(ref()),
		}), "expression kind"
	case 1, 2:
		if g.chance(50) { // functions PMML has and the library does not
			fn := pick(g, classes(pmmlFunctions))
			a := el("Apply", "function", fn)
			for i := pick(g, []int{1, 2, 2, 3}); i > 0; i-- {
				a.add(pick(g, []*El{ref(), num()}))
			}
			return a, "function name"
		}
		fn := pick(g, []string{"Sum", " sum", "sum ", "isMissing ", "If", "mean of", "SUM", "multiply", "Plus", "", "no such function", "isMissin", "IF", "isnotmissing", "concat2", "%%", "+-", "* ", "my:function"})
		a := el("Apply", "function", fn)
		for i := g.between(1, 3); i > 0; i-- {
			a.add(pick(g, []*El{ref(), num()}))
		}
		return a, "function name"
	case 3, 4:
		fn := pick(g, []string{"+", "-", "*", "/", "isMissing", "isNotMissing", "if"})
		want := map[string]int{"isMissing": 1, "isNotMissing": 1, "if": 3}[fn]
		counts := []int{0, 2, 3, 4}
		if want == 3 {
			counts = []int{0, 1, 4}
		} else if want == 0 {
			counts = []int{0, 1, 3, 4}
		}
		a := el("Apply", "function", fn)
		for i := pick(g, counts); i > 0; i-- {
			a.add(pick(g, []*El{ref(), num()}))
		}
		return a, "argument count"
	case 5:
		return el("Constant", "dataType", pick(g, []string{"date", "time", "dateTime", "dateDaysSince[1960]", "timeSeconds", "dateTimeSecondsSince[1970]", "Double", "decimal"})).add(text(pick(g, []string{"1", "2020-01-01"}))), "constant type"
	}
	return el("Constant", "dataType", "double").add(text(pick(g, []string{"abc", "1,5", "1.2.3", "--1", "one", "1 2", "$1"}))), "constant text"
}

// badPred draws a predicate nothing supports over the fields.
func (g G) badPred(fs []Field) (*El, string) {
	f := pick(g, fs)
	for _, x := range fs { // mostly typed fields
		if f.Type == "string" && x.Type != "string" {
			f = x
		}
	}
	bad := map[string][]string{
		"integer": {"abc", "1.5", "x1", "--2", "", "true", "0x10", "1_000", "0b1", "1L", "1,000", "1 2"},
		"double":  {"abc", "1,5", "1.2.3", "$", "", "true"},
		"float":   {"abc", "1,5", "1.2.3", "$", "", "true"},
		"boolean": {"maybe", "2", "", "yes", "0.5"},
	}[f.Type]
	op := pick(g, orderOps)
	switch k := g.n(8); {
	case k == 7 && bad != nil:
		var items []string
		for i := g.n(5); i > 0; i-- {
			items = append(items, g.value(f.Type))
		}
		at := g.n(len(items) + 1)
		items = append(items[:at:at], append([]string{pick(g, bad)}, items[at:]...)...)
		return el("SimpleSetPredicate", "field", f.Name, "booleanOperator", pick(g, []string{"isIn", "isNotIn"})).add(el("Array", "type", "string").add(text(arrayText("string", items)))), "set item of another type"
	case k == 0:
		return el("SimplePredicate", "field", "no such field", "operator", pick(g, append([]string{"isMissing", "isNotMissing"}, orderOps...)), "value", "1"), "undeclared field"
	case k == 1:
		return el("SimpleSetPredicate", "field", "no such field", "booleanOperator", pick(g, []string{"isIn", "isNotIn"})).add(el("Array", "type", "string").add(text(pick(g, []string{"a b", "a", ""})))), "undeclared field"
	case k == 2:
		return el("SimplePredicate", "field", f.Name, "operator", pick(g, []string{"eq", "=", "contains", "Equal", "", "between", "isIn"}), "value", "1"), "operator"
	case k == 3:
		return el("CompoundPredicate", "booleanOperator", pick(g, []string{"not", "nand", "AND", ""})).add(el("True"), el("False")), "boolean operator"
	case k == 4:
		return el("SimpleSetPredicate", "field", f.Name, "booleanOperator", pick(g, []string{"in", "isin", "", "equal"})).add(el("Array", "type", "int").add(text("1 2"))), "set operator"
	case k == 5 || bad == nil:
		return el("SimplePredicate", "field", "when", "operator", op, "value", pick(g, []string{"2020-01-01", "1"})), "field type"
	case k == 6 && g.chance(50):
		items := pick(g, []string{"int", "real"})
		return el("SimpleSetPredicate", "field", f.Name, "booleanOperator", pick(g, []string{"isIn", "isNotIn"})).add(el("Array", "type", items).add(text("1 " + pick(g, []string{"x", "--1", "é"})))), "set items"
	}
	return el("SimplePredicate", "field", f.Name, "operator", op, "value", pick(g, bad)), "constant of another type"
}

// into puts a faulty expression somewhere inside a derived field where it is
// sure to be evaluated.
func (g G) into(bad *El) *Expr {
	e := &Expr{Kind: "raw", Raw: bad}
	one := func() *Expr { return &Expr{Kind: "const", Const: "1"} }
	for i := g.n(3); i > 0; i-- {
		switch g.n(7) {
		case 5:
			e = &Expr{Kind: "apply", Func: "if", Args: []*Expr{e, one(), {Kind: "const", Const: "2"}}}
		case 6:
			e = &Expr{Kind: "apply", Func: "sum", Args: []*Expr{e}}
		case 0:
			e = &Expr{Kind: "apply", Func: pick(g, []string{"+", "-", "*", "/"}), Args: []*Expr{e, one()}}
		case 1:
			e = &Expr{Kind: "apply", Func: pick(g, []string{"+", "-", "*", "/"}), Args: []*Expr{one(), e}}
		case 2:
			e = &Expr{Kind: "apply", Func: "sum", Args: []*Expr{one(), e, one()}}
		case 3:
			e = &Expr{Kind: "apply", Func: pick(g, []string{"isMissing", "isNotMissing"}), Args: []*Expr{e}}
		case 4:
			cond := &Expr{Kind: "apply", Func: "isNotMissing", Args: []*Expr{one()}}
			args := []*Expr{cond, e, one()}
			if g.chance(50) {
				cond.Func = "isMissing"
				args = []*Expr{cond, one(), e}
			}
			e = &Expr{Kind: "apply", Func: "if", Args: args}
		}
		if g.chance(15) {
			e.Default = sp("0")
		}
		if g.chance(15) {
			e.MapMiss = sp("0")
		}
	}
	return e
}

func preds(p *Pred) (all []**Pred) {
	for i := range p.Kids {
		all = append(all, &p.Kids[i])
		all = append(all, preds(p.Kids[i])...)
	}
	return
}

func genReject(g G) *RejectCase {
	fs := g.fields(g.between(1, 4))
	hint := g.row(fs, 0)
	n := 0
	c := mctx{d: &Doc{Fields: append([]Field{}, fs...)}, base: fs, fs: append([]Field{}, fs...), hint: hint, n: &n, derive: 25}
	c.classes = pick(g, classPools)
	c.d.Fields = append(c.d.Fields, Field{Name: "class", Type: "string", Values: c.classes}, Field{Name: "when", Type: "date"})
	fn := pick(g, []string{"regression", "classification"})
	leaf := func() *Model {
		if g.chance(40) {
			return g.regMember(c, fn)
		}
		return g.treeMember(c, fn)
	}
	top := leaf()
	// the index of the segment on the way to the leaf, level by level
	var way []int
	if g.chance(70) {
		for i := g.between(1, 2); i > 0; i-- {
			methods := []string{"sum", "average", "modelChain", "selectFirst", ""}
			if fn == "classification" && i > 1 {
				methods = methods[:2]
			}
			m := g.ensemble(c, fn, pick(g, methods), true, 1)
			segs := m.Mining.Segments
			at := g.n(len(segs) + 1)
			if m.Mining.Method == "selectFirst" {
				at = 0
			}
			m.Mining.Segments = append(segs[:at:at], append([]*Seg{{ID: "way", Pred: &Pred{Kind: "true"}, Model: top}}, segs[at:]...)...)
			way = append([]int{at}, way...)
			top = m
		}
	}
	c.d.Models = []*Model{top}
	rc := &RejectCase{Good: c.d, Bad: c.d.clone(), Rows: g.rowsFrom(fs, hint, 2, 0)}

	// the models on the way in the copy
	path := []*Model{rc.Bad.Models[0]}
	for _, at := range way {
		path = append(path, path[len(path)-1].Mining.Segments[at].Model)
	}
	m := path[len(path)-1]
	any := pick(g, path)
	placePred := func(root **Pred) {
		all := append([]**Pred{root}, preds(*root)...)
		var e *El
		e, rc.Fault = g.badPred(fs)
		*pick(g, all) = &Pred{Kind: "raw", Raw: e}
	}
	switch k := g.n(12); {
	case k == 0:
		rc.Fault = "model kind"
		any.Kind = pick(g, otherModels)
	case k == 1:
		rc.Fault = "mining function"
		any.Function = pick(g, otherFunctions)
		rc.Fault += " of " + any.Kind
	case k <= 4:
		e, why := g.badExpr(pick(g, fs).Name)
		df := Derived{Name: "faulty", Type: "double", OpType: "continuous", E: g.into(e)}
		if g.chance(6) {
			df.E, why = &Expr{Kind: "raw"}, "no expression"
		}
		rc.Fault = why
		if g.chance(25) {
			rc.Bad.Global = append(rc.Bad.Global, df)
			rc.Fault += " (global)"
		} else {
			at := g.n(len(any.LT) + 1)
			any.LT = append(any.LT[:at:at], append([]Derived{df}, any.LT[at:]...)...)
		}
	case k <= 8 && m.Kind == "tree":
		var ns []*TNode
		walkNodes(m.Tree.Root, func(n *TNode) { ns = append(ns, n) })
		node := pick(g, ns)
		if m.Function == "regression" && g.chance(12) {
			rc.Fault = "score that is no number"
			for _, n := range ns {
				if n.Score != "" {
					n.Score = pick(g, []string{"high", "1,5", "1 2", "--1", n.Score + "x", "1e", ".", "0-1", "true"})
				}
			}
		} else if g.chance(15) {
			rc.Fault = "node without predicate"
			node.Pred = nil
		} else {
			placePred(&node.Pred)
		}
	case k <= 8:
		switch g.n(5) {
		case 4:
			if m.Function == "regression" {
				rc.Fault = "number of outputs"
				if g.chance(40) {
					m.Outputs = nil
				} else {
					o := Output{Name: "other", Type: "double", Feature: "predictedValue"}
					at := g.n(2)
					m.Outputs = append(m.Outputs[:at:at], append([]Output{o}, m.Outputs[at:]...)...)
				}
				break
			}
			fallthrough
		case 0, 1:
			rc.Fault = "normalization"
			bad := []string{"probit", "loglog", "Softmax", "none ", "sigmoid"}
			if m.Function == "regression" {
				bad = append(bad, "simplemax")
			}
			m.Reg.Norm = pick(g, bad)
		case 2:
			rc.Fault = "interaction term"
			t := &m.Reg.Tables[0]
			t.More = append(t.More, el("PredictorTerm", "coefficient", "2").add(el("FieldRef", "field", pick(g, fs).Name)))
		case 3:
			rc.Fault = "number of tables"
			if m.Function == "regression" || len(m.Reg.Tables) == 2 && m.Reg.Norm != "softmax" {
				if g.chance(50) {
					m.Reg.Tables = append(m.Reg.Tables, RTable{Intercept: "1", Category: "more"})
				} else {
					m.Reg.Tables = m.Reg.Tables[1:]
				}
			} else {
				rc.Fault = "normalization"
				m.Reg.Norm = "loglog"
			}
		}
	case len(way) > 0:
		i := g.n(len(way))
		mm := path[i]
		sg := mm.Mining.Segments[way[i]]
		switch g.n(7) {
		case 6:
			rc.Fault = "segment with two predicates"
			sg = pick(g, mm.Mining.Segments)
			sg.More = append(sg.More, pick(g, []*El{el("True"), el("False"), (&Pred{Kind: "simple", Field: pick(g, fs).Name, Op: "isMissing"}).xml()}))
			if sg.Pred == nil {
				sg.More = append(sg.More, el("True"))
			}
		case 4: // a test of what only a later segment or, but in a chain, a segment puts out
			rc.Fault = "output of another segment"
			i := g.n(len(mm.Mining.Segments))
			at := g.n(len(mm.Mining.Segments))
			if mm.Mining.Method == "modelChain" && i < at {
				i, at = at, i
			}
			from := mm.Mining.Segments[i].Model
			name := ""
			if from.Kind != "tree" && len(from.Outputs) > 0 {
				name = pick(g, from.Outputs).Name
			}
			earlier := func(e *Model, at int) {
				for _, s := range e.Mining.Segments[:at] {
					if e.Mining.Method == "modelChain" && s.Model.Kind != "tree" {
						for _, o := range s.Model.Outputs {
							if o.Name == name {
								name = ""
							}
						}
					}
				}
			}
			for j, a := range way {
				if path[j] != mm {
					earlier(path[j], a)
				}
			}
			earlier(mm, at)
			if name == "" {
				rc.Fault = "output field"
				mm.Outputs = append(mm.Outputs, Output{Name: "odd", Type: "double", Feature: pick(g, otherFeatures)})
				break
			}
			mm.Mining.Segments[at].Pred = &Pred{Kind: "simple", Field: name, Op: pick(g, []string{"isMissing", "isNotMissing", "lessThan"}), Value: "1"}
		case 5:
			rc.Fault = "output field"
			mm.Outputs = append(mm.Outputs, Output{Name: "odd", Type: "double", Feature: pick(g, otherFeatures)})
			k := len(mm.Outputs) - 1
			j := g.n(k + 1)
			mm.Outputs[j], mm.Outputs[k] = mm.Outputs[k], mm.Outputs[j]
		case 0:
			rc.Fault = "multiple-model method"
			mm.Mining.Method = pick(g, otherMethods)
		case 1:
			rc.Fault = "segment without model"
			sg.Model = nil
		case 2:
			rc.Fault = "segment with two models"
			sg.More = append(sg.More, leaf().xml())
		case 3:
			sg = pick(g, mm.Mining.Segments)
			placePred(&sg.Pred)
			rc.Fault += " of a segment"
		}
	default:
		rc.Fault = "model kind"
		m.Kind = pick(g, otherModels)
	}
	return rc
}

func init() {
	register("P24",
		"A random tree or regression, alone or one or two ensembles deep on a path every row takes, and two complete rows; the same document with one construct replaced by an unsupported or malformed one: model kind, mining function, multiple-model method, expression kind, function name, argument count, constant type or text, normalization, table count, interaction term, predicate field (undeclared, or the output of a segment it cannot see), output feature of an ensemble, operator, constant, set items (malformed, or one among others not of the field's type), field type, segment with no or two models or two predicates, a number of outputs other than one, node without predicate, scores of a regression tree that are no numbers. Rows the good document has a prediction for must make the bad one fail while decoding, building or scoring. Non-trivial: such a row exists.",
		2500, 90000,
		gen(genReject),
		func(c *RejectCase) Res {
			var res Res
			_, good := load(c.Good)
			x := render(c.Bad.xml())
			p, derr := decode(x)
			var berr error
			bad := good[0]
			if derr == nil {
				if len(p.Models) != 1 {
					fail("%s: %d models decoded\n%s", c.Fault, len(p.Models), x)
				}
				bad, berr = build(p, 0)
			}
			stage := ""
			for _, r := range c.Rows {
				out, err := eval(good[0], goRow(r))
				if err != nil || len(out) == 0 {
					res.Skipped++
					continue
				}
				res.Nontrivial = true
				res.Evals++
				stage = "decoding"
				if derr != nil {
					continue
				}
				stage = "building"
				if berr != nil {
					continue
				}
				stage = "scoring"
				got, err := eval(bad, goRow(r))
				if err == nil {
					fail("%s: row {%s} gives %s, expected an error\n%s", c.Fault, showRow(r), showOut(got, err), x)
				}
			}
			res.Classes = []string{c.Fault, "rejected when " + stage, strings.Repeat("nested ", c.depth()) + c.Good.Models[0].Kind}
			return res
		})
}

func (c *RejectCase) depth() (n int) {
	walkModels(c.Good.Models[0], 0, func(_ *Model, d int) {
		if d > n {
			n = d
		}
	})
	return
}
