package main

import (
	"fmt"
	"reflect"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// ---- P23: attributes left out take their schema defaults

// DefCase is a document with default-valued attributes left out and written out.
type DefCase struct {
	Doc  *Doc     `json:"doc,omitempty"`
	Out  *El      `json:"out"`  // left out
	Full *El      `json:"full"` // written out
	Rows []Row    `json:"rows,omitempty"`
	What []string `json:"what"`
}

func (c *DefCase) Document() string { return render(c.Full) }

// scoringDefaults influence or could influence scoring; what they mean must
// not depend on whether they are written out. noTrueChildStrategy is absent:
// see the known finding.
var scoringDefaults = map[string]map[string]bool{
	"TreeModel":         {"missingValuePenalty": true, "missingValueStrategy": true, "splitCharacteristic": true, "isScorable": true},
	"RegressionModel":   {"normalizationMethod": true, "isScorable": true},
	"MiningModel":       {"isScorable": true},
	"NumericPredictor":  {"exponent": true},
	"Target":            {"rescaleFactor": true, "rescaleConstant": true},
	"MiningField":       {"usageType": true, "outliers": true, "invalidValueTreatment": true},
	"Apply":             {"invalidValueTreatment": true},
	"OutputField":       {"feature": true, "rank": true, "rankBasis": true, "rankOrder": true, "isMultiValued": true, "algorithm": true, "ruleFeature": true},
	"DataField":         {"isCyclic": true},
	"Value":             {"property": true},
	"VerificationField": {"zeroThreshold": true},
}

// recordedDefaults are kept in the decoded structure.
var recordedDefaults = map[string]map[string]bool{
	"TreeModel":            {"missingValuePenalty": true, "isScorable": true},
	"RegressionModel":      {"isScorable": true},
	"MiningModel":          {"isScorable": true},
	"AssociationModel":     {"isScorable": true},
	"BaselineModel":        {"isScorable": true},
	"BayesianNetworkModel": {"isScorable": true},
	"NumericPredictor":     {"exponent": true},
	"Apply":                {"invalidValueTreatment": true},
	"ChildParent":          {"isRecursive": true},
	"DataField":            {"isCyclic": true},
	"OutputField":          {"isMultiValued": true},
	"UnivariateStats":      {"weighted": true},
}

// withDefaults copies an element twice: with the chosen default-valued
// attributes removed, and with them written out.
func (g G) withDefaults(e *El, set map[string]map[string]bool, inReg bool, what map[string]bool) (out, full *El) {
	cp := func() *El { return &El{Name: e.Name, Text: e.Text, NoExt: e.NoExt} }
	out, full = cp(), cp()
	handled := map[string]bool{}
	if s := schema.Elements[e.Name]; s != nil && set[e.Name] != nil {
		for _, a := range s.Attrs {
			if a.Def == nil || !set[e.Name][a.X] {
				continue
			}
			if e.Name == "OutputField" && a.X == "feature" && inReg {
				continue // regression models go by their own output rules
			}
			present, same := false, false
			for _, at := range e.Attrs {
				if at[0] == a.X {
					present, same = true, at[1] == *a.Def
				}
			}
			if present && !same || !g.chance(75) {
				continue
			}
			handled[a.X] = true
			full.attr(a.X, *a.Def)
			what[e.Name+" "+a.X] = true
		}
	}
	for _, at := range e.Attrs {
		if !handled[at[0]] {
			out.Attrs = append(out.Attrs, at)
			full.Attrs = append(full.Attrs, at)
		}
	}
	if e.Name == "RegressionModel" {
		inReg = true
	} else if e.Name == "TreeModel" || e.Name == "MiningModel" {
		inReg = false
	}
	for _, k := range e.Kids {
		o, f := g.withDefaults(k, set, inReg, what)
		out.Kids = append(out.Kids, o)
		full.Kids = append(full.Kids, f)
	}
	return
}

func decodedOf(e *El) *models.PMML {
	p, err := decode(render(e))
	if err != nil {
		fail("a valid document does not decode: %v\n%s", err, render(e))
	}
	return p
}

func builtOf(p *models.PMML, i int, e *El) evaluation.Model {
	if i >= len(p.Models) {
		fail("model %d of a document is lost\n%s", i, render(e))
	}
	m, err := build(p, i)
	if err != nil {
		fail("a valid model does not build: %v\n%s", err, render(e))
	}
	return m
}

// laxDiff says where the structure of a document with defaults left out, a,
// differs from that with defaults written out, b: what a leaves empty is fine.
func laxDiff(a, b reflect.Value, path string) string {
	if a.IsValid() && b.IsValid() && a.Type() == b.Type() {
		switch a.Kind() {
		case reflect.Ptr, reflect.Interface:
			if a.IsNil() {
				return ""
			}
			if !b.IsNil() {
				return laxDiff(a.Elem(), b.Elem(), path)
			}
		case reflect.Struct:
			for i := 0; i < a.NumField(); i++ {
				if d := laxDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
					return d
				}
			}
			return ""
		case reflect.Slice, reflect.Array:
			if a.Len() == b.Len() {
				for i := 0; i < a.Len(); i++ {
					if d := laxDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
						return d
					}
				}
				return ""
			}
		default:
			if a.IsZero() {
				return ""
			}
		}
	}
	return firstDiff(a, b, path)
}

// noTrueDoc shows what an absent no-true-child strategy does.
func noTrueDoc(strategy string) *Doc {
	return &Doc{Fields: []Field{{Name: "x", Type: "double"}}, Models: []*Model{{Kind: "tree", Function: "regression", Schema: []MField{{Name: "x"}},
		Tree: &Tree{NoTrue: strategy, Root: &TNode{Pred: &Pred{Kind: "true"}, Score: "1", Kids: []*TNode{{Pred: &Pred{Kind: "false"}, Score: "2"}}}}}}}
}

func init() {
	p := register("P23",
		"Half: a random document with trees, regressions and ensembles whose attributes with a schema default that can bear on scoring (missing-value strategy and penalty, split characteristic, normalization, exponent, rescaling, usage, outliers, invalid-value treatment, output feature and ranking, scorability, cyclicity) are, at random places, left out in one version and written out in the other, and 4 rows; both versions must score alike, and their structures, before and after building and scoring, must agree wherever the first is not left empty. Half: a random element of the modelled schema in two such versions over the attributes whose default the structure records, which must decode to equal structures. Non-trivial: an attribute was left out, and for scoring a row has a prediction.",
		2500, 90000,
		gen(func(g G) *DefCase {
			c := &DefCase{}
			what := map[string]bool{}
			if g.chance(50) {
				n := 0
				c.Out, c.Full = g.withDefaults(g.schemaEl(pick(g, schemaNames), g.n(5), &n), recordedDefaults, false, what)
			} else {
				any := g.anyCase(2, g.n(3)*15, 4, 40)
				for _, m := range any.Doc.Models {
					if m.Kind != "mining" && g.chance(60) {
						continue
					}
					walkModels(m, 0, func(m *Model, _ int) {
						if m.Kind == "tree" && g.chance(40) {
							m.Tree.MVS = pick(g, []string{"", "none"})
						}
						if m.Kind == "tree" && g.chance(40) {
							m.Tree.Penalty = nil
						}
						if m.Kind == "reg" && m.Function == "regression" && g.chance(40) {
							m.Reg.Norm = ""
						}
						for i := range m.Targets {
							if g.chance(40) {
								m.Targets[i].Factor = nil
							}
							if g.chance(40) {
								m.Targets[i].Constant = nil
							}
						}
					})
				}
				c.Doc, c.Rows = any.Doc, any.Rows
				c.Out, c.Full = g.withDefaults(any.Doc.xml(), scoringDefaults, false, what)
			}
			c.What = classes(what)
			return c
		}),
		func(c *DefCase) Res {
			var res Res
			cl := map[string]bool{}
			for _, w := range c.What {
				cl[w] = true
			}
			if c.Doc == nil {
				a, err := decodeEl(c.Out)
				if err != nil {
					fail("a valid element does not decode: %v\n%s", err, fragment(c.Out))
				}
				b, err := decodeEl(c.Full)
				if err != nil {
					fail("a valid element does not decode: %v\n%s", err, fragment(c.Full))
				}
				res.Evals++
				if !reflect.DeepEqual(a.Interface(), b.Interface()) {
					fail("%s decodes differently when the defaults are written out: %s\n%s", c.Out.Name, firstDiff(a, b, c.Out.Name), fragment(c.Full))
				}
				res.Nontrivial = len(c.What) > 0
				cl["decoded"] = true
				res.Classes = classes(cl)
				return res
			}
			left, written := decodedOf(c.Out), decodedOf(c.Full)
			same := func(when string) {
				res.Evals++
				if d := laxDiff(reflect.ValueOf(left), reflect.ValueOf(written), "PMML"); d != "" {
					fail("%s, with defaults left out and written out, %s\n%s", when, d, render(c.Full))
				}
			}
			same("decoded")
			for i := range c.Doc.Models {
				a, b := builtOf(left, i, c.Out), builtOf(written, i, c.Full)
				same("built")
				if len(c.What)%2 == 0 { // a caller may well ask for both again
					for _, m := range []evaluation.Model{a, b} {
						guard("validating", func() { _ = m.Validate() })
						guard("compiling", func() { _ = m.Compile() })
					}
					same("validated")
				}
				for _, r := range c.Rows {
					x, xerr := eval(a, goRow(r))
					y, yerr := eval(b, goRow(r))
					res.Evals++
					if diff := closeOut(x, xerr, y, yerr); diff != "" {
						fail("model %d, row {%s}: with defaults left out and written out %s\n%s", i, showRow(r), diff, render(c.Full))
					}
					if xerr == nil && len(x) > 0 && len(c.What) > 0 {
						res.Nontrivial = true
					}
					// and both as the reference says
					want := c.Doc.Score(i, r)
					res.Evals++
					if diff := agree(want, x, xerr); diff != "" {
						fail("model %d, row {%s}: %s\n%s", i, showRow(r), diff, render(c.Out))
					}
				}
			}
			same("scored")
			cl["scored"] = true
			res.Classes = classes(cl)
			return res
		})
	p.Findings = func() (found []Finding) {
		_, out := load(noTrueDoc(""))
		_, full := load(noTrueDoc("returnNullPrediction"))
		x, xerr := eval(out[0], goRow(Row{"x": {Rep: "float64", Text: "1"}}))
		y, yerr := eval(full[0], goRow(Row{"x": {Rep: "float64", Text: "1"}}))
		if sameOut(x, xerr, y, yerr) != "" {
			found = append(found, Finding{"tree-no-true-child-default", "TreeModel without noTrueChildStrategy predicts the last node's score where the schema default returnNullPrediction gives no prediction: " + fmt.Sprintf("%s vs %s", showOut(x, xerr), showOut(y, yerr))})
		}
		return
	}
}
