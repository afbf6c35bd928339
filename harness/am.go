package main

import (
	"fmt"
	"strconv"
)

// The abstract model: what a generator makes, what the reference evaluator
// scores and what is rendered to PMML text for the library.

type Doc struct {
	Fields []Field   `json:"fields"`
	Global []Derived `json:"global,omitempty"`
	Models []*Model  `json:"models"`
}

type Field struct {
	Name   string   `json:"name"`
	Type   string   `json:"type"`
	OpType string   `json:"optype,omitempty"`
	Values []string `json:"values,omitempty"`
}

type Model struct {
	Kind     string    `json:"kind"` // tree, reg, mining
	Function string    `json:"function"`
	Schema   []MField  `json:"schema,omitempty"`
	LT       []Derived `json:"lt,omitempty"`
	Targets  []Target  `json:"targets,omitempty"`
	Outputs  []Output  `json:"outputs,omitempty"`
	Tree     *Tree     `json:"tree,omitempty"`
	Reg      *Reg      `json:"reg,omitempty"`
	Mining   *Mining   `json:"mining,omitempty"`
	Verif    *Verif    `json:"verif,omitempty"`
}

type MField struct {
	Name        string  `json:"name"`
	Usage       string  `json:"usage,omitempty"`
	Replacement *string `json:"replacement,omitempty"`
}

type Target struct {
	Field    string  `json:"field"`
	Factor   *string `json:"factor,omitempty"`
	Constant *string `json:"constant,omitempty"`
}

type Output struct {
	Name    string `json:"name"`
	Type    string `json:"type,omitempty"`
	Feature string `json:"feature,omitempty"`
	Value   string `json:"value,omitempty"`
}

type Tree struct {
	MVS     string  `json:"mvs,omitempty"`
	NoTrue  string  `json:"notrue,omitempty"`
	Penalty *string `json:"penalty,omitempty"`
	Root    *TNode  `json:"root"`
}

type TNode struct {
	ID      string   `json:"id,omitempty"`
	Score   string   `json:"score,omitempty"`
	RC      *string  `json:"rc,omitempty"`
	Default string   `json:"default,omitempty"`
	Pred    *Pred    `json:"pred,omitempty"`
	SD      []SDist  `json:"sd,omitempty"`
	Kids    []*TNode `json:"kids,omitempty"`
}

type SDist struct {
	Value string  `json:"value"`
	RC    string  `json:"rc"`
	Prob  *string `json:"prob,omitempty"`
	Conf  *string `json:"conf,omitempty"`
}

// Pred kinds: true, false, simple, set, compound.
type Pred struct {
	Kind  string   `json:"kind"`
	Field string   `json:"field,omitempty"`
	Op    string   `json:"op,omitempty"`
	Value string   `json:"value,omitempty"`
	AType string   `json:"atype,omitempty"`
	Items []string `json:"items,omitempty"`
	Kids  []*Pred  `json:"kids,omitempty"`
	Raw   *El      `json:"raw,omitempty"` // kind raw: an element to be rejected
}

// Expr kinds: field, const, apply, map.
type Expr struct {
	Kind    string  `json:"kind"`
	Field   string  `json:"field,omitempty"`
	Const   string  `json:"const,omitempty"`
	CType   string  `json:"ctype,omitempty"`
	Func    string  `json:"func,omitempty"`
	Args    []*Expr `json:"args,omitempty"`
	MapMiss *string `json:"mapmissing,omitempty"`
	Default *string `json:"default,omitempty"`
	IVT     string  `json:"ivt,omitempty"`
	Map     *MapV   `json:"map,omitempty"`
	Raw     *El     `json:"raw,omitempty"` // kind raw: an element to be rejected
}

type MapV struct {
	Pairs   [][2]string `json:"pairs"` // field, column
	Out     string      `json:"out"`
	OutType string      `json:"outtype,omitempty"`
	Prefix  string      `json:"prefix,omitempty"` // of the column names, e.g. "data:"
	Cols    []string    `json:"cols"`             // order of the cells
	Rows    [][]string  `json:"rows"`             // by Cols
}

type Derived struct {
	Name   string `json:"name"`
	Type   string `json:"type"`
	OpType string `json:"optype"`
	E      *Expr  `json:"e"`
}

type Reg struct {
	Norm   string   `json:"norm,omitempty"`
	Tables []RTable `json:"tables"`
}

type RTable struct {
	Category  string `json:"category,omitempty"`
	Intercept string `json:"intercept"`
	Num       []NumP `json:"num,omitempty"`
	Cat       []CatP `json:"cat,omitempty"`
	More      []*El  `json:"more,omitempty"`
}

type NumP struct {
	Name string `json:"name"`
	Exp  string `json:"exp,omitempty"`
	Coef string `json:"coef"`
}

type CatP struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Coef  string `json:"coef"`
}

type Mining struct {
	Method   string `json:"method"`
	Segments []*Seg `json:"segments"`
}

type Seg struct {
	ID    string `json:"id,omitempty"`
	Pred  *Pred  `json:"pred"`
	Model *Model `json:"model"`
	More  []*El  `json:"more,omitempty"` // further children, to be rejected
}

type Verif struct {
	Fields []VField   `json:"fields"`
	Rows   [][]string `json:"rows"`
}

type VField struct {
	Field  string `json:"field"`
	Column string `json:"column"`
	Out    bool   `json:"out,omitempty"`
	// declared precision of an output, 1E-6 if ""
	Precision string `json:"precision,omitempty"`
	Absent    []bool `json:"absent,omitempty"` // rows without this cell
}

// ---- rendering

func (d *Doc) xml() *El {
	root := el("PMML", "version", "4.3")
	root.add(el("Header", "copyright", "none").add(el("Application", "name", "verif", "version", "1")))
	dd := el("DataDictionary", "numberOfFields", strconv.Itoa(len(d.Fields)))
	for _, f := range d.Fields {
		fe := el("DataField", "name", f.Name, "optype", f.optype(), "dataType", f.Type)
		for _, v := range f.Values {
			fe.add(el("Value", "value", v))
		}
		dd.add(fe)
	}
	root.add(dd)
	if len(d.Global) > 0 {
		td := el("TransformationDictionary")
		for _, df := range d.Global {
			td.add(df.xml())
		}
		root.add(td)
	}
	for _, m := range d.Models {
		root.add(m.xml())
	}
	return root
}

func (f Field) optype() string {
	if f.OpType != "" {
		return f.OpType
	}
	switch f.Type {
	case "string", "boolean":
		return "categorical"
	}
	return "continuous"
}

func (df Derived) xml() *El {
	return el("DerivedField", "name", df.Name, "optype", df.OpType, "dataType", df.Type).add(df.E.xml())
}

func (e *Expr) xml() *El {
	switch e.Kind {
	case "raw":
		return e.Raw
	case "field":
		return el("FieldRef", "field", e.Field).optp("mapMissingTo", e.MapMiss)
	case "const":
		ct := e.CType
		if ct == "" {
			ct = "double"
		}
		return el("Constant", "dataType", ct).add(text(e.Const)).noExt()
	case "apply":
		a := el("Apply", "function", e.Func).optp("mapMissingTo", e.MapMiss).optp("defaultValue", e.Default)
		a.opt("invalidValueTreatment", e.IVT)
		for _, k := range e.Args {
			a.add(k.xml())
		}
		return a
	case "map":
		m := e.Map
		x := el("MapValues", "outputColumn", m.Prefix+m.Out).opt("dataType", m.OutType)
		x.optp("mapMissingTo", e.MapMiss).optp("defaultValue", e.Default)
		for _, p := range m.Pairs {
			x.add(el("FieldColumnPair", "field", p[0], "column", m.Prefix+p[1]))
		}
		x.add(inlineTable(m.Prefix, m.Cols, m.Rows, nil))
		return x
	}
	panic("expr kind " + e.Kind)
}

func (e *El) noExt() *El {
	e.NoExt = true
	return e
}

func inlineTable(prefix string, cols []string, rows [][]string, absent func(row, col int) bool) *El {
	it := el("InlineTable")
	for ri, r := range rows {
		row := el("row").noExt()
		for i, c := range cols {
			if absent != nil && absent(ri, i) {
				continue
			}
			cell := el(prefix + c).noExt()
			if r[i] != "" {
				cell.add(text(r[i]))
			}
			row.add(cell)
		}
		it.add(row)
	}
	if prefix != "" {
		it.attr("xmlns:"+prefix[:len(prefix)-1], "http://jpmml.org/jpmml-model/InlineTable")
	}
	return it
}

func (p *Pred) xml() *El {
	if p == nil {
		return nil
	}
	switch p.Kind {
	case "raw":
		return p.Raw
	case "true":
		return el("True")
	case "false":
		return el("False")
	case "simple":
		x := el("SimplePredicate", "field", p.Field, "operator", p.Op)
		if p.Op != "isMissing" && p.Op != "isNotMissing" {
			x.attr("value", p.Value)
		}
		return x
	case "set":
		return el("SimpleSetPredicate", "field", p.Field, "booleanOperator", p.Op).add(
			el("Array", "n", strconv.Itoa(len(p.Items)), "type", p.AType).add(text(arrayText(p.AType, p.Items))).noExt())
	case "compound":
		x := el("CompoundPredicate", "booleanOperator", p.Op)
		for _, k := range p.Kids {
			x.add(k.xml())
		}
		return x
	}
	panic("pred kind " + p.Kind)
}

func arrayText(typ string, items []string) string {
	out := ""
	for i, it := range items {
		if i > 0 {
			out += " "
		}
		if typ == "string" {
			out += quoteItem(it)
		} else {
			out += it
		}
	}
	return out
}

func quoteItem(s string) string {
	q := `"`
	for _, c := range s {
		if c == '"' {
			q += `\"`
		} else {
			q += string(c)
		}
	}
	return q + `"`
}

func schemaXML(fs []MField) *El {
	ms := el("MiningSchema")
	for _, f := range fs {
		ms.add(el("MiningField", "name", f.Name).opt("usageType", f.Usage).optp("missingValueReplacement", f.Replacement))
	}
	return ms
}

func ltXML(lt []Derived) *El {
	if len(lt) == 0 {
		return nil
	}
	x := el("LocalTransformations")
	for _, d := range lt {
		x.add(d.xml())
	}
	return x
}

func outputsXML(os []Output) *El {
	if len(os) == 0 {
		return nil
	}
	x := el("Output")
	for _, o := range os {
		x.add(el("OutputField", "name", o.Name).opt("dataType", o.Type).opt("feature", o.Feature).opt("value", o.Value))
	}
	return x
}

func targetsXML(ts []Target) *El {
	if len(ts) == 0 {
		return nil
	}
	x := el("Targets")
	for _, t := range ts {
		x.add(el("Target", "field", t.Field).optp("rescaleFactor", t.Factor).optp("rescaleConstant", t.Constant))
	}
	return x
}

func (m *Model) xml() *El {
	var x *El
	switch m.Kind {
	case "tree":
		x = el("TreeModel", "functionName", m.Function)
		x.opt("missingValueStrategy", m.Tree.MVS).opt("noTrueChildStrategy", m.Tree.NoTrue).optp("missingValuePenalty", m.Tree.Penalty)
	case "reg":
		x = el("RegressionModel", "functionName", m.Function).opt("normalizationMethod", m.Reg.Norm)
	case "mining":
		x = el("MiningModel", "functionName", m.Function)
	default:
		x = el(m.Kind, "functionName", m.Function)
	}
	x.add(schemaXML(m.Schema), outputsXML(m.Outputs), targetsXML(m.Targets), ltXML(m.LT))
	switch m.Kind {
	case "tree":
		x.add(m.Tree.Root.xml())
	case "reg":
		for _, t := range m.Reg.Tables {
			te := el("RegressionTable", "intercept", t.Intercept).opt("targetCategory", t.Category)
			for _, n := range t.Num {
				te.add(el("NumericPredictor", "name", n.Name).opt("exponent", n.Exp).attr("coefficient", n.Coef))
			}
			for _, c := range t.Cat {
				te.add(el("CategoricalPredictor", "name", c.Name, "value", c.Value, "coefficient", c.Coef))
			}
			te.add(t.More...)
			x.add(te)
		}
	case "mining":
		s := el("Segmentation").opt("multipleModelMethod", m.Mining.Method)
		for _, sg := range m.Mining.Segments {
			se := el("Segment").opt("id", sg.ID)
			se.add(sg.Pred.xml())
			if sg.Model != nil {
				se.add(sg.Model.xml())
			}
			se.add(sg.More...)
			s.add(se)
		}
		x.add(s)
	}
	if m.Verif != nil {
		x.add(m.Verif.xml())
	}
	return x
}

func (n *TNode) xml() *El {
	x := el("Node").opt("id", n.ID).opt("score", n.Score).optp("recordCount", n.RC).opt("defaultChild", n.Default)
	x.add(n.Pred.xml())
	for _, s := range n.SD {
		x.add(el("ScoreDistribution", "value", s.Value, "recordCount", s.RC).optp("confidence", s.Conf).optp("probability", s.Prob))
	}
	for _, k := range n.Kids {
		x.add(k.xml())
	}
	return x
}

func (v *Verif) xml() *El {
	x := el("ModelVerification", "recordCount", fmt.Sprint(len(v.Rows)), "fieldCount", fmt.Sprint(len(v.Fields)))
	vf := el("VerificationFields")
	var cols []string
	for _, f := range v.Fields {
		e := el("VerificationField", "field", f.Field, "column", "data:"+f.Column)
		if f.Out {
			if f.Precision == "" {
				f.Precision = "1E-6"
			}
			e.attr("precision", f.Precision)
		}
		vf.add(e)
		cols = append(cols, f.Column)
	}
	x.add(vf)
	x.add(inlineTable("data:", cols, v.Rows, func(r, c int) bool {
		a := v.Fields[c].Absent
		return r < len(a) && a[r]
	}))
	return x
}

// ---- rows

// Cell is one value of a row: its representation in Go and its text.
type Cell struct {
	Rep  string `json:"rep"` // nil, int, int8 ... uint64, float32, float64, string, bool
	Text string `json:"text,omitempty"`
}

type Row map[string]Cell

func (c Cell) goValue() interface{} {
	i := func(bits int) int64 { v, err := strconv.ParseInt(c.Text, 10, bits); must(err); return v }
	ui := func(bits int) uint64 { v, err := strconv.ParseUint(c.Text, 10, bits); must(err); return v }
	switch c.Rep {
	case "nil":
		return nil
	case "int":
		return int(i(64))
	case "int8":
		return int8(i(8))
	case "int16":
		return int16(i(16))
	case "int32":
		return int32(i(32))
	case "int64":
		return i(64)
	case "uint":
		return uint(ui(64))
	case "uint8":
		return uint8(ui(8))
	case "uint16":
		return uint16(ui(16))
	case "uint32":
		return uint32(ui(32))
	case "uint64":
		return ui(64)
	case "float32":
		v, err := strconv.ParseFloat(c.Text, 32)
		must(err)
		return float32(v)
	case "float64":
		v, err := strconv.ParseFloat(c.Text, 64)
		must(err)
		return v
	case "bool":
		return c.Text == "true"
	case "string":
		return c.Text
	}
	panic("rep " + c.Rep)
}

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// harnessError is a mistake of the harness, never blamed on the library.
type harnessError struct{ err error }
