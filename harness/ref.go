package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// The reference evaluator: PMML 4.3 semantics over the abstract model, written
// from the standard and independent of the library.

type Tri int

const (
	F Tri = iota
	U
	T
)

func (t Tri) String() string { return [...]string{"false", "unknown", "true"}[t] }

// RV is a reference value.
type RV struct {
	K byte // 0 missing, 'n' number, 's' text, 'b' boolean
	N float64
	I int64
	X bool // I holds the number exactly
	S string
	B bool
	// Big holds an integer beyond I exactly
	Big *big.Int
	// Dev is how far off another way to compute the number may be
	Dev float64
}

// openOutcome is thrown when an outcome hangs on the last digits of a number.
type openOutcome struct{}

// border gives up when the number may as well be c.
func (v RV) border(c float64) {
	if v.Dev > 0 && !(math.Abs(v.N-c) > v.Dev) {
		panic(openOutcome{})
	}
}

// dyadic: numbers whose sums and products are exact in any order.
func dyadic(xs ...float64) bool {
	for _, x := range xs {
		if !(math.Abs(x) < 1<<30) || x*1024 != math.Trunc(x*1024) {
			return false
		}
	}
	return true
}

func (v RV) exact() *big.Int {
	if v.X {
		return big.NewInt(v.I)
	}
	return v.Big
}

// cmpNum compares two numbers, exactly if both are integers.
func cmpNum(v, c RV) int {
	if a, b := v.exact(), c.exact(); a != nil && b != nil {
		return a.Cmp(b)
	}
	v.border(c.num())
	switch x, y := v.num(), c.num(); {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func (v RV) missing() bool { return v.K == 0 }

func rnum(f float64) RV { return RV{K: 'n', N: f} }
func rstr(s string) RV  { return RV{K: 's', S: s} }
func rbool(b bool) RV   { return RV{K: 'b', B: b} }

func numText(s string) RV {
	f, err := strconv.ParseFloat(s, 64)
	must(err)
	v := RV{K: 'n', N: f}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		v.I, v.X = i, true
	} else if b, ok := new(big.Int).SetString(s, 10); ok {
		v.Big = b
	}
	return v
}

// typed reads text as a value of a PMML data type.
func typed(dt, s string) RV {
	switch dt {
	case "double", "float", "integer":
		return numText(s)
	case "boolean":
		return rbool(s == "true")
	}
	return rstr(s)
}

func (v RV) num() float64 {
	switch v.K {
	case 'n':
		return v.N
	case 's':
		return numText(v.S).N
	}
	panic(harnessError{fmt.Errorf("number wanted of %+v", v)})
}

func (v RV) text() string {
	switch v.K {
	case 'n':
		if v.X {
			return strconv.FormatInt(v.I, 10)
		}
		if v.Big != nil {
			return v.Big.String()
		}
		return strconv.FormatFloat(v.N, 'g', -1, 64)
	case 'b':
		return strconv.FormatBool(v.B)
	}
	return v.S
}

func equalRV(dt string, v RV, constant string) bool {
	c := typed(dt, constant)
	switch dt {
	case "double", "float", "integer":
		if v.K == 's' {
			v = numText(v.S)
		}
		return cmpNum(v, c) == 0
	case "boolean":
		if v.K == 's' {
			return (v.S == "true") == c.B
		}
		return v.B == c.B
	}
	return v.sameText(c.S)
}

// sameText: the value is spelled like that.
func (v RV) sameText(s string) bool {
	if v.Dev > 0 {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			v.border(f)
		}
	}
	return v.text() == s
}

func evalPred(p *Pred, vals map[string]RV, types map[string]string) Tri {
	switch p.Kind {
	case "true":
		return T
	case "false":
		return F
	case "simple":
		v := vals[p.Field]
		if p.Op == "isMissing" {
			return tri(v.missing())
		}
		if p.Op == "isNotMissing" {
			return tri(!v.missing())
		}
		if v.missing() {
			return U
		}
		dt := types[p.Field]
		switch p.Op {
		case "equal":
			return tri(equalRV(dt, v, p.Value))
		case "notEqual":
			return tri(!equalRV(dt, v, p.Value))
		}
		if v.K == 's' {
			v = numText(v.S)
		}
		c := typed(dt, p.Value)
		cmp := cmpNum(v, c)
		switch p.Op {
		case "lessThan":
			return tri(cmp < 0)
		case "lessOrEqual":
			return tri(cmp <= 0)
		case "greaterThan":
			return tri(cmp > 0)
		case "greaterOrEqual":
			return tri(cmp >= 0)
		}
	case "set":
		v := vals[p.Field]
		if v.missing() {
			return U
		}
		in := false
		for _, it := range p.Items {
			if equalRV(types[p.Field], v, it) {
				in = true
			}
		}
		return tri(in == (p.Op == "isIn"))
	case "compound":
		var rs []Tri
		for _, k := range p.Kids {
			rs = append(rs, evalPred(k, vals, types))
		}
		nT, nU, nF := 0, 0, 0
		for _, r := range rs {
			switch r {
			case T:
				nT++
			case U:
				nU++
			default:
				nF++
			}
		}
		switch p.Op {
		case "and":
			if nF > 0 {
				return F
			}
			if nU > 0 {
				return U
			}
			return T
		case "or":
			if nT > 0 {
				return T
			}
			if nU > 0 {
				return U
			}
			return F
		case "xor":
			if nU > 0 {
				return U
			}
			return tri(nT%2 == 1)
		case "surrogate":
			for _, r := range rs {
				if r != U {
					return r
				}
			}
			return U
		}
	}
	panic(harnessError{fmt.Errorf("predicate %+v", p)})
}

func tri(b bool) Tri {
	if b {
		return T
	}
	return F
}

// ---- results

type OutV struct {
	N      float64
	Tol    float64
	Dev    float64  // see RV
	Labels []string // set for a label
}

type Out struct {
	Err   string
	None  bool
	Amb   string
	Vals  map[string]OutV
	Exact bool
	Score *OutV // the number a regression predicts

	Info Info
}

// Info records what a scoring exercised, for the non-triviality rules.
type Info struct {
	Depth    int
	Unknowns int // child predicates that decided by being unknown
	NoTrue   int // nodes with children none of which applied
	Active   int
	Segments int
	Penalty  int
	ZeroSeg  int
}

func (v OutV) plus(w OutV) OutV {
	s := OutV{N: v.N + w.N, Tol: v.Tol + w.Tol, Dev: v.Dev + w.Dev}
	if !dyadic(v.N, w.N) {
		s.Dev += 1e-15 * (math.Abs(v.N) + math.Abs(w.N))
	}
	return s
}

// times is the product p of v and a factor.
func (v OutV) times(factor, p float64) OutV {
	w := OutV{N: p, Tol: v.Tol, Dev: v.Dev * math.Abs(factor)}
	if !dyadic(v.N, factor, p) {
		w.Dev += 1e-15 * (1 + math.Abs(p))
	}
	return w
}

func none() Out           { return Out{None: true} }
func amb(s string) Out    { return Out{Amb: s} }
func errOut(s string) Out { return Out{Err: s} }

func ptol(x float64) float64 { return 1e-9 * (1 + math.Abs(x)) }

type scope struct {
	doc     *Doc
	types   map[string]string
	globals []Derived
}

func newScope(d *Doc) *scope {
	s := &scope{doc: d, types: map[string]string{}, globals: d.Global}
	for _, f := range d.Fields {
		s.types[f.Name] = f.Type
	}
	for _, g := range d.Global {
		s.types[g.Name] = g.Type
	}
	return s
}

func (s *scope) clone() *scope {
	c := *s
	c.types = map[string]string{}
	for k, v := range s.types {
		c.types[k] = v
	}
	c.globals = append([]Derived{}, s.globals...)
	return &c
}

func refRow(d *Doc, row Row) map[string]RV {
	types := map[string]string{}
	for _, f := range d.Fields {
		types[f.Name] = f.Type
	}
	vals := map[string]RV{}
	for k, c := range row {
		if c.Rep == "nil" {
			continue
		}
		if dt, ok := types[k]; ok {
			vals[k] = typed(dt, c.Text)
		} else if c.Rep == "string" {
			vals[k] = rstr(c.Text)
		} else if c.Rep == "bool" {
			vals[k] = rbool(c.Text == "true")
		} else {
			vals[k] = numText(c.Text)
		}
	}
	return vals
}

// Score scores a model of the document over a row.
func (d *Doc) Score(i int, row Row) (o Out) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(openOutcome); !ok {
				panic(r)
			}
			o = amb("hangs on the last digits of a computed number")
		}
	}()
	return newScope(d).score(d.Models[i], refRow(d, row))
}

func copyVals(v map[string]RV) map[string]RV {
	c := make(map[string]RV, len(v))
	for k, x := range v {
		c[k] = x
	}
	return c
}

func (s *scope) prepare(m *Model, vals map[string]RV) (*scope, map[string]RV, string) {
	s = s.clone()
	vals = copyVals(vals)
	for _, f := range m.Schema {
		if f.Replacement != nil && vals[f.Name].missing() {
			vals[f.Name] = typed(s.types[f.Name], *f.Replacement)
		}
	}
	for _, g := range s.globals {
		if _, ok := vals[g.Name]; ok {
			continue
		}
		v, e := s.derive(g, vals)
		if e != "" {
			return s, vals, e
		}
		vals[g.Name] = v
	}
	for _, l := range m.LT {
		s.types[l.Name] = l.Type
		v, e := s.derive(l, vals)
		if e != "" {
			return s, vals, e
		}
		vals[l.Name] = v
	}
	return s, vals, ""
}

func (s *scope) derive(d Derived, vals map[string]RV) (RV, string) {
	v, e := s.expr(d.E, vals)
	if e == "" && d.OpType == "continuous" && v.K == 's' {
		v = numText(v.S)
	}
	return v, e
}

const ambiguous = "ambiguous: "

func (s *scope) expr(e *Expr, vals map[string]RV) (RV, string) {
	switch e.Kind {
	case "field":
		v := vals[e.Field]
		if v.missing() && e.MapMiss != nil {
			return rstr(*e.MapMiss), ""
		}
		return v, ""
	case "const":
		return numText(e.Const), ""
	case "map":
		return s.mapValues(e, vals)
	}
	var args []RV
	anyMissing := false
	for _, a := range e.Args {
		v, err := s.expr(a, vals)
		if err != "" {
			return RV{}, err
		}
		if v.missing() {
			anyMissing = true
		}
		args = append(args, v)
	}
	if anyMissing && e.MapMiss != nil {
		return rstr(*e.MapMiss), ""
	}
	v, err := apply(e.Func, args, anyMissing)
	if err != "" {
		return RV{}, err
	}
	if v.missing() && e.Default != nil {
		return rstr(*e.Default), ""
	}
	return v, ""
}

func apply(fn string, args []RV, anyMissing bool) (RV, string) {
	switch fn {
	case "isMissing":
		return rbool(args[0].missing()), ""
	case "isNotMissing":
		return rbool(!args[0].missing()), ""
	case "if":
		if args[0].missing() {
			return RV{}, ""
		}
		if args[0].B || args[0].K == 's' && args[0].S == "true" {
			return args[1], ""
		}
		return args[2], ""
	case "sum":
		t, n, dev := 0.0, 0, 0.0
		for _, a := range args {
			if !a.missing() {
				t += a.num()
				n++
				dev += a.Dev
			}
		}
		if n == 0 {
			return RV{}, ambiguous + "sum of missing values only"
		}
		return RV{K: 'n', N: t, Dev: dev}, ""
	}
	if anyMissing {
		return RV{}, ""
	}
	op := func(x, y float64) float64 {
		switch fn {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return x / y
		}
		panic(harnessError{fmt.Errorf("function %s", fn)})
	}
	x, y := args[0].num(), args[1].num()
	dx, dy := args[0].Dev, args[1].Dev
	if fn == "/" {
		if y == 0 {
			return RV{}, ambiguous + "division by zero"
		}
		args[1].border(0)
	}
	v := rnum(op(x, y))
	if dx > 0 || dy > 0 {
		for _, z := range []float64{op(x-dx, y-dy), op(x-dx, y+dy), op(x+dx, y-dy), op(x+dx, y+dy)} {
			v.Dev = math.Max(v.Dev, math.Abs(z-v.N))
		}
		v.Dev += 1e-15 * math.Abs(v.N)
	}
	return v, ""
}

func (s *scope) mapValues(e *Expr, vals map[string]RV) (RV, string) {
	m := e.Map
	want := map[string]string{}
	for _, p := range m.Pairs {
		v := vals[p[0]]
		if v.missing() {
			if e.MapMiss != nil {
				return rstr(*e.MapMiss), ""
			}
			if e.Default != nil {
				return RV{}, ambiguous + "MapValues of a missing input without mapMissingTo, with a default"
			}
			return RV{}, ""
		}
		if v.Dev > 0 {
			panic(openOutcome{})
		}
		want[p[1]] = v.text()
	}
	out := -1
	for i, c := range m.Cols {
		if c == m.Out {
			out = i
		}
	}
	for _, r := range m.Rows {
		ok := true
		for i, c := range m.Cols {
			if w, used := want[c]; used && r[i] != w {
				ok = false
			}
		}
		if ok {
			return rstr(r[out]), ""
		}
	}
	if e.Default != nil {
		if m.OutType == "" {
			return rstr(*e.Default), ""
		}
		return typed(m.OutType, *e.Default), ""
	}
	return RV{}, ""
}

func (s *scope) score(m *Model, vals map[string]RV) Out {
	s, vals, e := s.prepare(m, vals)
	if e != "" {
		if strings.HasPrefix(e, ambiguous) {
			return amb(e)
		}
		return errOut(e)
	}
	switch m.Kind {
	case "tree":
		return s.tree(m, vals)
	case "reg":
		return s.reg(m, vals)
	case "mining":
		return s.mining(m, vals)
	}
	panic(harnessError{fmt.Errorf("model kind %s", m.Kind)})
}

// ---- trees

type D struct {
	val     string
	prob    float64
	rc      float64
	rcKnown bool
}

type treeCtx struct {
	s      *scope
	m      *Model
	vals   map[string]RV
	target string
	values []string
	amb    string
	info   Info
}

func (s *scope) target(m *Model) (string, []string) {
	for _, f := range m.Schema {
		if f.Usage == "target" {
			for _, df := range s.doc.Fields {
				if df.Name == f.Name {
					return f.Name, df.Values
				}
			}
			return f.Name, nil
		}
	}
	return "", nil
}

func (s *scope) tree(m *Model, vals map[string]RV) Out {
	c := &treeCtx{s: s, m: m, vals: vals}
	c.target, c.values = s.target(m)
	if c.pred(m.Tree.Root) != T {
		return none()
	}
	ds := c.enter(m.Tree.Root, 0)
	if c.amb != "" {
		return Out{Amb: c.amb, Info: c.info}
	}
	if ds == nil {
		return Out{None: true, Info: c.info}
	}
	if m.Function == "regression" {
		v := OutV{N: numText(ds[0].val).N}
		v.Tol = ptol(v.N)
		return Out{Vals: map[string]OutV{"score": v}, Exact: true, Score: &v, Info: c.info}
	}
	o := Out{Vals: map[string]OutV{}, Exact: true, Info: c.info}
	best := math.Inf(-1)
	for _, d := range ds {
		best = math.Max(best, d.prob)
		v := OutV{N: d.prob, Tol: ptol(1)}
		if c.info.Unknowns > 0 || !dyadic(d.prob) {
			v.Dev = 1e-13
		}
		o.Vals["probability("+d.val+")"] = v
	}
	var labels []string
	for _, d := range ds {
		if d.prob >= best-1e-9 {
			labels = append(labels, d.val)
		}
	}
	if c.target != "" {
		o.Vals[c.target] = OutV{Labels: labels}
	} else {
		o.Exact = false
	}
	return o
}

func (c *treeCtx) pred(n *TNode) Tri { return evalPred(n.Pred, c.vals, c.s.types) }

func (c *treeCtx) own(n *TNode) []D {
	if c.m.Function == "regression" {
		if n.Score == "" {
			return nil
		}
		return []D{{val: n.Score}}
	}
	if len(n.SD) > 0 {
		total := 0.0
		for _, s := range n.SD {
			total += numText(s.RC).N
		}
		var ds []D
		for _, s := range n.SD {
			d := D{val: s.Value, rc: numText(s.RC).N, rcKnown: true}
			if s.Prob != nil {
				d.prob = numText(*s.Prob).N
			} else if total == 0 {
				c.amb = "share of no records"
			} else {
				d.prob = d.rc / total
			}
			ds = append(ds, d)
		}
		return ds
	}
	if n.Score == "" {
		return nil
	}
	own := D{val: n.Score, prob: 1}
	if n.RC != nil {
		own.rc, own.rcKnown = numText(*n.RC).N, true
	}
	var ds []D
	found := false
	for _, v := range c.values {
		if v == n.Score {
			ds = append(ds, own)
			found = true
		} else {
			ds = append(ds, D{val: v, rcKnown: true})
		}
	}
	if !found {
		ds = append(ds, own)
	}
	return ds
}

func (c *treeCtx) possible(n *TNode, from int) []*TNode {
	var ks []*TNode
	for _, k := range n.Kids[from:] {
		if c.pred(k) != F {
			ks = append(ks, k)
		}
	}
	return ks
}

func (c *treeCtx) enter(n *TNode, depth int) []D {
	if depth > c.info.Depth {
		c.info.Depth = depth
	}
	for i, k := range n.Kids {
		switch c.pred(k) {
		case T:
			return c.enter(k, depth+1)
		case F:
			continue
		}
		c.info.Unknowns++
		switch c.m.Tree.MVS {
		case "", "none":
			continue
		case "lastPrediction":
			return c.own(n)
		case "nullPrediction":
			return nil
		case "defaultChild":
			for _, dc := range n.Kids {
				if n.Default != "" && dc.ID == n.Default {
					pen := 1.0
					if c.m.Tree.Penalty != nil {
						pen = numText(*c.m.Tree.Penalty).N
					}
					var ds []D
					c.info.Penalty++
					for _, d := range c.enter(dc, depth+1) {
						d.prob *= pen
						ds = append(ds, d)
					}
					return ds
				}
			}
			c.amb = "no default child"
			return nil
		}
		if c.m.Function == "regression" {
			c.amb = "class confidences of a regression tree"
			return nil
		}
		ks := c.possible(n, i)
		if c.m.Tree.MVS == "aggregateNodes" {
			return normalize(c.aggregate(n, depth), &c.amb)
		}
		total := 0.0
		for _, k := range ks {
			if k.RC == nil || numText(*k.RC).N <= 0 {
				c.amb = "weight of a node without records"
				return nil
			}
			total += numText(*k.RC).N
		}
		var ds []D
		for _, k := range ks {
			kd := c.enter(k, depth+1)
			if kd == nil {
				c.amb = "weighted node without prediction"
				return nil
			}
			for _, d := range kd {
				d.prob *= numText(*k.RC).N / total
				ds = addTo(ds, d)
			}
		}
		return ds
	}
	if len(n.Kids) > 0 {
		c.info.NoTrue++
		if c.m.Tree.NoTrue == "returnNullPrediction" {
			return nil
		}
	}
	return c.own(n)
}

func addTo(ds []D, d D) []D {
	for i := range ds {
		if ds[i].val == d.val {
			ds[i].prob += d.prob
			ds[i].rc += d.rc
			return ds
		}
	}
	return append(ds, d)
}

// aggregate sums the record counts of the leaves the row may belong to.
func (c *treeCtx) aggregate(n *TNode, depth int) []D {
	if depth > c.info.Depth {
		c.info.Depth = depth
	}
	if len(n.Kids) == 0 {
		ds := c.own(n)
		if ds == nil {
			c.amb = "leaf without prediction"
		}
		for _, d := range ds {
			if !d.rcKnown {
				c.amb = "leaf without record count"
			}
		}
		return ds
	}
	for i, k := range n.Kids {
		switch c.pred(k) {
		case T:
			return c.aggregate(k, depth+1)
		case F:
			continue
		}
		c.info.Unknowns++
		var ds []D
		for _, k := range c.possible(n, i) {
			for _, d := range c.aggregate(k, depth+1) {
				ds = addTo(ds, d)
			}
		}
		return ds
	}
	c.amb = "aggregated node without true child"
	return nil
}

func normalize(ds []D, ambp *string) []D {
	total := 0.0
	for _, d := range ds {
		total += d.rc
	}
	if total == 0 {
		*ambp = "no records"
		return nil
	}
	for i := range ds {
		ds[i].prob = ds[i].rc / total
	}
	return ds
}

// ---- regression

func link(norm string, y float64) float64 {
	switch norm {
	case "", "none":
		return y
	case "logit", "softmax":
		return 1 / (1 + math.Exp(-y))
	case "exp":
		return math.Exp(y)
	case "cloglog":
		return 1 - math.Exp(-math.Exp(y))
	case "cauchit":
		return 0.5 + math.Atan(y)/math.Pi
	}
	panic(harnessError{fmt.Errorf("norm %s", norm)})
}

func (s *scope) linear(t RTable, vals map[string]RV) (y, mag, dev float64, err string) {
	y = numText(t.Intercept).N
	mag = math.Abs(y)
	exact := dyadic(y)
	for _, n := range t.Num {
		v := vals[n.Name]
		if v.missing() {
			return 0, 0, 0, "missing " + n.Name
		}
		e := 1.0
		if n.Exp != "" {
			e = numText(n.Exp).N
		}
		if v.num() == 0 && e == 0 {
			// 0^0 is 1 by convention and in every implementation
			e = 0
		}
		term := numText(n.Coef).N * math.Pow(v.num(), e)
		y += term
		mag += math.Abs(term)
		exact = exact && dyadic(term, v.num(), numText(n.Coef).N)
		if v.Dev > 0 {
			exact = false
			if e < 0 {
				v.border(0)
			}
			for _, x := range []float64{v.num() - v.Dev, v.num() + v.Dev} {
				dev += math.Abs(numText(n.Coef).N*math.Pow(x, e) - term)
			}
		}
	}
	for _, c := range t.Cat {
		v := vals[c.Name]
		if !v.missing() && v.sameText(c.Value) {
			y += numText(c.Coef).N
			mag += math.Abs(numText(c.Coef).N)
			exact = exact && dyadic(numText(c.Coef).N)
		}
	}
	if !exact || !dyadic(y, mag) {
		dev += 1e-13*mag + 1e-300
	}
	return y, mag, dev, ""
}

func (s *scope) reg(m *Model, vals map[string]RV) Out {
	var ys, mags []float64
	dev := 0.0
	for i, t := range m.Reg.Tables {
		if m.Function == "classification" && twoClassLink(m) && i > 0 {
			break
		}
		y, mag, d, e := s.linear(t, vals)
		dev += d
		if e != "" {
			return errOut(e)
		}
		ys, mags = append(ys, y), append(mags, mag)
	}
	for _, mag := range mags {
		if math.IsInf(mag, 0) || math.IsNaN(mag) {
			return amb("infinite term")
		}
	}
	if m.Function == "regression" {
		v := OutV{N: link(m.Reg.Norm, ys[0])}
		v.Dev = linkDev(m.Reg.Norm, ys[0], dev)
		v.Tol = linkTol(m.Reg.Norm, ys[0], mags[0]) + v.Dev
		return Out{Vals: map[string]OutV{m.Outputs[0].Name: v}, Exact: true, Score: &v}
	}
	ps := map[string]OutV{}
	if twoClassLink(m) {
		p := link(m.Reg.Norm, ys[0])
		dev = linkDev(m.Reg.Norm, ys[0], dev)
		tol := linkTol(m.Reg.Norm, ys[0], mags[0]) + dev
		ps[m.Reg.Tables[0].Category] = OutV{N: p, Tol: tol, Dev: dev}
		ps[m.Reg.Tables[1].Category] = OutV{N: 1 - p, Tol: tol, Dev: dev + 1e-15*(1+math.Abs(p))}
	} else if m.Reg.Norm == "softmax" {
		max, mag := math.Inf(-1), 0.0
		for i, y := range ys {
			max = math.Max(max, y)
			mag = math.Max(mag, mags[i])
		}
		sum := 0.0
		for _, y := range ys {
			sum += math.Exp(y - max)
		}
		for i, t := range m.Reg.Tables {
			ps[t.Category] = OutV{N: math.Exp(ys[i]-max) / sum, Tol: 1e-9 + 1e-13*mag + 2*dev, Dev: 1e-13*(1+mag) + 2*dev}
		}
	} else {
		sum, mag := 0.0, 0.0
		for i, y := range ys {
			sum += y
			mag += mags[i]
		}
		if !(math.Abs(sum) >= 1e-6*mag+1e3*dev+1e-200) {
			return amb("simplemax of scores that cancel")
		}
		for i, t := range m.Reg.Tables {
			n := ys[i] / sum
			d := (1e-13*mag + dev) * (1 + math.Abs(n)) / math.Abs(sum)
			ps[t.Category] = OutV{N: n, Tol: 1e-9*(1+math.Abs(n))*(1+mag/math.Abs(sum)) + d, Dev: d}
		}
	}
	o := Out{Vals: map[string]OutV{}, Exact: true}
	for _, of := range m.Outputs {
		if p, ok := ps[of.Value]; ok {
			o.Vals[of.Name] = p
		}
	}
	return o
}

// linkDev is how far off the link of a number that may be off by dev may be.
func linkDev(norm string, y, dev float64) float64 {
	switch norm {
	case "", "none":
		return dev
	case "exp":
		return math.Exp(y) * (math.Expm1(dev) + 1e-14)
	}
	return dev + 1e-15
}

func linkTol(norm string, y, mag float64) float64 {
	d := 1e-12 * (1 + mag)
	switch norm {
	case "exp":
		if d > 1e-3 {
			return math.Inf(1)
		}
		return math.Exp(y) * (d + 1e-9)
	case "", "none":
		return 1e-9 * (1 + mag)
	}
	return 1e-9 + d
}

// twoClassLink: two classes scored by a link function rather than by a
// normalisation over the classes.
func twoClassLink(m *Model) bool {
	return len(m.Reg.Tables) == 2 && m.Reg.Norm != "softmax" && m.Reg.Norm != "simplemax"
}

// ---- mining

func (s *scope) mining(m *Model, vals map[string]RV) Out {
	in := s.clone()
	in.globals = append(in.globals, m.LT...)
	info := Info{Segments: len(m.Mining.Segments)}
	method := m.Mining.Method
	if method == "" {
		method = "sum"
	}
	switch method {
	case "selectFirst":
		for _, sg := range m.Mining.Segments {
			if evalPred(sg.Pred, vals, in.types) == T {
				o := in.score(sg.Model, vals)
				o.Info.Active, o.Info.Segments = 1, info.Segments
				return o
			}
		}
		return Out{None: true, Info: info}
	case "modelChain":
		vals = copyVals(vals)
		last := none()
		for _, sg := range m.Mining.Segments {
			p := evalPred(sg.Pred, vals, in.types)
			if p == T {
				o := in.score(sg.Model, vals)
				if o.Amb != "" || o.Err != "" {
					return o
				}
				info.Active++
				last = o
				for k, v := range o.Vals {
					if v.Labels == nil {
						vals[k] = RV{K: 'n', N: v.N, Dev: v.Dev}
					} else if len(v.Labels) == 1 {
						vals[k] = rstr(v.Labels[0])
					} else {
						return amb("tied label fed forward")
					}
				}
			}
			if sg.Model.Kind != "tree" {
				for _, of := range sg.Model.Outputs {
					if _, ok := in.types[of.Name]; !ok {
						dt := of.Type
						if dt == "" {
							dt = "double"
						}
						in.types[of.Name] = dt
					}
				}
			}
		}
		last.Info = info
		return last
	}
	sums := map[string]OutV{}
	tot := OutV{}
	for _, sg := range m.Mining.Segments {
		if evalPred(sg.Pred, vals, in.types) != T {
			continue
		}
		o := in.score(sg.Model, vals)
		if o.Amb != "" || o.Err != "" {
			return o
		}
		if o.None {
			return amb("ensemble member without prediction")
		}
		info.Active++
		if m.Function == "regression" {
			if o.Score == nil {
				return amb("regression member without score")
			}
			tot = tot.plus(*o.Score)
			continue
		}
		for _, of := range m.Outputs {
			v := o.Vals[of.Name]
			sums[of.Name] = sums[of.Name].plus(v)
		}
	}
	if info.Active == 0 {
		return Out{None: true, Info: info}
	}
	k := 1.0
	if method == "average" {
		k = float64(info.Active)
	}
	o := Out{Vals: map[string]OutV{}, Info: info}
	if m.Function == "classification" {
		for _, of := range m.Outputs {
			v := sums[of.Name]
			v.Tol += 1e-12
			o.Vals[of.Name] = v.times(1/k, v.N/k)
		}
		return o
	}
	tot = tot.times(1/k, tot.N/k)
	tot.Tol += ptol(tot.N)
	for _, of := range m.Outputs {
		o.Vals[of.Name] = tot
	}
	score := tot
	for _, t := range m.Targets {
		v := tot
		if t.Factor != nil {
			tol := v.Tol * (1 + math.Abs(numText(*t.Factor).N))
			v = v.times(numText(*t.Factor).N, v.N*numText(*t.Factor).N)
			v.Tol = tol
		}
		if t.Constant != nil {
			v = v.plus(OutV{N: numText(*t.Constant).N})
			v.Tol += ptol(numText(*t.Constant).N)
		}
		o.Vals[t.Field] = v
		score = v
	}
	o.Score = &score
	return o
}
