package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// G draws from rapid's bit stream. Choices are drawn bit by bit because
// rapid's integer generators are heavily biased to small values; low values
// are the simplest choices, so shrinking works towards index 0.
type G struct{ t *rapid.T }

var bit = rapid.Bool()

func (g G) n(k int) int {
	if k <= 1 {
		return 0
	}
	bits := 2
	for 1<<(bits-2) < k {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if bit.Draw(g.t, "b") {
			v |= 1
		}
	}
	if v < k {
		return v
	}
	return v % k
}

// between draws from lo..hi inclusive.
func (g G) between(lo, hi int) int { return lo + g.n(hi-lo+1) }

// chance is true with probability pct/100; false is the simpler outcome.
func (g G) chance(pct int) bool {
	if pct <= 0 {
		return false
	}
	v := 0
	for i := 0; i < 7; i++ {
		v <<= 1
		if bit.Draw(g.t, "c") {
			v |= 1
		}
	}
	return v >= 128-(pct*128+50)/100
}

// large is a rare count, well above the usual ones, around the sizes at which
// implementations like to change their ways.
func (g G) large(max int) int {
	k := pick(g, []int{16, 32, 9, 20, 64, 100, 40, 128, 11, 256}) + g.n(3)
	if k > max {
		k = max - g.n(4)
	}
	return k
}

func pick[X any](g G, xs []X) X { return xs[g.n(len(xs))] }

func (g G) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - g.n(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func sp(s string) *string { return &s }

// ---- fields and values

var fieldNames = []string{"x", "y", "z", "age", "Sepal.Length", "petal width", "température", "a<b", "q&\"r'", "score2", "F", "income_total", "_1", "data:v"}

var intPool = []string{"0", "1", "2", "3", "-1", "5", "10", "-7", "100", "255", "1000"}
var bigInts = []string{"9007199254740993", "9223372036854775807", "-9223372036854775808", "4294967296", "65536", "-129", "128", "-32769"}
var numPool = []string{"0", "1", "2", "0.5", "-1", "2.25", "3", "-0.75", "10", "100.5", "-3", "1.75", "0.1", "1e3", "-2.5"}
var strPool = []string{"a", "b", "c", "yes", "no", "A", "x y", "", "1", "0", "true", "é", "d'e", `q"r`, "<&>", " a", "a,b", "$HOME `x`", "10", "x:a", "a:"}
var boolPool = []string{"false", "true"}

func (g G) fields(n int, kinds ...string) []Field {
	if len(kinds) == 0 {
		kinds = []string{"double", "integer", "string", "boolean", "double", "string", "float"}
	}
	names := g.perm(len(fieldNames))
	var fs []Field
	for i := 0; i < n; i++ {
		fs = append(fs, Field{Name: fieldNames[names[i%len(names)]] + strings.Repeat("_", i/len(names)), Type: pick(g, kinds)})
	}
	return fs
}

func poolOf(dt string) []string {
	switch dt {
	case "integer":
		return intPool
	case "double", "float":
		return numPool
	case "boolean":
		return boolPool
	}
	return strPool
}

// integers that no int64 holds, and numbers that are no integers
var hugeInts = []string{"18446744073709551615", "9223372036854775808", "-9223372036854775809", "100000000000000000000", "12345678901234567890", "-100000000000000000000", "-18446744073709551616", "2.5", "-0.5", "0.25"}

// held is a value as a row may hold it.
func (g G) held(dt string) string {
	if dt == "integer" && g.chance(8) {
		return pick(g, hugeInts)
	}
	return g.value(dt)
}

// values that are easily taken for one another
var oddNums = []string{"16777217", "16777216", "0.30000000000000004", "0.3", "1e-9", "1e-12", "123456.789", "1e15", "999999999999999", "0.1", "0.10000000149011612", "2147483648", "1e-300"}
var oddInts = []string{"2147483647", "2147483648", "-2147483649", "16777217", "16777216", "127", "32768", "4294967295", "9007199254740992"}
var oddStrs = []string{"1.0", "01", "TRUE", "e\u0301", "yes ", "Yes", "a\u00a0b", "a b", "<nil>", "null", "NaN", "-0", "0x1", "long long long long long long long long long text", "日本", "\U0001F600", "%d", "a|b", "a;b"}

func (g G) value(dt string) string {
	switch dt {
	case "integer":
		if g.chance(6) {
			return pick(g, bigInts)
		}
		if g.chance(6) {
			return pick(g, oddInts)
		}
		if g.chance(8) {
			return strconv.Itoa(g.n(1<<12) - 1<<11)
		}
	case "double", "float":
		if g.chance(6) {
			return pick(g, oddNums)
		}
		if g.chance(10) {
			return strconv.FormatFloat(float64(g.n(1<<16)-1<<15)/pick(g, []float64{1, 8, 100, 1e5}), 'g', -1, 64)
		}
	case "string":
		if g.chance(8) {
			return pick(g, oddStrs)
		}
	}
	return pick(g, poolOf(dt))
}

// nextTo is a number hardly different from another.
func (g G) nextTo(dt, text string) string {
	if dt == "integer" {
		if i, err := strconv.ParseInt(text, 10, 64); err == nil && i > math.MinInt64 && i < math.MaxInt64 {
			return strconv.FormatInt(i+int64(1-2*g.n(2)), 10)
		}
		return text
	}
	f, err := strconv.ParseFloat(text, 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
		return text
	}
	switch g.n(4) {
	case 0:
		f = math.Nextafter(f, math.Inf(1))
	case 1:
		f = math.Nextafter(f, math.Inf(-1))
	case 2:
		f += 1e-10
	case 3:
		f *= 1 + 1e-8
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

var intReps = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

// reps lists the Go types that hold the text as a value of the data type
// exactly, the customary one first.
func reps(dt, text string) []string {
	switch dt {
	case "string":
		return []string{"string"}
	case "boolean":
		return []string{"bool", "string"}
	}
	f, err := strconv.ParseFloat(text, 64)
	must(err)
	var rs []string
	iv, ierr := strconv.ParseInt(text, 10, 64)
	isInt := ierr == nil
	if isInt {
		for _, r := range intReps {
			bits, _ := strconv.Atoi(strings.TrimLeft(r, "uint"))
			if bits == 0 {
				bits = 64
			}
			if r[0] == 'u' {
				if _, e := strconv.ParseUint(text, 10, bits); e == nil {
					rs = append(rs, r)
				}
			} else if _, e := strconv.ParseInt(text, 10, bits); e == nil {
				rs = append(rs, r)
			}
		}
	}
	exact := true
	if b, ok := new(big.Int).SetString(text, 10); ok && !isInt {
		if b.IsUint64() {
			rs = append(rs, "uint64", "uint")
		}
		bf, acc := new(big.Float).SetInt(b).Float64()
		exact = acc == big.Exact && bf == f
	}
	if isInt && int64(f) != iv || isInt && f >= 9.2e18 {
		exact = false
	}
	var fl []string
	if exact {
		fl = append(fl, "float64")
		if float64(float32(f)) == f {
			fl = append(fl, "float32")
		}
	}
	if dt == "integer" {
		rs = append(rs, fl...)
	} else {
		rs = append(fl, rs...)
	}
	return append(rs, "string")
}

func (g G) cell(dt, text string) Cell {
	rs := reps(dt, text)
	if dt == "integer" && len(text) > 15 { // few types hold it
		if n := len(rs); n > 2 && g.chance(40) {
			return Cell{rs[n-2], text}
		}
		return Cell{pick(g, rs), text}
	}
	if g.chance(35) {
		return Cell{pick(g, rs), text}
	}
	return Cell{rs[0], text}
}

// row draws a row over the fields; miss is the percentage of missing values.
func (g G) row(fs []Field, miss int) Row {
	r := Row{}
	for _, f := range fs {
		if g.chance(miss) {
			if g.chance(30) {
				r[f.Name] = Cell{Rep: "nil"}
			}
			continue
		}
		r[f.Name] = g.cell(f.Type, g.held(f.Type))
	}
	return r
}

// near draws a row that differs from another in a few fields.
func (g G) near(r Row, fs []Field, miss int) Row {
	c := Row{}
	for k, v := range r {
		c[k] = v
	}
	for i := g.between(1, 2); i > 0; i-- {
		f := pick(g, fs)
		delete(c, f.Name)
		if !g.chance(miss) {
			c[f.Name] = g.cell(f.Type, g.held(f.Type))
		}
	}
	return c
}

// ---- predicates

type pctx struct {
	fs   []Field // fields a predicate may test
	hint map[string]RV
	// text of the hint values, to place constants on and around them
	hintText map[string]string
	types    map[string]string
	noSet    bool
	flat     bool
	orderStr bool
}

func (g G) pctx(d *Doc, fs []Field, hint Row) *pctx {
	c := &pctx{fs: fs, hint: refRow(d, hint), hintText: map[string]string{}, types: map[string]string{}}
	for _, f := range fs {
		c.types[f.Name] = f.Type
		if h, ok := hint[f.Name]; ok && h.Rep != "nil" {
			c.hintText[f.Name] = h.Text
		}
	}
	return c
}

var orderOps = []string{"equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"}

func (g G) pred(c *pctx, depth int) *Pred {
	k := g.n(20)
	if len(c.fs) == 0 {
		k = 19
	}
	switch {
	case k >= 18:
		if g.chance(50) {
			return &Pred{Kind: "false"}
		}
		return &Pred{Kind: "true"}
	case k >= 13 && depth > 0 && !c.flat:
		p := &Pred{Kind: "compound", Op: pick(g, []string{"and", "or", "xor", "surrogate"})}
		k := g.between(1, 3)
		if g.chance(8) {
			k += g.between(1, 5)
		}
		if g.chance(2) {
			// many operands, mostly simple, which a single one decides
			k = g.large(140)
			depth = 1
			f := *c
			f.flat = true
			base := g.pred(&f, 0)
			for i := 0; i < k; i++ {
				if i%4 == 0 {
					base = g.pred(&f, 0)
				}
				p.Kids = append(p.Kids, base)
			}
			p.Kids[g.n(k)] = g.pred(&f, 0)
			return p
		}
		for ; k > 0; k-- {
			p.Kids = append(p.Kids, g.pred(c, depth-1))
		}
		if g.chance(3) {
			// deeply nested
			for i := g.large(40); i > 0; i-- {
				q := &Pred{Kind: "compound", Op: pick(g, []string{"and", "or", "xor", "surrogate"}), Kids: []*Pred{p}}
				if g.chance(50) {
					q.Kids = append(q.Kids, g.simple(c))
				}
				p = q
			}
		}
		return p
	case k >= 10 && k < 13 && !c.noSet:
		return g.setPred(c)
	}
	return g.simple(c)
}

func (g G) constant(c *pctx, f Field) string {
	if f.Type != "string" && f.Type != "boolean" && g.chance(3) {
		return pick(g, []string{"01", "+1", "-0", "007", "+10", "-01", "010", "-012", "08", "0100"})
	}
	if h, ok := c.hintText[f.Name]; ok && g.chance(50) {
		if _, err := strconv.ParseInt(h, 10, 64); err == nil || f.Type != "integer" {
			if f.Type != "string" && f.Type != "boolean" && g.chance(12) {
				return g.nextTo(f.Type, h)
			}
			return h
		}
	}
	return g.value(f.Type)
}

func (g G) simple(c *pctx) *Pred {
	f := pick(g, c.fs)
	if g.chance(10) {
		return &Pred{Kind: "simple", Field: f.Name, Op: pick(g, []string{"isMissing", "isNotMissing"})}
	}
	ops := orderOps
	if f.Type == "string" || f.Type == "boolean" {
		ops = ops[:2]
	}
	return &Pred{Kind: "simple", Field: f.Name, Op: pick(g, ops), Value: g.constant(c, f)}
}

func (g G) setPred(c *pctx) *Pred {
	f := pick(g, c.fs)
	p := &Pred{Kind: "set", Field: f.Name, Op: pick(g, []string{"isIn", "isNotIn"}), AType: "string"}
	k := g.between(1, 4)
	if g.chance(10) {
		k = pick(g, []int{0, 8, 13})
	}
	for ; k > 0; k-- {
		p.Items = append(p.Items, g.constant(c, f))
	}
	if f.Type != "boolean" && g.chance(3) {
		// many items, in no order
		n, step := g.large(300), 3+2*g.n(4)
		for i := 0; i < n; i++ {
			v := strconv.Itoa((i*step)%n - n/3)
			if f.Type == "string" {
				v = pick(g, []string{"", "v"}) + v
			}
			p.Items = append(p.Items, v)
		}
		at := g.n(len(p.Items))
		p.Items[at] = g.constant(c, f)
	}
	if f.Type == "integer" {
		p.AType = pick(g, []string{"int", "string"})
	} else if f.Type == "double" || f.Type == "float" {
		p.AType = pick(g, []string{"real", "string"})
	}
	return p
}

// predFor tries to draw a predicate with the given outcome for the hint row.
func (g G) predFor(c *pctx, depth int, want Tri, tries int) *Pred {
	var p *Pred
	for i := 0; i < tries; i++ {
		p = g.pred(c, depth)
		if evalPred(p, c.hint, c.types) == want {
			return p
		}
	}
	switch want {
	case T:
		return &Pred{Kind: "true"}
	case F:
		return &Pred{Kind: "false"}
	}
	return p
}

// ---- trees

type tctx struct {
	*pctx
	function  string
	classes   []string
	maxDepth  int
	tall      bool
	huge      bool
	wide      bool
	idForm    int
	unknown   int // percentage of children on the hint path made unknown
	deadEnd   int // percentage of inner nodes on the hint path left without true child
	records   bool
	ids       bool
	noScore   int    // percentage of nodes without any prediction
	scores    string // "score", "sd", "" for either
	probs     bool
	n         *int
	predDepth int
}

func (g G) prediction(c *tctx, n *TNode) {
	*c.n++
	if c.noScore > 0 && g.chance(c.noScore) {
		return
	}
	if c.function == "regression" {
		n.Score = strconv.FormatFloat(float64(*c.n)+0.25*float64(g.n(4)), 'f', -1, 64)
		if g.chance(15) {
			n.Score = "-" + n.Score
		}
		if c.records {
			n.RC = sp(strconv.Itoa(g.between(1, 30)))
		}
		return
	}
	total, count := 0, strconv.Itoa
	mode := g.n(3) // 0 score, 1 distribution, 2 both
	if c.scores == "score" {
		mode = 0
	} else if c.scores == "sd" && mode == 0 {
		mode = 1
	}
	if mode >= 1 {
		var rcs []int
		best, bi, tied := -1, 0, false
		cl := g.perm(len(c.classes))
		k := len(cl)
		if k > 1 && g.chance(25) {
			k = g.between(1, k)
		}
		for i := 0; i < k; i++ {
			rc := g.n(20)
			if rc == 0 && i == k-1 && total == 0 {
				rc = 1
			}
			rcs = append(rcs, rc)
			total += rc
			if rc > best {
				best, bi, tied = rc, i, false
			} else if rc == best {
				tied = true
			}
		}
		withProb := c.probs && g.chance(35)
		withConf := c.probs && g.chance(30)
		if g.chance(20) {
			count = countFormat(g)
		}
		if allProb := withProb && g.chance(25); allProb {
			for i := range rcs {
				rcs[i] = 0
			}
			total, count = 0, strconv.Itoa
		}
		for i := 0; i < k; i++ {
			s := SDist{Value: c.classes[cl[i]], RC: count(rcs[i])}
			if withProb && !g.chance(8) {
				s.Prob = sp(strconv.FormatFloat(float64(g.n(17))/16, 'f', -1, 64))
				if i > 0 && n.SD[i-1].Prob != nil && g.chance(12) {
					s.Prob = sp(g.nextTo("double", *n.SD[i-1].Prob))
				}
			}
			if withConf {
				s.Conf = sp(strconv.FormatFloat(float64(g.n(9))/8, 'f', -1, 64))
			}
			n.SD = append(n.SD, s)
		}
		if mode == 2 && !tied && !withProb {
			n.Score = n.SD[bi].Value
		}
	} else {
		n.Score = pick(g, c.classes)
		total = g.between(1, 20)
	}
	if c.records {
		if total == 0 {
			total = 1
		}
		n.RC = sp(count(total + g.n(2)*g.n(5)))
	}
}

// countFormat spells record counts, which need not be whole.
func countFormat(g G) func(int) string {
	unit, format := pick(g, []float64{0.25, 0.5, 0.125, 1, 1000}), pick(g, []byte{'f', 'e', 'E', 'g'})
	base := 0.0
	if g.chance(15) {
		base = pick(g, []float64{1 << 31, 1e9, 1 << 24, 1e12})
	}
	return func(n int) string { return strconv.FormatFloat(base+float64(n)*unit, format, -1, 64) }
}

// node draws a subtree; the hint row is on the path when on is set.
func (g G) node(c *tctx, depth int, on bool) *TNode {
	n := &TNode{Pred: &Pred{Kind: "true"}}
	g.prediction(c, n)
	if c.ids {
		n.ID = c.id(*c.n)
	}
	leaf := 25
	if c.tall {
		leaf = 4
	}
	if c.huge {
		leaf = 1
	}
	if !on {
		leaf = 65
	}
	if depth >= c.maxDepth || depth > 0 && g.chance(leaf) {
		return n
	}
	k := g.between(1, 4)
	if c.tall && depth > 2 {
		k = g.between(1, 2)
	} else if c.wide && on {
		k = g.between(5, 18)
		if depth == 0 && g.chance(12) {
			k = g.large(120)
		}
	}
	if c.huge {
		k = 1 + g.n(2)*g.n(2)
	}
	chosen := g.n(k)
	if !on || g.chance(c.deadEnd) {
		chosen = -1
	}
	for i := 0; i < k; i++ {
		var p *Pred
		childOn := false
		switch {
		case !on:
			p = g.pred(c.pctx, c.predDepth)
		case i == chosen:
			p = g.predFor(c.pctx, c.predDepth, T, 3)
			childOn = true
		case chosen >= 0 && i > chosen:
			p = g.pred(c.pctx, c.predDepth)
			childOn = c.unknown > 0 && g.chance(50)
		case g.chance(c.unknown):
			p = g.predFor(c.pctx, c.predDepth, U, 5)
			childOn = g.chance(60)
		default:
			p = g.predFor(c.pctx, c.predDepth, F, 3)
			if c.unknown > 0 {
				childOn = g.chance(40)
			}
		}
		if c.huge && i != chosen {
			childOn = false
		}
		kid := g.node(c, depth+1, childOn)
		kid.Pred = p
		n.Kids = append(n.Kids, kid)
	}
	if c.ids && (g.chance(92)) {
		n.Default = pick(g, n.Kids).ID
	}
	return n
}

// id is the id of the n-th node; ids may differ in case or leading zeros only.
func (c *tctx) id(n int) string {
	switch c.idForm {
	case 1:
		return []string{"a", "A", "a ", "á"}[n%4] + strings.Repeat("b", n/4)
	case 2:
		return []string{"", "0", "00", "+"}[n%4] + strconv.Itoa(n/4)
	case 3:
		return "node-" + strconv.Itoa(n) + "<&>"
	}
	return strconv.Itoa(n)
}

// shape makes some trees tall or wide.
func (g G) shape(c *tctx) {
	if g.chance(6) {
		c.tall = true
		c.maxDepth = g.between(8, 24)
		if g.chance(20) {
			c.huge = true
			c.deadEnd, c.unknown = c.deadEnd/8, c.unknown/8
			c.maxDepth = g.large(150)
		}
	} else if g.chance(6) {
		c.wide = true
		if c.maxDepth > 2 {
			c.maxDepth = 2
		}
	}
	if g.chance(25) {
		c.idForm = g.n(4)
	}
}

var classPools = [][]string{{"yes", "no"}, {"Yes", "yes", "YES", "yes "}, {"1", "1.0", "01", "+1", "1e0"}, {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}, {"probability(x)", "x", "a)b", "(", "score"}, {"yes", "no"}, {"setosa", "versicolor", "virginica"}, {"0", "1"}, {"will play", "may play", "no play"}, {"A", "b&c", "d<e", "é\"f"}, {"only"}, manyClasses(40)}

func manyClasses(n int) (cl []string) {
	for i := 0; i < n; i++ {
		cl = append(cl, fmt.Sprintf("c%d", (i*7)%n))
	}
	return
}

// schemaFor lists the fields as active and the target.
func schemaFor(fs []Field, target string) []MField {
	var ms []MField
	for _, f := range fs {
		ms = append(ms, MField{Name: f.Name})
	}
	if target != "" {
		ms = append(ms, MField{Name: target, Usage: "target"})
	}
	return ms
}

// TreeCase is a document with one tree and rows to score.
type TreeCase struct {
	Doc  *Doc  `json:"doc"`
	Rows []Row `json:"rows"`
}

func (c *TreeCase) Document() string { return render(c.Doc.xml()) }

type treeOpts struct {
	miss                      int
	strategies                []string
	functions                 []string
	unknown, deadEnd, noScore int
	scores                    string
	probs                     bool
	rows                      int
	fields                    int
	maxDepth                  int
	predDepth                 int
	noTrue                    []string
	target                    int // percentage of classification trees with a target field
	values                    int // percentage of targets with declared values
}

var allStrategies = []string{"none", "lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes", ""}
var noTrues = []string{"returnLastPrediction", "returnNullPrediction"}

func (g G) treeCase(o treeOpts) *TreeCase {
	fs := g.fields(g.between(1, o.fields))
	d := &Doc{Fields: append([]Field{}, fs...)}
	hint := g.row(fs, o.miss)
	fn := pick(g, o.functions)
	m := &Model{Kind: "tree", Function: fn, Tree: &Tree{}}
	classes := pick(g, classPools)
	target := ""
	if fn == "classification" && g.chance(o.target) {
		target = "class"
		tf := Field{Name: target, Type: "string"}
		if g.chance(o.values) {
			for _, i := range g.perm(len(classes)) {
				tf.Values = append(tf.Values, classes[i])
			}
			if g.chance(20) { // scores need not be declared
				tf.Values = tf.Values[:g.between(1, len(tf.Values))]
			}
			if g.chance(8) {
				tf.Values = append(tf.Values, pick(g, []string{"other", "zz"}))
			}
		}
		d.Fields = append(d.Fields, tf)
	} else if fn == "regression" && g.chance(50) {
		target = "out"
		d.Fields = append(d.Fields, Field{Name: target, Type: "double"})
	}
	m.Schema = schemaFor(fs, target)
	m.Tree.MVS = pick(g, o.strategies)
	m.Tree.NoTrue = pick(g, o.noTrue)
	if m.Tree.MVS == "weightedConfidence" || m.Tree.MVS == "aggregateNodes" {
		if g.chance(80) {
			m.Tree.NoTrue = "returnLastPrediction"
		}
	}
	if g.chance(50) {
		m.Tree.Penalty = sp(pick(g, []string{"1", "0.5", "0.8", "0.25", "0", "1.0", "0.9"}))
	}
	n := 0
	c := &tctx{pctx: g.pctx(d, fs, hint), function: fn, classes: classes, maxDepth: o.maxDepth, unknown: o.unknown, deadEnd: o.deadEnd,
		noScore: o.noScore, scores: o.scores, probs: o.probs, n: &n, predDepth: o.predDepth}
	needRC := m.Tree.MVS == "weightedConfidence" || m.Tree.MVS == "aggregateNodes"
	g.shape(c)
	c.records = needRC || g.chance(40)
	c.ids = m.Tree.MVS == "defaultChild" || g.chance(40)
	m.Tree.Root = g.node(c, 0, true)
	if g.chance(15) {
		m.Tree.Root.Pred = g.pred(c.pctx, 1)
	}
	d.Models = []*Model{m}
	tc := &TreeCase{Doc: d, Rows: []Row{hint}}
	for i := 1; i < o.rows; i++ {
		if g.chance(60) {
			tc.Rows = append(tc.Rows, g.near(hint, fs, o.miss))
		} else {
			tc.Rows = append(tc.Rows, g.row(fs, o.miss))
		}
	}
	return tc
}

func gen[C any](f func(g G) *C) func(*rapid.T) *C {
	return func(t *rapid.T) *C { return f(G{t}) }
}

// checkRows scores every row of every model with the library and the reference.
func checkRows(d *Doc, rows []Row, res *Res, each func(o Out, model, row int)) {
	_, ms := load(d)
	for mi := range d.Models {
		for ri, r := range rows {
			want := d.Score(mi, r)
			got, err := eval(ms[mi], goRow(r))
			if want.Amb != "" {
				res.Skipped++
				continue
			}
			res.Evals++
			if diff := agree(want, got, err); diff != "" {
				fail("row %d {%s}: %s\n%s", ri, showRow(r), diff, render(d.xml()))
			}
			if each != nil {
				each(want, mi, ri)
			}
		}
	}
}

var _ = fmt.Sprint
