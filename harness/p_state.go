package main

import (
	"strings"

	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"sync"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// anyModel appends a model of any kind over the fields to the document.
func (g G) anyModel(d *Doc, fs []Field, hint Row, classes []string, n *int, derive int) *Model {
	c := mctx{d: d, base: fs, fs: append([]Field{}, fs...), hint: hint, n: n, derive: derive, classes: classes}
	for _, df := range d.Global {
		c = c.with(Field{Name: df.Name, Type: df.Type})
	}
	fn := pick(g, []string{"regression", "classification"})
	switch g.n(4) {
	case 0:
		return g.regMember(c, fn)
	case 1, 2:
		m := g.treeMember(c, fn)
		if g.chance(50) {
			m.Tree.MVS = pick(g, []string{"nullPrediction", "none", "lastPrediction", "nullPrediction"})
			m.Tree.NoTrue = pick(g, noTrues)
		}
		return m
	}
	return g.ensemble(c, fn, pick(g, []string{"sum", "average", "modelChain", "selectFirst"}), false, 1)
}

// anyCase draws a document with models of any kinds and rows.
func (g G) anyCase(models, miss, rows, derive int) *RowsCase {
	nf := g.between(1, 4)
	if g.chance(4) {
		nf = g.large(40)
	}
	fs := g.fields(nf)
	hint := g.row(fs, miss)
	d := &Doc{Fields: append([]Field{}, fs...)}
	n := 0
	classes := pick(g, classPools)
	d.Fields = append(d.Fields, Field{Name: "class", Type: "string", Values: classes})
	if g.chance(derive) {
		ec := &ectx{fs: append([]Field{}, fs...)}
		for i := g.between(1, 2); i > 0; i-- {
			n++
			d.Global = append(d.Global, g.derived(ec, fmt.Sprintf("g%d", n)))
		}
	}
	for i := 0; i < models; i++ {
		d.Models = append(d.Models, g.anyModel(d, fs, hint, classes, &n, derive))
	}
	return &RowsCase{Doc: d, Rows: g.rowsFrom(fs, hint, rows, miss)}
}

func (d *Doc) baseFields() []Field {
	var fs []Field
	for _, f := range d.Fields {
		if f.Name != "class" && !(len(f.Name) > 1 && f.Name[0] == 't' && f.Name[1] >= '0' && f.Name[1] <= '9') {
			fs = append(fs, f)
		}
	}
	return fs
}

// ---- P04

// RepCase is a row held in several ways.
type RepCase struct {
	Doc  *Doc    `json:"doc"`
	Rows [][]Row `json:"rows"` // each group holds the same values
}

func (c *RepCase) Document() string { return render(c.Doc.xml()) }

func init() {
	register("P04",
		"A random document with a tree, a regression and an ensemble or derived fields (MapValues, arithmetic) over integer, double, float, boolean and string fields, and 3 rows, each held in 4 ways: the customary Go types, then a random Go type per value among all those that represent it exactly (10 integer types, float32, float64, decimal text; bool or text for booleans). All four must give the same outcome, and the first must agree with the reference. Non-trivial: at least two values of a row change type and the row has a prediction.",
		900, 40000,
		gen(func(g G) *RepCase {
			c := &RepCase{}
			var rows []Row
			if g.chance(20) {
				mc := genMapCase(g)
				c.Doc, rows = mc.Doc, mc.Rows[:3]
			} else {
				any := g.anyCase(2, g.n(2)*10, 3, 40)
				c.Doc, rows = any.Doc, any.Rows
			}
			types := map[string]string{}
			for _, f := range c.Doc.Fields {
				types[f.Name] = f.Type
			}
			for _, r := range rows {
				group := []Row{{}, {}, {}, {}}
				for _, f := range c.Doc.Fields {
					cell, ok := r[f.Name]
					if !ok {
						continue
					}
					if cell.Rep == "nil" {
						for i := range group {
							group[i][f.Name] = cell
						}
						continue
					}
					rs := reps(f.Type, cell.Text)
					for i := range group {
						k := 0
						if i > 0 {
							k = g.n(len(rs))
						}
						group[i][f.Name] = Cell{rs[k], cell.Text}
					}
				}
				c.Rows = append(c.Rows, group)
			}
			return c
		}),
		func(c *RepCase) Res {
			var res Res
			cl := map[string]bool{}
			_, ms := load(c.Doc)
			for mi, m := range ms {
				for _, group := range c.Rows {
					want := c.Doc.Score(mi, group[0])
					a, aerr := eval(m, goRow(group[0]))
					res.Evals++
					if diff := agree(want, a, aerr); diff != "" {
						fail("model %d, row {%s}: %s\n%s", mi, showRow(group[0]), diff, render(c.Doc.xml()))
					}
					for _, r := range group[1:] {
						b, berr := eval(m, goRow(r))
						res.Evals++
						if diff := closeOut(a, aerr, b, berr); diff != "" {
							fail("model %d: {%s} and {%s} hold the same values but give %s\n%s", mi, showRow(group[0]), showRow(r), diff, render(c.Doc.xml()))
						}
						changed := 0
						for k, x := range r {
							if x.Rep != group[0][k].Rep {
								changed++
								cl[group[0][k].Rep+" as "+x.Rep] = true
							}
						}
						if changed >= 2 && len(a) > 0 {
							res.Nontrivial = true
						}
					}
				}
			}
			res.Classes = classes(cl)
			return res
		})

	// ---- P10
	register("P10",
		"A random tree, regression or ensemble, with derived fields, whose mining schema declares replacements for some fields (including 0, false and the empty string), and 4 rows with about 45% missing values, absent or nil. The library's result is compared to the reference, to its result for the row with the replacements supplied, and, with every replacement taken out of the document, to the result for the row so completed; rows with all values present are also compared to the document without replacements. Non-trivial: a replacement is used for a row that is compared.",
		900, 40000,
		gen(func(g G) *RowsCase {
			c := g.anyCase(1, 45, 4, 30)
			m := c.Doc.Models[0]
			g.replacements(m.Schema, c.Doc.baseFields(), 60)
			for i := range m.Schema {
				if r := m.Schema[i].Replacement; r != nil && g.chance(25) {
					for _, f := range c.Doc.Fields {
						if f.Name == m.Schema[i].Name {
							z := map[string]string{"boolean": "false", "string": ""}[f.Type]
							if f.Type != "string" && f.Type != "boolean" {
								z = "0"
							}
							m.Schema[i].Replacement = &z
						}
					}
				}
			}
			return c
		}),
		func(c *RowsCase) Res {
			var res Res
			cl := map[string]bool{}
			d := c.Doc
			_, ms := load(d)
			bare := *d
			bm := *d.Models[0]
			bm.Schema = nil
			for _, f := range d.Models[0].Schema {
				f.Replacement = nil
				bm.Schema = append(bm.Schema, f)
			}
			bare.Models = []*Model{&bm}
			_, bms := load(&bare)
			types := newScope(d).types
			for ri, r := range c.Rows {
				full := Row{}
				for k, v := range r {
					full[k] = v
				}
				used := 0
				for _, f := range d.Models[0].Schema {
					if f.Replacement == nil {
						continue
					}
					if v, ok := r[f.Name]; ok && v.Rep != "nil" {
						continue
					}
					used++
					rs := reps(types[f.Name], *f.Replacement)
					full[f.Name] = Cell{rs[ri%len(rs)], *f.Replacement}
					cl["replaced "+types[f.Name]] = true
					if z := *f.Replacement; z == "" || z == "0" || z == "false" {
						cl["zero-valued replacement"] = true
					}
				}
				want := d.Score(0, r)
				a, aerr := eval(ms[0], goRow(r))
				res.Evals++
				if diff := agree(want, a, aerr); diff != "" {
					fail("row %d {%s}: %s\n%s", ri, showRow(r), diff, render(d.xml()))
				}
				b, berr := eval(ms[0], goRow(full))
				if diff := closeOut(a, aerr, b, berr); diff != "" {
					fail("row {%s} and the completed row {%s} give %s\n%s", showRow(r), showRow(full), diff, render(d.xml()))
				}
				e, eerr := eval(bms[0], goRow(full))
				if diff := closeOut(a, aerr, e, eerr); diff != "" {
					fail("row {%s}, and the completed row {%s} in the model without replacements, give %s\n%s", showRow(r), showRow(full), diff, render(d.xml()))
				}
				res.Evals += 2
				if used > 0 {
					res.Nontrivial = true
				}
			}
			cl[d.Models[0].Kind] = true
			res.Classes = classes(cl)
			return res
		})

	// ---- P15
	register("P15",
		"A random document with 3 models and a random history of 6-25, at times up to 250, operations on them: score one of 4-10 rows (some of them twisted copies of others: values of two fields exchanged or run together, in another type, missing in another way; from a row of its own or one map filled again and again, overwritten after the call; each model scored by up to two instances built from the same decoded document), Validate, Compile or Verify again, build a further instance. Every result is compared bit for bit with that of a fresh decode and build that scored nothing else; after every operation the row is compared with a copy taken before it, and at the end the data and transformation dictionaries with those of a fresh decode. Non-trivial: at least four scorings, at least two of them after another operation on the same instance.",
		500, 20000,
		gen(func(g G) *HistCase {
			any := g.anyCase(3, g.n(3)*15, 4, 45)
			c := &HistCase{Doc: any.Doc, Rows: any.Rows}
			for _, m := range c.Doc.Models {
				g.replacements(m.Schema, c.Doc.baseFields(), 15)
				if g.chance(40) {
					v := &Verif{Fields: []VField{{Field: "nothing", Column: "nothing", Out: true}}}
					if len(c.Rows[0]) > 0 {
						for _, f := range c.Doc.baseFields() {
							v.Fields = append(v.Fields, VField{Field: f.Name, Column: fmt.Sprintf("c%d", len(v.Fields))})
						}
					}
					row := []string{"1"}
					for _, f := range v.Fields[1:] {
						for _, df := range c.Doc.Fields {
							if df.Name == f.Field {
								row = append(row, g.value(df.Type))
							}
						}
					}
					v.Rows = [][]string{row}
					m.Verif = v
				}
			}
			c.Rows = g.twists(c.Rows, 6)
			n := g.between(6, 25)
			if g.chance(10) {
				n = g.between(60, 250)
			}
			for ; n > 0; n-- {
				o := Op{Kind: pick(g, []string{"eval", "eval", "eval", "reuse", "eval", "eval", "verify", "compile", "validate", "build"}), Model: g.n(3), Inst: g.n(2), Row: g.n(len(c.Rows))}
				c.Ops = append(c.Ops, o)
			}
			return c
		}), checkHistory).Assume = []string{"results that an error reports are compared as errors"}

	// ---- P16
	p16 := register("P16",
		"A random document with 3 models (trees of all strategies, regressions, ensembles, derived fields, MapValues) and 4-7 rows; the built models are scored by 6 goroutines at once, 12-18 times per goroutine, each with its own rows, under the race detector, in several scheduling modes (GOMAXPROCS 1-8); every result is compared bit for bit with the one obtained alone. Non-trivial: some row has a prediction.",
		150, 4000,
		gen(func(g G) *ConcCase {
			if g.chance(15) {
				mc := genMapCase(g)
				return &ConcCase{Doc: mc.Doc, Rows: mc.Rows, Order: g.perm(12), Procs: pick(g, []int{8, 4, 2, 3, 1, 8}), First: g.chance(50)}
			}
			any := g.anyCase(3, g.n(3)*20, 4, 45)
			for _, m := range any.Doc.Models {
				g.replacements(m.Schema, any.Doc.baseFields(), 20)
			}
			return &ConcCase{Doc: any.Doc, Rows: g.twists(any.Rows, 3), Order: g.perm(18), Procs: pick(g, []int{8, 4, 2, 3, 1, 8}), First: g.chance(50)}
		}), checkConcurrent)
	p16.Race = true
}

type Op struct {
	Kind  string `json:"kind"`
	Model int    `json:"model"`
	Inst  int    `json:"inst,omitempty"`
	Row   int    `json:"row,omitempty"`
}

type HistCase struct {
	Doc  *Doc  `json:"doc"`
	Rows []Row `json:"rows"`
	Ops  []Op  `json:"ops"`
}

func (c *HistCase) Document() string { return render(c.Doc.xml()) }

type result struct {
	out evaluation.DataRow
	err error
}

// twists adds rows that are easily taken for the ones there are: the values of
// two fields exchanged, text moved from one to the next, a value given in
// another type, missing in another way, or with white space.
func (g G) twists(rows []Row, n int) []Row {
	for ; n > 0 && len(rows) > 0; n-- {
		if !g.chance(60) {
			continue
		}
		r := Row{}
		var keys []string
		for k, v := range pick(g, rows) {
			r[k] = v
			keys = append(keys, k)
		}
		sortStrings(keys)
		if len(keys) == 0 {
			continue
		}
		a, b := pick(g, keys), pick(g, keys)
		switch g.n(7) {
		case 0:
			r[a], r[b] = r[b], r[a]
		case 1:
			t := r[a].Text + r[b].Text
			i := g.n(len([]rune(t)) + 1)
			r[a], r[b] = Cell{"string", string([]rune(t)[:i])}, Cell{"string", string([]rune(t)[i:])}
		case 2:
			r[a] = Cell{"string", r[a].Text}
		case 3:
			delete(r, a)
		case 4:
			r[a] = Cell{"nil", ""}
		case 5:
			r[a] = Cell{"string", pick(g, []string{"", "<nil>", "nil", "0", "false", "%!v(nil)", r[a].Text + " ", r[a].Text + "," + r[b].Text, r[a].Text + "\x00"})}
		default:
			if f, err := strconv.ParseFloat(r[a].Text, 64); err == nil && f == f {
				r[a] = Cell{pick(g, []string{"float64", "string"}), strconv.FormatFloat(f+pick(g, []float64{0, 1, -1, 0.25, 1e-9, 256, 65536}), 'g', -1, 64)}
			} else {
				r[a] = Cell{"bool", "true"}
			}
		}
		rows = append(rows, r)
	}
	return rows
}

// alone scores every row with a model of its own.
func alone(text string, models int, rows []Row) [][]result {
	var all [][]result
	for mi := 0; mi < models; mi++ {
		var rs []result
		for _, r := range rows {
			p, err := decode(text)
			if err != nil {
				fail("a valid document does not decode: %v\n%s", err, text)
			}
			m, err := build(p, mi)
			if err != nil {
				fail("a valid model does not build: %v\n%s", err, text)
			}
			out, err := eval(m, goRow(r))
			rs = append(rs, result{out, err})
		}
		all = append(all, rs)
	}
	return all
}

func checkHistory(c *HistCase) Res {
	var res Res
	cl := map[string]bool{}
	text := render(c.Doc.xml())
	want := alone(text, len(c.Doc.Models), c.Rows)
	p, err := decode(text)
	if err != nil {
		fail("a valid document does not decode: %v\n%s", err, text)
	}
	inst := make([][]evaluation.Model, len(c.Doc.Models))
	busy := map[[2]int]int{}
	get := func(mi, i int) evaluation.Model {
		for len(inst[mi]) <= i {
			m, err := build(p, mi)
			if err != nil {
				fail("model %d builds from a fresh document but not after other operations: %v\n%s", mi, err, text)
			}
			inst[mi] = append(inst[mi], m)
		}
		return inst[mi][i]
	}
	evals, later := 0, 0
	shared := evaluation.DataRow{}
	for step, o := range c.Ops {
		m := get(o.Model, o.Inst)
		at := [2]int{o.Model, o.Inst}
		switch o.Kind {
		case "eval", "reuse":
			in, before := goRow(c.Rows[o.Row]), goRow(c.Rows[o.Row])
			if o.Kind == "reuse" {
				// the caller fills one map again and again
				for k := range shared {
					delete(shared, k)
				}
				for k, v := range in {
					shared[k] = v
				}
				in = shared
			}
			out, err := eval(m, in)
			res.Evals++
			w := want[o.Model][o.Row]
			if diff := sameOut(w.out, w.err, out, err); diff != "" {
				fail("operation %d, %+v: alone and after the history: %s\n%s", step, o, diff, text)
			}
			if !reflect.DeepEqual(map[string]evaluation.Value(in), map[string]evaluation.Value(before)) {
				fail("operation %d, %+v: scoring changed the row {%s} to %s\n%s", step, o, showRow(c.Rows[o.Row]), showOut(in, nil), text)
			}
			// what the caller does with a result is the caller's business
			for k := range out {
				out[k] = evaluation.NewValue("overwritten")
			}
			for k := range in {
				in[k] = evaluation.NewValue("overwritten too")
			}
			evals++
			if busy[at] > 0 {
				later++
			}
		case "verify":
			guard("verifying", func() { err = m.Verify() })
		case "compile":
			guard("compiling", func() { err = m.Compile() })
			if err != nil {
				fail("operation %d, %+v: compiling again fails: %v\n%s", step, o, err, text)
			}
		case "validate":
			guard("validating", func() { err = m.Validate() })
			if err != nil {
				fail("operation %d, %+v: validating again fails: %v\n%s", step, o, err, text)
			}
		case "build":
			nm, err := build(p, o.Model)
			if err != nil {
				fail("operation %d, %+v: building again fails: %v\n%s", step, o, err, text)
			}
			inst[o.Model][o.Inst] = nm
		}
		cl[o.Kind] = true
		busy[at]++
	}
	fresh, _ := decode(text)
	if !reflect.DeepEqual(fresh.DataDictionary, p.DataDictionary) || !reflect.DeepEqual(fresh.TransformationDictionary, p.TransformationDictionary) {
		fail("the operations changed the document's dictionaries\n%s", text)
	}
	res.Nontrivial = evals >= 4 && later >= 2
	res.Classes = classes(cl)
	return res
}

type ConcCase struct {
	Doc   *Doc  `json:"doc"`
	Rows  []Row `json:"rows"`
	Order []int `json:"order"`
	Procs int   `json:"procs"`
	First bool  `json:"first,omitempty"` // concurrently before alone
}

func (c *ConcCase) Document() string { return render(c.Doc.xml()) }

func checkConcurrent(c *ConcCase) Res {
	var res Res
	text := render(c.Doc.xml())
	var want [][]result
	if !c.First {
		want = alone(text, len(c.Doc.Models), c.Rows)
	}
	_, ms := load(c.Doc)
	const workers = 6
	var got [workers][]result
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	msgs := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if l, ok := r.(libPanic); ok {
						msgs[w] = l.msg
						return
					}
					panic(r)
				}
			}()
			<-start
			for i := range c.Order {
				k := c.Order[(i+w*5)%len(c.Order)]
				mi, ri := k%len(ms), k/len(ms)%len(c.Rows)
				out, err := eval(ms[mi], goRow(c.Rows[ri]))
				got[w] = append(got[w], result{out, err})
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, m := range msgs {
		if m != "" {
			fail("%s\n%s", m, text)
		}
	}
	cl := map[string]bool{}
	if c.First {
		want = alone(text, len(c.Doc.Models), c.Rows)
		cl["concurrently first"] = true
	}
	for w := range got {
		for i, r := range got[w] {
			k := c.Order[(i+w*5)%len(c.Order)]
			mi, ri := k%len(ms), k/len(ms)%len(c.Rows)
			x := want[mi][ri]
			if diff := sameOut(x.out, x.err, r.out, r.err); diff != "" {
				fail("model %d, row {%s}: alone and concurrently: %s\n%s", mi, showRow(c.Rows[ri]), diff, text)
			}
		}
	}
	res.Evals = workers * len(c.Order)
	for mi, rs := range want {
		for _, r := range rs {
			if len(r.out) > 0 {
				res.Nontrivial = true
			}
		}
		cl[c.Doc.Models[mi].Kind] = true
	}
	res.Classes = classes(cl)
	return res
}

// ---- P17

// VerifyCase is a model with records made from its own results, altered or not.
type VerifyCase struct {
	Doc    *Doc   `json:"doc"`
	Rows   []Row  `json:"rows"`
	Alter  string `json:"alter"` // "", tiny, off, sign, zero, label, unproduced, nan
	Record int    `json:"record"`
	Output int    `json:"output"`
	Factor string `json:"factor"`
	Names  []int  `json:"names"` // column name of each input field, by number
	Order  []int  `json:"order"`
	Prec   string `json:"precision,omitempty"`
}

func (c *VerifyCase) Document() string {
	if c.Doc.Models[0].Verif == nil {
		c.records()
	}
	return render(c.Doc.xml())
}

func num17(f float64) string { return strconv.FormatFloat(f, 'g', 17, 64) }

// records writes the verification records; it says how many there are, whether
// they must be accepted, and "" or why the alteration does not apply.
func (c *VerifyCase) records() (n int, accept bool, na string) {
	m := c.Doc.Models[0]
	m.Verif = nil
	_, ms := load(c.Doc)
	base := c.Doc.baseFields()
	v := &Verif{}
	for i, f := range base {
		v.Fields = append(v.Fields, VField{Field: f.Name, Column: fmt.Sprintf("c%d", c.Names[i%len(c.Names)]+100*(i/len(c.Names)))})
	}
	var outs []string
	type rec struct {
		in  Row
		out evaluation.DataRow
	}
	var recs []rec
	var void []Row // rows without a prediction
	for _, r := range c.Rows {
		in := evaluation.DataRow{}
		for k, cell := range r {
			if cell.Rep != "nil" {
				in[k] = evaluation.NewValue(cell.Text)
			}
		}
		out, err := eval(ms[0], in)
		if err != nil || len(out) == 0 {
			void = append(void, r)
			continue
		}
		var names []string
		for k := range out {
			names = append(names, k)
		}
		sortStrings(names)
		if outs == nil {
			outs = names
		}
		if !reflect.DeepEqual(names, outs) {
			continue
		}
		recs = append(recs, rec{r, out})
	}
	if len(recs) == 0 {
		return 0, false, "no record"
	}
	for i, o := range outs {
		col := fmt.Sprintf("o%d", i)
		if c.Names[i%len(c.Names)]%3 == 0 && isColumn(o) {
			col = o
		}
		v.Fields = append(v.Fields, VField{Field: o, Column: col, Out: true, Precision: c.Prec})
	}
	at := c.Record % len(recs)
	ao := c.Output % len(outs)
	accept = true
	if c.Alter == "no prediction" {
		if len(void) == 0 {
			return 0, false, "all rows have a prediction"
		}
		recs = append(recs, rec{void[c.Record%len(void)], recs[at].out})
		accept = false
	}
	for ri, r := range recs {
		var cells []string
		for i := range v.Fields {
			f := &v.Fields[i]
			if !f.Out {
				cell, ok := r.in[f.Field]
				f.Absent = append(f.Absent, !ok || cell.Rep == "nil")
				cells = append(cells, cell.Text)
				continue
			}
			val := r.out[f.Field]
			text := val.String()
			fl, isNum := val.Raw().(float64)
			if isNum {
				text = num17(fl)
			}
			if ri == at && f.Field == outs[ao] {
				switch c.Alter {
				case "tiny":
					if !isNum {
						return 0, false, "a label"
					}
					text = num17(fl * (1 + 1e-8))
				case "off":
					k, _ := strconv.ParseFloat(c.Factor, 64)
					if !isNum || math.Abs(fl) < 1e-6 || math.IsNaN(fl) || math.IsInf(fl, 0) {
						return 0, false, "not a number to scale"
					}
					text, accept = num17(fl*k), false
				case "sign":
					if !isNum || math.Abs(fl) < 1e-6 || math.IsNaN(fl) {
						return 0, false, "no sign"
					}
					text, accept = num17(-fl), false
				case "zero":
					if !isNum || math.IsNaN(fl) || fl != 0 && math.Abs(fl) < 1e-6 {
						return 0, false, "a label"
					}
					if fl == 0 {
						text = c.Factor
					} else {
						text = "0"
					}
					accept = false
				case "label":
					if isNum {
						return 0, false, "a number"
					}
					text, accept = text+"x", false
					if len(c.Doc.Fields) > 0 {
						for _, df := range c.Doc.Fields {
							if df.Name == f.Field && len(df.Values) > 1 {
								for _, o := range df.Values {
									a, e1 := strconv.ParseFloat(o, 64)
									b, e2 := strconv.ParseFloat(val.String(), 64)
									if o != val.String() && (e1 != nil || e2 != nil || math.Abs(a-b) > 1e-3*math.Abs(a)) {
										text = o
									}
								}
							}
						}
					}
					// texts that read as the number other texts default to
					if n, e := strconv.ParseFloat(val.String(), 64); e != nil || n != 0 {
						switch c.Names[0] {
						case 0, 1, 2:
							text = "0"
						case 3:
							text = "-0.0"
						case 4:
							text = "NaN"
						case 5:
							text = strings.ToUpper(val.String()) + "?"
						case 6, 7: // 1e0 and 1E0 are the same number
							if e == nil {
								break
							}
							if t := strings.ToUpper(val.String()); t != val.String() {
								text = t
							} else if t := strings.ToLower(val.String()); t != val.String() {
								text = t
							}
						}
					}
				case "nan":
					if !isNum || math.IsNaN(fl) {
						return 0, false, "no number"
					}
					text, accept = "NaN", false
				}
			}
			if f.Out && isNum && math.IsNaN(fl) {
				text, accept = "1", false
			}
			f.Absent = append(f.Absent, false)
			cells = append(cells, text)
		}
		v.Rows = append(v.Rows, cells)
	}
	if c.Alter == "unproduced" {
		v.Fields = append(v.Fields, VField{Field: "surplus output", Column: "surplus", Out: true})
		for i := range v.Rows {
			v.Rows[i] = append(v.Rows[i], []string{"1", "0", "x", "false", "<nil>", "NaN"}[c.Names[0]%6])
		}
		for i := 0; i < len(v.Rows); i++ {
			v.Fields[len(v.Fields)-1].Absent = append(v.Fields[len(v.Fields)-1].Absent, i != at)
		}
		accept = false
	}
	// the columns in any order
	if len(c.Order) > 0 {
		k := len(v.Fields)
		nf := make([]VField, 0, k)
		used := make([]bool, k)
		var ord []int
		for _, o := range c.Order {
			if o < k && !used[o] {
				used[o] = true
				ord = append(ord, o)
			}
		}
		for i := 0; i < k; i++ {
			if !used[i] {
				ord = append(ord, i)
			}
		}
		for _, o := range ord {
			nf = append(nf, v.Fields[o])
		}
		for ri, r := range v.Rows {
			var nr []string
			for _, o := range ord {
				nr = append(nr, r[o])
			}
			v.Rows[ri] = nr
		}
		v.Fields = nf
	}
	m.Verif = v
	return len(recs), accept, ""
}

func isColumn(s string) bool {
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

func init() {
	register("P17",
		"A random model with 1-4, at times up to 130, verification records holding its own results for random rows (17 significant digits; columns renamed and shuffled; positive, zero, negative and label outputs; missing inputs left out). Verify must succeed on the records as they are or with a number off by 1e-8, and fail when one output of one record is scaled by a factor 3e-5 or more away from 1, negated, zeroed or made non-zero, expected as NaN, given another label, or not produced at all, when a record's row has no prediction, and when the model predicts NaN. Non-trivial: the record was altered, or has a zero or negative number.",
		900, 40000,
		gen(func(g G) *VerifyCase {
			rows := g.between(1, 4)
			if g.chance(8) {
				rows = pick(g, []int{12, 25, 70, 130})
			}
			any := g.anyCase(1, g.n(3)*15, rows, 25)
			c := &VerifyCase{Doc: any.Doc, Rows: any.Rows}
			for _, r := range c.Rows {
				for k, v := range r {
					// XML cannot carry every text and the row skips empty cells
					if v.Text == "" || v.Text != trimSpace(v.Text) {
						r[k] = Cell{"string", "w"}
					}
				}
			}
			c.Alter = pick(g, []string{"", "tiny", "off", "off", "sign", "zero", "label", "label", "unproduced", "nan", "off", "", "no prediction"})
			c.Record, c.Output = g.n(rows), g.n(8)
			c.Factor = pick(g, []string{"1.01", "0.999", "1.001", "2", "0.5", "1.1", "-3", "1000", "1e6", "1.0001", "0.9999", "1.00003", "0.99997", "1.0003"})
			c.Names = g.perm(12)
			c.Order = g.perm(14)
			c.Prec = pick(g, []string{"", "", "0", "1e-7", "0.000001", "0.0", "1E-12"})
			if g.chance(6) {
				m := c.Doc.Models[0]
				if m.Kind == "tree" && m.Function == "regression" {
					walkNodes(m.Tree.Root, func(n *TNode) {
						if g.chance(60) {
							n.Score = "NaN"
						}
					})
				}
			}
			if m := c.Doc.Models[0]; m.Kind == "tree" && m.Function == "regression" && g.chance(30) {
				walkNodes(m.Tree.Root, func(n *TNode) {
					if g.chance(50) && n.Score != "NaN" {
						n.Score = "0"
					}
				})
			}
			return c
		}),
		func(c *VerifyCase) Res {
			var res Res
			n, accept, na := c.records()
			if na != "" {
				c.Doc.Models[0].Verif = nil
				res.Skipped++
				return res
			}
			text := render(c.Doc.xml())
			_, ms := load(c.Doc)
			var err error
			guard("verifying", func() { err = ms[0].Verify() })
			v := c.Doc.Models[0].Verif
			c.Doc.Models[0].Verif = nil
			res.Evals++
			if accept && err != nil {
				fail("Verify rejects records the model reproduces: %v\n%s", err, text)
			}
			if !accept && err == nil {
				fail("Verify accepts a record that is not reproduced (%s)\n%s", c.Alter, text)
			}
			cl := map[string]bool{}
			res.Nontrivial = c.Alter != ""
			for i, f := range v.Fields {
				if !f.Out {
					continue
				}
				for _, r := range v.Rows {
					if x, e := strconv.ParseFloat(r[i], 64); e == nil && x <= 0 {
						res.Nontrivial = true
						cl["zero or negative expectation"] = true
					}
				}
			}
			cl[fmt.Sprintf("%d records", n)] = true
			cl["altered: "+c.Alter] = true
			cl[fmt.Sprintf("accept=%v", accept)] = true
			cl[c.Doc.Models[0].Kind] = true
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"inputs without leading, trailing or only white space"}
}

var _ = models.DataTypeDouble
