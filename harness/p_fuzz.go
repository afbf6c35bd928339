package main

import (
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// ---- P20: arbitrary bytes, documents and rows

// FuzzCase is an input and rows of arbitrary values. Cut says that the input is
// a proper beginning of a document and so must not decode.
type FuzzCase struct {
	Bytes Blob             `json:"bytes"`
	Rows  []map[string]Odd `json:"rows,omitempty"`
	Cut   bool             `json:"cut,omitempty"`
	Kinds []string         `json:"kinds,omitempty"`
}

// Odd is a cell (rep and text) or a value outside the usual ones.
type Odd struct {
	Rep  string `json:"r"`
	Text string `json:"t,omitempty"`
}

// Blob is stored as text where it is text.
type Blob []byte

func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal("text:" + string(b))
	}
	return json.Marshal("base64:" + base64.StdEncoding.EncodeToString(b))
}

func (b *Blob) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if t, ok := strings.CutPrefix(s, "text:"); ok {
		*b = Blob(t)
		return nil
	}
	d, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(s, "base64:"))
	*b = d
	return err
}

func (c *FuzzCase) Document() string { return string(c.Bytes) }

var oddReps = []string{"nil", "zero", "nan", "inf", "-inf", "negzero", "struct", "slice", "map", "pointer", "nilpointer", "nilmap", "nilslice", "complex", "func", "nilfunc", "bytes", "stringer", "chan", "value", "error", "nilerror", "maxint", "minint", "maxuint", "tiny", "huge"}

func (o Odd) value() evaluation.Value {
	switch o.Rep {
	case "nil":
		return evaluation.NewValue(nil)
	case "zero":
		return evaluation.Value{}
	case "nan":
		return evaluation.NewValue(math.NaN())
	case "inf":
		return evaluation.NewValue(math.Inf(1))
	case "-inf":
		return evaluation.NewValue(math.Inf(-1))
	case "negzero":
		return evaluation.NewValue(math.Copysign(0, -1))
	case "nilpointer":
		return evaluation.NewValue((*oddStruct)(nil))
	case "nilmap":
		return evaluation.NewValue(map[string]int(nil))
	case "nilslice":
		return evaluation.NewValue([]int(nil))
	case "nilfunc":
		return evaluation.NewValue((func())(nil))
	case "chan":
		return evaluation.NewValue(make(chan int))
	case "value":
		return evaluation.NewValue(evaluation.NewValue("x"))
	case "error":
		return evaluation.NewValue(os.ErrNotExist)
	case "nilerror":
		return evaluation.NewValue((*os.PathError)(nil))
	case "maxint":
		return evaluation.NewValue(int64(math.MaxInt64))
	case "minint":
		return evaluation.NewValue(int64(math.MinInt64))
	case "maxuint":
		return evaluation.NewValue(uint64(math.MaxUint64))
	case "tiny":
		return evaluation.NewValue(math.SmallestNonzeroFloat64)
	case "huge":
		return evaluation.NewValue(math.MaxFloat64)
	}
	return evaluation.NewValue((&ValCase{o.Rep, o.Text}).value())
}

// parse reads a document into elements, without white space.
func parse(b []byte) *El {
	d := xml.NewDecoder(strings.NewReader(string(b)))
	root := &El{Name: "root"}
	stack := []*El{root}
	for {
		t, err := d.RawToken()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			e := el(t.Name.Local)
			if t.Name.Space != "" {
				e.Name = t.Name.Space + ":" + e.Name
			}
			for _, a := range t.Attr {
				if a.Name.Space == "" && a.Name.Local != "xmlns" {
					e.attr(a.Name.Local, a.Value)
				}
			}
			top.add(e)
			stack = append(stack, e)
		case xml.EndElement:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case xml.CharData:
			if s := string(t); strings.TrimSpace(s) != "" && len(stack) > 1 {
				top.add(text(s))
			}
		}
	}
	for _, e := range root.Kids {
		return e
	}
	return el("PMML")
}

var fixtureDocs []*El

// fixtures are the documents of the repository's own tests, without big ones.
func fixtures() []*El {
	if fixtureDocs == nil {
		fs, _ := filepath.Glob("/repo/evaluation/testdata/*/*.xml")
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil && len(b) < 40000 {
				fixtureDocs = append(fixtureDocs, parse(b))
			}
		}
		if fixtureDocs == nil {
			fixtureDocs = []*El{el("PMML")}
		}
	}
	return fixtureDocs
}

func (e *El) clone() *El {
	c := *e
	c.Attrs = append([][2]string{}, e.Attrs...)
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (e *El) all() (es []*El) {
	if e.Name == "" {
		return nil
	}
	es = append(es, e)
	for _, k := range e.Kids {
		es = append(es, k.all()...)
	}
	return
}

var oddValues = []string{"", " ", "0", "-1", "1", "99999999999999999999", "-9223372036854775808", "4294967296", "NaN", "INF", "-INF", "inf", "1e999", "-1e999", "1e-999", "0x1p-2", "0x10", "1_000", "true", "TRUE", "yes", "not a value", "x", "y", "id", "regression", "classification", "mixed", "clustering", "sum", "average", "max", "median", "modelChain", "selectFirst", "selectAll", "majorityVote", "weightedAverage", "softmax", "simplemax", "logit", "exp", "cloglog", "loglog", "cauchit", "probit", "none", "lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes", "returnNullPrediction", "returnLastPrediction", "equal", "notEqual", "lessThan", "greaterOrEqual", "isMissing", "isNotMissing", "isIn", "isNotIn", "and", "or", "xor", "surrogate", "binarySplit", "multiSplit", "double", "float", "integer", "string", "boolean", "date", "dateTime", "continuous", "categorical", "ordinal", "predictedValue", "probability", "transformedValue", "asIs", "asMissing", "returnInvalid", "target", "active", "supplementary", "+", "-", "*", "/", "if", "ln", "pow", "min", "threshold", "isNotMissing", "log10", "floor", "round", "uppercase", "substring", "formatNumber", "2147483648", "data:x", "data:", "\u0000", "\ufffe", "a&b", "<", "日本", strings.Repeat("9", 400), strings.Repeat("x", 5000)}

// mutate changes the structure of a document a little.
func (g G) mutate(root *El) string {
	es := root.all()
	e := es[g.n(len(es))]
	if g.chance(50) { // rare elements as often as common ones
		byName := map[string][]*El{}
		names := map[string]bool{}
		for _, x := range es {
			names[x.Name] = true
			byName[x.Name] = append(byName[x.Name], x)
		}
		e = pick(g, byName[pick(g, classes(names))])
	}
	var kids []int
	for i := range e.Kids {
		kids = append(kids, i)
	}
	cut := func(s []*El, i int) []*El { return append(append([]*El{}, s[:i]...), s[i+1:]...) }
	kind := pick(g, []string{"drop", "drop", "dup", "swap", "rename", "attr drop", "attr drop", "attr value", "attr value", "attr value", "attr cross", "attr cross", "attr add", "move", "move", "wrap", "text", "empty", "nest", "children"})
	switch kind {
	case "drop":
		if len(kids) > 1 && g.chance(30) { // all of a kind
			name := e.Kids[pick(g, kids)].Name
			var rest []*El
			for _, k := range e.Kids {
				if k.Name != name {
					rest = append(rest, k)
				}
			}
			e.Kids = rest
		} else if len(kids) > 0 {
			e.Kids = cut(e.Kids, pick(g, kids))
		}
	case "dup":
		if len(kids) > 0 {
			k := e.Kids[pick(g, kids)]
			for i := pick(g, []int{1, 1, 1, 2, 5}); i > 0; i-- {
				e.Kids = append(e.Kids, k.clone())
			}
		}
	case "swap":
		if len(kids) > 1 {
			i, j := pick(g, kids), pick(g, kids)
			e.Kids[i], e.Kids[j] = e.Kids[j], e.Kids[i]
		}
	case "rename":
		if e != root {
			e.Name = pick(g, append(elementNames(), "row", "x", "Foreign", es[g.n(len(es))].Name))
		}
	case "attr drop":
		if len(e.Attrs) > 0 {
			i := g.n(len(e.Attrs))
			e.Attrs = append(append([][2]string{}, e.Attrs[:i]...), e.Attrs[i+1:]...)
		}
	case "attr value":
		if len(e.Attrs) > 0 {
			e.Attrs[g.n(len(e.Attrs))][1] = pick(g, oddValues)
		}
	case "attr cross": // a value that occurs elsewhere, so references are bent
		o := es[g.n(len(es))]
		if len(e.Attrs) > 0 && len(o.Attrs) > 0 {
			e.Attrs[g.n(len(e.Attrs))][1] = pick(g, o.Attrs)[1]
		}
	case "attr add":
		o := es[g.n(len(es))]
		if len(o.Attrs) > 0 {
			a := pick(g, o.Attrs)
			for _, b := range e.Attrs {
				if a[0] == b[0] {
					return kind
				}
			}
			e.attr(a[0], a[1])
		}
	case "move": // a copy of a part goes elsewhere
		o := es[g.n(len(es))]
		if o != root {
			k := o.clone()
			i := g.n(len(e.Kids) + 1)
			e.Kids = append(append(append([]*El{}, e.Kids[:i]...), k), e.Kids[i:]...)
		}
	case "wrap":
		if len(kids) > 0 {
			i := pick(g, kids)
			e.Kids[i] = el(pick(g, elementNames())).add(e.Kids[i])
		}
	case "text":
		t := text(pick(g, oddValues))
		if len(kids) > 0 && g.chance(50) {
			e.Kids[pick(g, kids)] = t
		} else {
			e.Kids = append(e.Kids, t)
		}
	case "empty":
		e.Kids = nil
	case "nest":
		k := e.clone()
		n := pick(g, []int{1, 3, 20})
		if len(e.all()) > 20 {
			n = 1
		}
		for ; n > 0; n-- {
			w := e.clone()
			w.Kids = []*El{k}
			k = w
		}
		e.Kids = append(e.Kids, k)
	case "children": // children of another element
		e.Kids = nil
		for _, k := range es[g.n(len(es))].clone().Kids {
			e.Kids = append(e.Kids, k)
		}
	}
	return kind
}

var elementNameList []string

func elementNames() []string {
	if elementNameList == nil {
		m := map[string]bool{}
		for k := range schema.Elements {
			m[k] = true
		}
		elementNameList = classes(m)
	}
	return elementNameList
}

// soup is a document of modelled elements in no valid arrangement.
func (g G) soup(name string, depth int) *El {
	e := el(name)
	if s := schema.Elements[name]; s != nil {
		for _, a := range s.Attrs {
			if g.chance(60) {
				if len(a.Enum) > 0 && g.chance(70) {
					e.attr(a.X, pick(g, a.Enum))
				} else {
					e.attr(a.X, pick(g, oddValues))
				}
			}
		}
		for _, k := range s.Kids {
			if depth > 0 && g.chance(40) {
				switch {
				case k.Group != "":
					e.add(g.soup(pick(g, schema.Groups[k.Group]), depth-1))
				case k.X != "" && k.X != "-":
					e.add(g.soup(k.X, depth-1))
				}
			}
		}
	}
	if g.chance(20) {
		e.add(text(pick(g, oddValues)))
	}
	if depth > 0 && g.chance(15) {
		e.add(g.soup(pick(g, elementNames()), depth-1))
	}
	return e
}

var byteBits = []string{"<", ">", "/", "\"", "'", "&", "&#", "&#0;", "&#x110000;", "&lt;", "&nosuch;", "]]>", "<![CDATA[", "<!--", "--", "-->", "<?xml", "?>", "<!DOCTYPE x [<!ENTITY e 'v'>]>", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "\ufeff", " ", "\n", "=", "xmlns=", "xmlns:a='b' ", "a:", ":", "</PMML>", "<PMML>", "<row/>", "<Extension>", "</Node>"}

func (g G) mangle(b []byte) ([]byte, string) {
	i := g.n(len(b) + 1)
	j := g.n(len(b) + 1)
	if i > j {
		i, j = j, i
	}
	cat := func(parts ...[]byte) (out []byte) {
		for _, p := range parts {
			out = append(out, p...)
		}
		return
	}
	kind := pick(g, []string{"byte", "insert", "insert", "delete", "cut out", "repeat", "tail"})
	switch kind {
	case "byte":
		if i < len(b) {
			b = cat(b)
			b[i] ^= byte(1 << uint(g.n(8)))
		}
	case "insert":
		b = cat(b[:i], []byte(pick(g, byteBits)), b[i:])
	case "delete":
		if i < len(b) {
			b = cat(b[:i], b[i+1:])
		}
	case "cut out":
		b = cat(b[:i], b[j:])
	case "repeat":
		if j-i < 5000 {
			b = cat(b[:j], b[i:j], b[j:])
		}
	case "tail":
		b = cat(b[:i])
	}
	return b, kind
}

func (g G) oddRow(names []string) map[string]Odd {
	r := map[string]Odd{}
	for _, n := range names {
		switch g.n(6) {
		case 0:
		case 1:
			r[n] = Odd{Rep: pick(g, oddReps), Text: pick(g, strPool)}
		case 2:
			c := g.valCase()
			r[n] = Odd{Rep: c.Rep, Text: c.Text}
		case 3:
			r[n] = Odd{Rep: "string", Text: pick(g, oddValues)}
		default:
			dt := pick(g, []string{"double", "integer", "string", "boolean"})
			c := g.cell(dt, g.value(dt))
			r[n] = Odd{Rep: c.Rep, Text: c.Text}
		}
	}
	return r
}

// fieldNamesOf are the names a document gives to fields.
func fieldNamesOf(e *El) []string {
	m := map[string]bool{"": true}
	for _, x := range e.all() {
		for _, a := range x.Attrs {
			if len(a[1]) < 40 && (a[0] == "field" || a[0] == "name" || a[0] == "column") {
				m[a[1]] = true
			}
		}
	}
	return classes(m)
}

// rootEnd is where the root element ends, or 0 if the document is no XML.
func rootEnd(s string) int {
	d := xml.NewDecoder(strings.NewReader(s))
	for depth := 0; ; {
		t, err := d.Token()
		if err != nil {
			return 0
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return int(d.InputOffset())
			}
		}
	}
}

// abyss is a document nested very deeply.
func (g G) abyss() string {
	n := pick(g, []int{200, 1000, 3000, 9000, 12000})
	pre, post := "<PMML><DataDictionary><DataField name=\"x\" optype=\"continuous\" dataType=\"double\"/></DataDictionary>", "</PMML>"
	wrap := func(open, mid, close string) string {
		return pre + strings.Repeat(open, n) + mid + strings.Repeat(close, n) + post
	}
	switch g.n(7) {
	case 0:
		pre += `<TreeModel functionName="classification">`
		post = "</TreeModel>" + post
		return wrap(`<Node score="a"><True/>`, "", "</Node>")
	case 1:
		pre += `<TreeModel functionName="classification"><Node score="b"><True/><Node score="a">`
		post = "</Node></Node></TreeModel>" + post
		return wrap(`<CompoundPredicate booleanOperator="`+pick(g, []string{"and", "or", "xor", "surrogate"})+`"><SimplePredicate field="x" operator="isNotMissing"/>`, "<True/>", "</CompoundPredicate>")
	case 2:
		pre += `<RegressionModel functionName="regression"><LocalTransformations><DerivedField name="y" optype="continuous" dataType="double">`
		post = `</DerivedField></LocalTransformations><RegressionTable intercept="1"><NumericPredictor name="y" coefficient="1"/></RegressionTable></RegressionModel>` + post
		return wrap(`<Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply>`, `<FieldRef field="x"/>`, "</Apply>")
	case 3:
		n /= 3
		pre += `<MiningModel functionName="regression"><Segmentation multipleModelMethod="sum"><Segment><True/>`
		post = "</Segment></Segmentation></MiningModel>" + post
		return wrap(`<MiningModel functionName="regression"><Segmentation multipleModelMethod="`+pick(g, []string{"sum", "average", "modelChain", "selectFirst"})+`"><Segment><True/>`, `<RegressionModel functionName="regression"><RegressionTable intercept="1"/></RegressionModel>`, "</Segment></Segmentation></MiningModel>")
	case 4:
		return wrap("<Extension>", "", "</Extension>")
	case 5:
		return wrap("<Foreign>", "", "</Foreign>")
	}
	return wrap("<"+pick(g, elementNames())+">", "", "")
}

func (g G) fuzzCase() *FuzzCase {
	c := &FuzzCase{}
	kind := func(k string) { c.Kinds = append(c.Kinds, k) }
	if g.chance(3) {
		kind("no document")
		var b strings.Builder
		for i := g.n(12); i > 0; i-- {
			b.WriteString(pick(g, append(byteBits, elementNames()...)))
		}
		c.Bytes = []byte(b.String())
		return c
	}
	if g.chance(1) {
		kind("deep")
		c.Bytes = []byte(g.abyss())
		c.Rows = append(c.Rows, g.oddRow([]string{"x", "y"}))
		return c
	}
	var e *El
	var rows []Row
	switch g.n(8) {
	case 0:
		kind("of the whole schema")
		e = g.wholeDoc()
	case 1:
		kind("from the repository's tests")
		e = pick(g, fixtures()).clone()
	case 2:
		kind("expressions")
		mc := genMapCase(g)
		e, rows = mc.Doc.xml(), mc.Rows
	case 3:
		kind("jumble")
		e = el("PMML", "version", "4.3").add(g.soup("DataDictionary", 2), g.soup("TransformationDictionary", 3), g.soup(pick(g, []string{"TreeModel", "RegressionModel", "MiningModel"}), g.between(3, 7)))
	default:
		kind("models")
		ac := g.anyCase(g.between(1, 2), 15, 2, 50)
		if g.chance(30) {
			m := ac.Doc.Models[0]
			v := &Verif{Fields: []VField{{Field: "x", Column: "a"}, {Field: "score", Column: "b", Out: true}}}
			for i := g.n(3); i > 0; i-- {
				v.Rows = append(v.Rows, []string{pick(g, numPool), pick(g, numPool)})
			}
			m.Verif = v
		}
		e, rows = ac.Doc.xml(), ac.Rows
	}
	names := fieldNamesOf(e)
	for i := pick(g, []int{0, 1, 1, 2, 3, 6}); i > 0; i-- {
		kind(g.mutate(e))
	}
	var s string
	if g.chance(20) {
		kind("detail")
		s = renderNoisy(e, Noise{Seed: int64(g.n(1 << 20)), Comments: g.chance(50), PIs: g.chance(50), Whitespace: g.chance(50), CDATA: g.chance(50), CharRefs: g.chance(50), Extensions: g.chance(50), Foreign: g.chance(50), ForeignAttrs: g.chance(50), Pairs: g.chance(50), Declared: g.chance(50)})
	} else {
		s = render(e)
	}
	c.Bytes = []byte(s)
	if end := rootEnd(s) - 1; end > 0 && g.chance(15) {
		kind("truncated")
		if g.chance(50) { // just after or inside of a tag
			var at []int
			for i := 0; i < end; i++ {
				if s[i] == '>' || s[i] == '<' || s[i] == '"' {
					at = append(at, i, i+1)
				}
			}
			if len(at) > 0 {
				end = pick(g, at)
			}
		} else {
			end = g.n(end + 1)
		}
		c.Bytes, c.Cut = []byte(s[:end]), true
		return c
	}
	if g.chance(30) {
		for i := g.between(1, 3); i > 0; i-- {
			var k string
			c.Bytes, k = g.mangle(c.Bytes)
			kind("bytes: " + k)
		}
	}
	for _, r := range rows {
		if len(c.Rows) < 2 {
			o := map[string]Odd{}
			for k, v := range r {
				o[k] = Odd{Rep: v.Rep, Text: v.Text}
			}
			c.Rows = append(c.Rows, o)
		}
	}
	for i := g.between(1, 3); i > 0; i-- {
		c.Rows = append(c.Rows, g.oddRow(names))
	}
	return c
}

// exercise does everything a caller can do with an input, and counts it.
func exercise(c *FuzzCase) Res {
	res := Res{Classes: append([]string{}, c.Kinds...)}
	p := new(models.PMML)
	var err error
	guard("decoding", func() { err = xml.Unmarshal(c.Bytes, p) })
	res.Evals++
	if err != nil {
		res.Classes = append(res.Classes, "-> not decoded")
		res.Nontrivial = c.Cut
		return res
	}
	if c.Cut {
		fail("a truncated document decodes: %d bytes\n%s", len(c.Bytes), c.Bytes)
	}
	guard("reading again", func() {
		q := new(models.PMML)
		if e := xml.Unmarshal(c.Bytes, q); e != nil {
			fail("decodes once, and then: %v", e)
		}
	})
	for i := range p.Models {
		m, err := build(p, i)
		res.Evals++
		if err != nil {
			res.Classes = append(res.Classes, "-> not built")
			continue
		}
		res.Nontrivial = true
		res.Classes = append(res.Classes, "-> built")
		each := func(what string, f func()) {
			guard(what, f)
			res.Evals++
		}
		each("Validate", func() { _ = m.Validate() })
		each("scoring no row", func() { m.Evaluate(nil) })
		each("scoring an empty row", func() { m.Evaluate(evaluation.DataRow{}) })
		each("Verify", func() { _ = m.Verify() })
		for _, r := range c.Rows {
			in := evaluation.DataRow{}
			for k, v := range r {
				in[k] = v.value()
			}
			each("scoring", func() {
				out, err := m.Evaluate(in)
				if err == nil {
					for _, v := range out {
						_, _, _ = v.String(), v.Float64(), v.Raw()
					}
					res.Classes = append(res.Classes, "-> scored")
				}
			})
		}
		each("Compile", func() { _ = m.Compile() })
		each("scoring after compiling again", func() { m.Evaluate(evaluation.DataRow{}) })
	}
	return res
}

func init() {
	register("P20",
		"A random document (models with rows, expressions, the whole schema, the repository's own test documents, or a jumble of modelled elements with odd attributes) after up to six structural changes (elements dropped, duplicated, swapped, renamed, moved, wrapped, nested; attributes dropped, added or given odd values or values from elsewhere in the document) and up to three changes of bytes, or truncated before the root ends; with ordinary rows, no row, an empty row, and rows of odd Go values. Decoding, building every model, validating, compiling again, verifying and scoring must each return; a truncated document must not decode. A watchdog reports what does not end or takes more than 4 GB. Non-trivial: a model could be built, or the document was truncated.",
		4000, 150000,
		gen(func(g G) *FuzzCase { return g.fuzzCase() }),
		exercise)
}
