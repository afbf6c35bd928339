package main

import (
	"bytes"
	"encoding/xml"
	"io"
	"reflect"
	"strings"

	"github.com/flukeish/pmml/models"
)

// ---- P18: whole documents

// TextCase is a document and how many bytes a read of it returns.
type TextCase struct {
	Doc   *El `json:"doc"`
	Chunk int `json:"chunk"`
}

func (c *TextCase) Document() string { return render(c.Doc) }

type chunks struct {
	r io.Reader
	n int
}

func (c chunks) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

var legalBits = []string{"a", "Z", "0", " ", "  ", "\t", "\n", "\r", "é", "日本", "😀", "\u00a0", "\u2028", "&", "<", ">", "'", `"`, "]]>", "&amp;", "&#65;", "<!--", "-->", "<?", "\\", "%s", "$", "\u007f", "\ufffd", "=", ";"}

func (g G) legalText() string {
	var b strings.Builder
	for i := g.between(1, 8); i > 0; i-- {
		b.WriteString(pick(g, legalBits))
	}
	if g.chance(3) {
		return strings.Repeat(b.String(), 200)
	}
	return b.String()
}

// strange replaces some of the free text of a document.
func (g G) strange(e *El, pct int) {
	s := schema.Elements[e.Name]
	if s != nil {
		for i := range e.Attrs {
			for _, a := range s.Attrs {
				if a.X == e.Attrs[i][0] && len(a.Enum) == 0 && (a.T == "string" || a.T == "FIELD-NAME" || a.T == "") && g.chance(pct) {
					e.Attrs[i][1] = g.legalText()
				}
			}
		}
	}
	for _, k := range e.Kids {
		if k.Name != "" && s == nil || e.Name == "InlineTable" {
			for _, t := range k.Kids {
				for _, x := range t.Kids {
					if x.Name == "" && g.chance(pct) {
						x.Text = g.legalText()
					}
				}
			}
		}
		g.strange(k, pct)
	}
}

// deep nests an element's group members down to a depth.
func (g G) deep(e *El, name string, n int) *El {
	for ; n > 0; n-- {
		k := el(name)
		switch name {
		case "Node":
			k.attr("id", strings.Repeat("i", 1+n%7)).attr("score", "s").add(el("True"))
		case "CompoundPredicate":
			k.attr("booleanOperator", pick(g, []string{"and", "or", "xor", "surrogate"})).add(el("False"))
		case "Apply":
			k.attr("function", "+")
		}
		e.add(k)
		e = k
	}
	return e
}

func (g G) wholeDoc() *El {
	if g.chance(35) {
		n := 0
		return g.schemaEl("PMML", g.between(3, 7), &n)
	}
	var e *El
	if g.chance(20) {
		e = genMapCase(g).Doc.xml()
	} else {
		c := g.anyCase(g.between(1, 3), 15, 1, 50)
		for _, m := range c.Doc.Models {
			if g.chance(40) {
				v := &Verif{}
				for i := g.between(1, 4); i > 0; i-- {
					v.Fields = append(v.Fields, VField{Field: pick(g, fieldNames), Column: colNames[(i*3)%len(colNames)], Out: g.chance(50), Precision: pick(g, []string{"", "0", "0.5"})})
				}
				for i := g.n(4); i > 0; i-- {
					var r []string
					for range v.Fields {
						r = append(r, pick(g, numPool))
					}
					v.Rows = append(v.Rows, r)
				}
				m.Verif = v
			}
		}
		e = c.Doc.xml()
	}
	if g.chance(15) {
		tree := el("TreeModel", "functionName", "classification")
		root := el("Node")
		root.add(el("True"))
		g.deep(root, "Node", g.between(20, 120))
		g.deep(root, "CompoundPredicate", 0)
		tree.add(root)
		e.add(tree)
	}
	if g.chance(10) {
		p := el("Node")
		g.deep(p, "CompoundPredicate", g.between(10, 80))
		e.add(el("TreeModel", "functionName", "regression").add(p))
	}
	if g.chance(10) {
		td := el("DerivedField", "name", "deep", "optype", "continuous", "dataType", "double")
		g.deep(td, "Apply", g.between(10, 80)).add(el("FieldRef", "field", "x"))
		e.add(el("RegressionModel", "functionName", "regression").add(el("LocalTransformations").add(td)))
	}
	if g.chance(40) {
		g.strange(e, pick(g, []int{5, 30, 80}))
	}
	return e
}

func init() {
	register("P18",
		"A random whole document: one to three complete models with dictionaries, transformations, outputs, targets, verification tables and ensembles, or a random document over the modelled schema, at times with nodes, predicates or expressions nested up to 120 deep and with attribute values and cells replaced by arbitrary legal text (entities, quotes, control white space, non-ASCII). Decoded at once and through a reader that returns a few bytes at a time; the two must be equal, and every attribute, child and cell is compared by reflection with the document. Non-trivial: the document has at least 20 elements.",
		1500, 60000,
		gen(func(g G) *TextCase { return &TextCase{Doc: g.wholeDoc(), Chunk: pick(g, []int{1, 2, 3, 7, 64})} }),
		func(c *TextCase) Res {
			var res Res
			x := render(c.Doc)
			p, err := decode(x)
			if err != nil {
				fail("a valid document does not decode: %v\n%s", err, x)
			}
			cl := map[string]bool{}
			checkDecoded(c.Doc, reflect.ValueOf(p), "PMML", &res, cl)
			q := new(models.PMML)
			guard("decoding", func() {
				err = xml.NewDecoder(chunks{bytes.NewReader([]byte(x)), c.Chunk}).Decode(q)
			})
			if err != nil {
				fail("a valid document does not decode when read %d bytes at a time: %v\n%s", c.Chunk, err, x)
			}
			if !reflect.DeepEqual(p, q) {
				fail("decoding %d bytes at a time differs: %s\n%s", c.Chunk, firstDiff(reflect.ValueOf(p), reflect.ValueOf(q), "PMML"), x)
			}
			n := countEls(c.Doc)
			res.Nontrivial = n >= 20
			res.Classes = classes(cl)
			return res
		})

	// ---- P19
	register("P19",
		"A random whole document (with models and 2 rows, or over the modelled schema) and random irrelevant detail: comments, processing instructions, white space, attribute order, namespace prefix or default namespace, quote style, paired tags, CDATA sections, character references, Extension and foreign elements wherever the schema allows extensions, foreign attributes. The document with and without it must decode to equal structures apart from the recorded extensions, which must be the ones inserted in number, and score and verify alike. Non-trivial: at least two kinds of detail were applied.",
		1500, 60000,
		gen(func(g G) *NoiseCase {
			c := &NoiseCase{}
			if g.chance(40) {
				c.El = g.wholeDoc()
			} else {
				any := g.anyCase(g.between(1, 2), 15, 2, 40)
				c.Doc, c.Rows = any.Doc, any.Rows
				if g.chance(25) {
					mc := genMapCase(g)
					c.Doc, c.Rows = mc.Doc, mc.Rows
				}
				c.El = c.Doc.xml()
			}
			n := &c.Noise
			n.Seed = int64(g.n(1 << 20))
			on := func(b *bool, pct int) { *b = g.chance(pct) }
			on(&n.Comments, 40)
			on(&n.PIs, 30)
			on(&n.Whitespace, 50)
			on(&n.AttrOrder, 40)
			if g.chance(35) {
				n.Prefix = pick(g, []string{"p", "pmml", "ns0", "x-y"})
			} else {
				on(&n.DefaultNS, 50)
			}
			on(&n.Pairs, 40)
			on(&n.CDATA, 40)
			on(&n.CharRefs, 40)
			on(&n.Extensions, 40)
			on(&n.Foreign, 40)
			on(&n.ForeignAttrs, 30)
			on(&n.SingleQuotes, 30)
			on(&n.Declared, 30)
			n.Cells = n.Prefix != "" && g.chance(50)
			return c
		}),
		func(c *NoiseCase) Res {
			var res Res
			x, y := render(c.El), renderNoisy(c.El, c.Noise)
			p, err := decode(x)
			if err != nil {
				fail("a valid document does not decode: %v\n%s", err, x)
			}
			q, err := decode(y)
			if err != nil {
				fail("the document does not decode with other detail: %v\n%s\n%s", err, x, y)
			}
			pe := stripExtensions(reflect.ValueOf(p))
			qe := stripExtensions(reflect.ValueOf(q))
			res.Evals++
			if d := firstDiff(reflect.ValueOf(p), reflect.ValueOf(q), "PMML"); d != "" {
				fail("decodes differently with other detail: %s\n%s\n%s", d, x, y)
			}
			if !c.Noise.Extensions && qe != pe {
				fail("%d extensions become %d\n%s\n%s", pe, qe, x, y)
			}
			for i := range c.Rows {
				for m := range p.Models {
					a, aerr := build(p, m)
					b, berr := build(q, m)
					res.Evals++
					if (aerr != nil) != (berr != nil) {
						fail("building: %v vs %v\n%s\n%s", aerr, berr, x, y)
					}
					if aerr != nil {
						continue
					}
					ao, aerr := eval(a, goRow(c.Rows[i]))
					bo, berr := eval(b, goRow(c.Rows[i]))
					if d := sameOut(ao, aerr, bo, berr); d != "" {
						fail("model %d, row {%s}: %s\n%s\n%s", m, showRow(c.Rows[i]), d, x, y)
					}
				}
			}
			v := reflect.ValueOf(c.Noise)
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.Kind() == reflect.Bool && f.Bool() || f.Kind() == reflect.String && f.Len() > 0 {
					res.Classes = append(res.Classes, v.Type().Field(i).Name)
				}
			}
			res.Nontrivial = len(res.Classes) >= 2
			return res
		})
}

// NoiseCase is a document and the irrelevant detail to vary.
type NoiseCase struct {
	El    *El   `json:"el"`
	Doc   *Doc  `json:"doc,omitempty"`
	Rows  []Row `json:"rows,omitempty"`
	Noise Noise `json:"noise"`
}

func (c *NoiseCase) Document() string { return renderNoisy(c.El, c.Noise) }

var extensionType = reflect.TypeOf([]models.Extension{})

// stripExtensions removes the recorded extensions and counts them.
func stripExtensions(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += stripExtensions(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == extensionType && f.CanSet() {
				n += f.Len()
				f.Set(reflect.Zero(f.Type()))
			} else {
				n += stripExtensions(f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += stripExtensions(v.Index(i))
		}
	}
	return
}
