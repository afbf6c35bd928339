package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// El is a piece of an XML document: an element, or a run of text when Name is "".
type El struct {
	Name  string      `json:"n,omitempty"`
	Attrs [][2]string `json:"a,omitempty"`
	Kids  []*El       `json:"k,omitempty"`
	Text  string      `json:"t,omitempty"`
	// NoExt marks elements whose content is free text or cells, where the
	// schema allows no extension elements.
	NoExt bool `json:"x,omitempty"`
}

func el(name string, attrs ...string) *El {
	e := &El{Name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		e.Attrs = append(e.Attrs, [2]string{attrs[i], attrs[i+1]})
	}
	return e
}

func text(s string) *El { return &El{Text: s} }

func (e *El) add(kids ...*El) *El {
	for _, k := range kids {
		if k != nil {
			e.Kids = append(e.Kids, k)
		}
	}
	return e
}

func (e *El) attr(k, v string) *El {
	e.Attrs = append(e.Attrs, [2]string{k, v})
	return e
}

// opt adds the attribute unless the value is empty.
func (e *El) opt(k, v string) *El {
	if v != "" {
		e.attr(k, v)
	}
	return e
}

func (e *El) optp(k string, v *string) *El {
	if v != nil {
		e.attr(k, *v)
	}
	return e
}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\t", "&#x9;", "\n", "&#xA;", "\r", "&#xD;").Replace(s)
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#xD;").Replace(s)
}

// render writes the element plainly.
func render(e *El) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	renderTo(&b, e)
	return b.String()
}

// fragment renders without an XML declaration.
func fragment(e *El) string {
	var b strings.Builder
	renderTo(&b, e)
	return b.String()
}

func renderTo(b *strings.Builder, e *El) {
	if e.Name == "" {
		b.WriteString(escText(e.Text))
		return
	}
	b.WriteString("<" + e.Name)
	for _, a := range e.Attrs {
		fmt.Fprintf(b, ` %s="%s"`, a[0], escAttr(a[1]))
	}
	if len(e.Kids) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range e.Kids {
		renderTo(b, k)
	}
	b.WriteString("</" + e.Name + ">")
}

// Noise says which irrelevant XML detail to vary.
type Noise struct {
	Seed         int64
	Comments     bool
	PIs          bool
	Whitespace   bool
	AttrOrder    bool
	Prefix       string // namespace prefix for every element, "" for none
	DefaultNS    bool
	Pairs        bool // <a></a> instead of <a/>
	CDATA        bool
	CharRefs     bool
	Extensions   bool
	Foreign      bool
	ForeignAttrs bool
	SingleQuotes bool
	Declared     bool
	Cells        bool // namespace prefixes on table cells
}

type noisy struct {
	n Noise
	r *rand.Rand
	b strings.Builder
}

func renderNoisy(e *El, n Noise) string {
	w := &noisy{n: n, r: rand.New(rand.NewSource(n.Seed))}
	if !n.Declared {
		w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
	}
	w.junk()
	w.el(e, true)
	w.junk()
	return w.b.String()
}

func (w *noisy) coin(p float64) bool { return w.r.Float64() < p }

var commentTexts = []string{" note ", "", " <Node score=\"x\"/> ", " & < > ", " <Extension> ", "x=\"1\""}
var spaces = []string{" ", "\n", "\t", "\n    ", "\r\n", "  "}

// junk writes white space, comments and processing instructions.
func (w *noisy) junk() {
	if w.n.Whitespace && w.coin(0.5) {
		w.b.WriteString(spaces[w.r.Intn(len(spaces))])
	}
	if w.n.Comments && w.coin(0.3) {
		w.b.WriteString("<!--" + commentTexts[w.r.Intn(len(commentTexts))] + "-->")
	}
	if w.n.PIs && w.coin(0.2) {
		w.b.WriteString("<?tool do=\"<Node/>\" this?>")
	}
	if w.n.Whitespace && w.coin(0.3) {
		w.b.WriteString(spaces[w.r.Intn(len(spaces))])
	}
}

func (w *noisy) foreign() {
	if w.n.Extensions && w.coin(0.35) {
		ext := "Extension"
		if w.n.Prefix != "" {
			ext = w.n.Prefix + ":Extension"
		}
		w.b.WriteString(strings.ReplaceAll([]string{
			`<EXT extender="tool" name="n" value="v"/>`,
			`<EXT name="secret">some text</EXT>`,
			`<EXT><Inner a="1"><Node score="bad"/></Inner></EXT>`,
			`<EXT value="&amp;&lt;"></EXT>`,
			`<EXT><True/><SimplePredicate field="zz" operator="equal" value="1"/></EXT>`,
		}[w.r.Intn(5)], "EXT", ext))
	}
	if w.n.Foreign && w.coin(0.25) {
		w.b.WriteString([]string{
			`<x:Unknown xmlns:x="urn:foreign" a="1"/>`,
			`<x:Unknown xmlns:x="urn:foreign"><x:Deep><x:Deeper/>text</x:Deep></x:Unknown>`,
			`<X-Vendor>payload</X-Vendor>`,
			`<X-Vendor><Array type="int">1 2</Array></X-Vendor>`,
		}[w.r.Intn(4)])
	}
}

func (w *noisy) el(e *El, root bool) {
	if e.Name == "" {
		w.text(e.Text)
		return
	}
	name := e.Name
	if w.n.Prefix != "" && !strings.Contains(name, ":") && (!e.NoExt || w.n.Cells || strings.ToUpper(name[:1]) == name[:1]) {
		name = w.n.Prefix + ":" + name
	}
	w.b.WriteString("<" + name)
	attrs := append([][2]string{}, e.Attrs...)
	if root {
		if w.n.Prefix != "" {
			attrs = append(attrs, [2]string{"xmlns:" + w.n.Prefix, "http://www.dmg.org/PMML-4_3"})
		}
		if w.n.DefaultNS {
			attrs = append(attrs, [2]string{"xmlns", "http://www.dmg.org/PMML-4_3"})
		}
		if w.n.ForeignAttrs {
			attrs = append(attrs, [2]string{"xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"}, [2]string{"xsi:schemaLocation", "a b"})
		}
	}
	if w.n.ForeignAttrs && w.coin(0.2) {
		attrs = append(attrs, [2]string{"x-vendor", "1"})
	}
	if w.n.AttrOrder {
		w.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	for _, a := range attrs {
		sep := " "
		if w.n.Whitespace && w.coin(0.3) {
			sep = []string{"  ", "\n", "\t "}[w.r.Intn(3)]
		}
		v := escAttr(a[1])
		if w.n.CharRefs {
			v = w.charRefs(v)
		}
		eq := "="
		if w.n.Whitespace && w.coin(0.1) {
			eq = " = "
		}
		if w.n.SingleQuotes && w.coin(0.5) && !strings.Contains(v, "'") {
			fmt.Fprintf(&w.b, `%s%s%s'%s'`, sep, a[0], eq, v)
		} else {
			fmt.Fprintf(&w.b, `%s%s%s"%s"`, sep, a[0], eq, v)
		}
	}
	if len(e.Kids) == 0 && !(w.n.Pairs && w.coin(0.7)) && !(!e.NoExt && (w.n.Extensions || w.n.Foreign) && w.coin(0.3)) {
		if w.n.Whitespace && w.coin(0.3) {
			w.b.WriteString(" ")
		}
		w.b.WriteString("/>")
		return
	}
	w.b.WriteString(">")
	if e.NoExt && hasText(e) {
		for _, k := range e.Kids {
			w.el(k, false)
		}
	} else if e.NoExt && e.Name != "InlineTable" {
		// table rows: comments and white space only
		for _, k := range e.Kids {
			w.junk()
			w.el(k, false)
		}
		if len(e.Kids) > 0 {
			w.junk()
		}
	} else {
		for _, k := range e.Kids {
			w.junk()
			w.foreignIn(e)
			w.junk()
			w.el(k, false)
		}
		w.junk()
		w.foreignIn(e)
	}
	w.b.WriteString("</" + name + ">")
}

func hasText(e *El) bool {
	for _, k := range e.Kids {
		if k.Name == "" {
			return true
		}
	}
	return false
}

func (w *noisy) foreignIn(e *El) {
	if !e.NoExt {
		w.foreign()
	}
}

func (w *noisy) charRefs(s string) string {
	var b strings.Builder
	in := false
	for _, c := range s {
		if c == '&' {
			in = true
		}
		if !in && c < 127 && c > 32 && w.coin(0.15) {
			if w.coin(0.5) {
				fmt.Fprintf(&b, "&#%d;", c)
			} else {
				fmt.Fprintf(&b, "&#x%x;", c)
			}
		} else {
			b.WriteRune(c)
		}
		if c == ';' {
			in = false
		}
	}
	return b.String()
}

func (w *noisy) text(s string) {
	if w.n.CDATA && w.coin(0.5) && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		i := 0
		if len(s) > 0 {
			i = w.r.Intn(len(s) + 1)
		}
		for i > 0 && i < len(s) && s[i]&0xC0 == 0x80 {
			i--
		}
		w.b.WriteString(escText(s[:i]) + "<![CDATA[" + s[i:] + "]]>")
		return
	}
	s = escText(s)
	if w.n.CharRefs {
		s = w.charRefs(s)
	}
	if w.n.Comments && w.coin(0.3) {
		w.b.WriteString("<!-- in text -->")
	}
	w.b.WriteString(s)
}
