package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

// ---- P21: arrays

// ArrCase is an array and what its text holds.
type ArrCase struct {
	Type  string   `json:"type"`
	N     *int     `json:"n,omitempty"`
	Text  string   `json:"text"`
	Items []string `json:"items"`
	Bad   string   `json:"bad,omitempty"` // why reading the items must fail
	CDATA bool     `json:"cdata,omitempty"`
	In    string   `json:"in,omitempty"` // element that holds the array
}

func (c *ArrCase) Document() string { return c.xml() }

func (c *ArrCase) xml() string {
	body := escText(c.Text)
	if c.CDATA && !strings.Contains(c.Text, "]]>") && !strings.Contains(c.Text, "\r") {
		body = "<![CDATA[" + c.Text + "]]>"
	}
	n := ""
	if c.N != nil {
		n = fmt.Sprintf(` n="%d"`, *c.N)
	}
	a := fmt.Sprintf(`<Array%s type="%s">%s</Array>`, n, c.Type, body)
	if c.In == "" {
		return a
	}
	return `<` + c.In + ` field="f" booleanOperator="isIn">` + a + `</` + c.In + `>`
}

func (c *ArrCase) array() *models.ArrayType {
	var a models.ArrayType
	var err error
	guard("decoding", func() {
		switch c.In {
		case "SimpleSetPredicate":
			var p models.SimpleSetPredicate
			err = xml.Unmarshal([]byte(c.xml()), &p)
			a = models.ArrayType(p.Array)
		default:
			err = xml.Unmarshal([]byte(c.xml()), &a)
		}
	})
	if err != nil {
		fail("a valid array does not decode: %v\n%s", err, c.xml())
	}
	return &a
}

var arrSpaces = []string{" ", "  ", "\t", "\n", "\r\n", " \n\t ", "\r"}
var arrChars = []string{"a", "b", "Z", "0", "7", "-", ".", "$", "`", "'", "\\", "#", "|", "&", ";", "<", ">", "(", ")", "*", "?", "~", "!", "{", "}", "[", "]", "=", "%", "^", "@", ",", ":", "/", "+", "é", "日", "😀", "$HOME", "$(x)", "`id`", "&&", "||", "\u00a0", "\\n", "\\t", "\\\\", "%20", "//", "/*", "<!--", "a=b", "\u0085", "\u2003", "\u2028", "\ufeff", "\u200b"}
var goodInts = []string{"0", "1", "-1", "42", "007", "9223372036854775807", "-9223372036854775808", "1000000", "-17", "65536"}
var goodReals = []string{"0", "1", "-1", "0.5", "-0.25", "1e3", "1E-3", "3.141592653589793", "1.7976931348623157E308", "5e-324", ".5", "2.", "-7.125", "123456789.125"}
var badInts = []string{"abc", "1.5", "1e3", "--1", "1-", "9223372036854775808", "one", "1,2", "$1", "0b", "-", "1;2", "é", "1_0"}
var badReals = []string{"abc", "1,5", "1.2.3", "--1", "1e", "e5", "-", "1;2", "$1", "1-1", "é", "1.5f", "."}

func (g G) arrWord(quoted bool) string {
	var b strings.Builder
	n := g.n(6)
	if !quoted && n == 0 {
		n = 1
	}
	for ; n > 0; n-- {
		switch {
		case quoted && g.chance(20):
			b.WriteString(pick(g, []string{" ", "  ", "\t", "\n", " x "}))
		case g.chance(10):
			b.WriteString(`"`)
		default:
			b.WriteString(pick(g, arrChars))
		}
	}
	s := b.String()
	// a backslash before a quote or at the end of a quoted item would be read
	// as an escape: leave that spelling out
	for strings.Contains(s, `\"`) {
		s = strings.ReplaceAll(s, `\"`, `"`)
	}
	if quoted || g.chance(50) {
		return strings.TrimRight(s, `\`)
	}
	return s
}

func (g G) arrCase() *ArrCase {
	c := &ArrCase{Type: pick(g, []string{"string", "string", "int", "real"}), CDATA: g.chance(20), Items: []string{}}
	if g.chance(40) {
		c.In = "SimpleSetPredicate"
	}
	var words []string
	for i := g.n(8); i > 0; i-- {
		var w string
		switch c.Type {
		case "int":
			w = pick(g, goodInts)
			words = append(words, w)
		case "real":
			w = pick(g, goodReals)
			words = append(words, w)
		default:
			quoted := g.chance(45)
			w = g.arrWord(quoted)
			if w == "" {
				quoted = true
			}
			esc := strings.ReplaceAll(w, `"`, `\"`)
			if quoted {
				esc = `"` + esc + `"`
			}
			words = append(words, esc)
		}
		c.Items = append(c.Items, w)
	}
	if g.chance(25) {
		switch {
		case c.Type != "string" && g.chance(25):
			c.Bad = "unbalanced quote"
			at := g.n(len(words) + 1)
			words = append(words[:at:at], append([]string{pick(g, []string{`"`, `"1`, `1"`, `""1"`, `2" 3 "4 5"`})}, words[at:]...)...)
		case c.Type == "string":
			c.Bad = "unbalanced quote"
			at := g.n(len(words) + 1)
			words = append(words[:at:at], append([]string{pick(g, []string{`"`, `"open`, `"a \" b`, `x"y`, `""" `})}, words[at:]...)...)
		case c.Type == "int":
			c.Bad = "malformed integer"
			at := g.n(len(words) + 1)
			words = append(words[:at:at], append([]string{pick(g, badInts)}, words[at:]...)...)
		default:
			c.Bad = "malformed number"
			at := g.n(len(words) + 1)
			words = append(words[:at:at], append([]string{pick(g, badReals)}, words[at:]...)...)
		}
	}
	if g.chance(30) {
		c.Text = pick(g, arrSpaces)
	}
	for i, w := range words {
		if i > 0 {
			if g.chance(50) {
				c.Text += " "
			} else {
				c.Text += pick(g, arrSpaces)
			}
		}
		c.Text += w
	}
	if g.chance(30) {
		c.Text += pick(g, arrSpaces)
	}
	if g.chance(50) {
		n := len(words)
		c.N = &n
	}
	return c
}

func init() {
	register("P21",
		"A random int, real or string array: up to 8 items, string items bare or double-quoted, made of letters, digits, shell metacharacters, XML specials, non-ASCII and escaped quotes; any white space between; a quarter with one malformed number or unbalanced quote planted. Decoded on its own or inside a set predicate, read as all three types, twice, and the items compared to the generated ones. Non-trivial: at least two items, or something planted.",
		12000, 400000,
		gen(func(g G) *ArrCase { return g.arrCase() }),
		func(c *ArrCase) Res {
			var res Res
			a := c.array()
			if string(a.Type) != c.Type || (a.N == nil) != (c.N == nil) || a.N != nil && *a.N != *c.N {
				fail("array attributes decode to n=%v type=%q\n%s", a.N, a.Type, c.xml())
			}
			for round := 0; round < 2; round++ {
				var s []string
				var i []int64
				var f []float64
				var serr, ierr, ferr error
				guard("reading an array", func() { s, serr = a.Strings(); i, ierr = a.Int64s(); f, ferr = a.Float64s() })
				errs := map[string]error{"string": serr, "int": ierr, "real": ferr}
				for t, err := range errs {
					res.Evals++
					if t != c.Type && err == nil {
						fail("reading a %s array as %s succeeds\n%s", c.Type, t, c.xml())
					}
				}
				if c.Bad != "" {
					if errs[c.Type] == nil {
						fail("array with a %s is read as %q %v %v\n%s", c.Bad, s, i, f, c.xml())
					}
					continue
				}
				if errs[c.Type] != nil {
					fail("a valid array is rejected: %v\n%s", errs[c.Type], c.xml())
				}
				switch c.Type {
				case "string":
					if len(s) != len(c.Items) {
						fail("%d items %q are read as %d items %q\n%s", len(c.Items), c.Items, len(s), s, c.xml())
					}
					for k := range s {
						if s[k] != c.Items[k] {
							fail("items %q are read as %q\n%s", c.Items, s, c.xml())
						}
					}
				case "int":
					if len(i) != len(c.Items) {
						fail("%d items %q are read as %v\n%s", len(c.Items), c.Items, i, c.xml())
					}
					for k := range i {
						w, err := strconv.ParseInt(c.Items[k], 10, 64)
						must(err)
						if i[k] != w {
							fail("items %q are read as %v\n%s", c.Items, i, c.xml())
						}
					}
				case "real":
					if len(f) != len(c.Items) {
						fail("%d items %q are read as %v\n%s", len(c.Items), c.Items, f, c.xml())
					}
					for k := range f {
						w, err := strconv.ParseFloat(c.Items[k], 64)
						must(err)
						if f[k] != w {
							fail("items %q are read as %v\n%s", c.Items, f, c.xml())
						}
					}
				}
			}
			res.Nontrivial = len(c.Items) >= 2 || c.Bad != ""
			res.Classes = []string{c.Type, "in " + c.In, "bad " + c.Bad}
			return res
		})
}

// ---- P22: dispatch by name

type dispatch struct {
	name  string
	names []string
	get   func(string) (interface{}, bool)
}

var dispatches = []dispatch{
	{"model", schema.Groups["MODEL-ELEMENT"], func(s string) (interface{}, bool) { x, ok := models.GetModelElement(s); return x, ok }},
	{"expression", schema.Groups["EXPRESSION"], func(s string) (interface{}, bool) { x, ok := models.GetExpression(s); return x, ok }},
	{"predicate", schema.Groups["PREDICATE"], func(s string) (interface{}, bool) { x, ok := models.GetPredicate(s); return x, ok }},
	{"distribution", schema.Groups["CONTINUOUS-DISTRIBUTION-TYPES"], func(s string) (interface{}, bool) {
		x, ok := models.GetContinuousDistributionType(s)
		return x, ok
	}},
	{"embedded model", schema.Groups["EmbeddedModel"], func(s string) (interface{}, bool) { x, ok := models.GetEmbeddedModel(s); return x, ok }},
	{"table", schema.Groups["TABLE"], func(s string) (interface{}, bool) { x, ok := models.GetTable(s); return x, ok }},
}

// DispCase is names asked of every group, and elements holding members of the groups.
type DispCase struct {
	Names []string `json:"names"`
	Holds []*El    `json:"holds"`
	N     int      `json:"-"`
}

func (c *DispCase) Document() string {
	s := ""
	for _, e := range c.Holds {
		s += fragment(e) + "\n"
	}
	return s
}

var dispatchHolders []string // elements with a child of some group

func init() {
	for _, n := range schemaNames {
		for _, k := range schema.Elements[n].Kids {
			if k.Group != "" {
				dispatchHolders = append(dispatchHolders, n)
				break
			}
		}
	}
	for i, n := range []int{18, 10, 5, 4, 2, 2} {
		if len(dispatches[i].names) != n {
			panic(fmt.Sprint("group ", dispatches[i].name, dispatches[i].names))
		}
	}

	register("P22",
		"Random names (members of the six groups, their spellings in other case or with a letter, prefix or suffix changed, other schema elements) asked of all six dispatch functions, and random elements that hold group members (document, segment, node, compound predicate, derived field, function, apply, table holder, distribution holder) with one to eight members in random order, mixed with elements of almost the right name. Each member must decode to the type of its own name, in order, and nothing else may. Non-trivial: a holder has at least two members.",
		6000, 200000,
		gen(func(g G) *DispCase {
			c := &DispCase{}
			for i := g.between(2, 6); i > 0; i-- {
				c.Names = append(c.Names, g.dispName())
			}
			n := 0
			for i := g.between(1, 3); i > 0; i-- {
				holder := pick(g, dispatchHolders)
				e := el(holder)
				for _, k := range schema.Elements[holder].Kids {
					if k.Group == "" {
						continue
					}
					count := 1
					if k.Many {
						count = g.between(1, 8)
					} else if g.chance(10) {
						count = 0
					}
					for ; count > 0; count-- {
						if g.chance(15) {
							if nm := g.dispName(); !inGroup(nm) && !inSchemaKids(holder, nm) {
								e.add(el(nm))
							}
						}
						e.add(g.schemaEl(pick(g, schema.Groups[k.Group]), g.n(2), &n))
					}
				}
				c.Holds = append(c.Holds, e)
			}
			return c
		}),
		func(c *DispCase) Res {
			var res Res
			cl := map[string]bool{}
			for _, n := range c.Names {
				for _, d := range dispatches {
					in := false
					for _, m := range d.names {
						in = in || m == n
					}
					var x, y interface{}
					var ok bool
					guard("dispatch", func() { x, ok = d.get(n); y, _ = d.get(n) })
					res.Evals++
					if ok != in {
						fail("%q as a %s: %v, expected %v", n, d.name, ok, in)
					}
					if !ok {
						if x != nil {
							fail("%q is not a %s but gives %T", n, d.name, x)
						}
						continue
					}
					t := reflect.TypeOf(x)
					if t.Kind() != reflect.Ptr || t.Elem().Name() != n {
						fail("%q as a %s gives %T", n, d.name, x)
					}
					if x == y && t.Elem().Size() > 0 {
						fail("%q as a %s gives the same object twice", n, d.name)
					}
				}
			}
			for _, e := range c.Holds {
				v, err := decodeEl(e)
				if err != nil {
					fail("a valid element does not decode: %v\n%s", err, fragment(e))
				}
				members := 0
				for _, k := range e.Kids {
					if inGroup(k.Name) {
						members++
						cl[e.Name+" with "+k.Name] = true
					}
				}
				if members >= 2 {
					res.Nontrivial = true
				}
				checkDecoded(e, v, e.Name, &res, map[string]bool{})
			}
			res.Classes = classes(cl)
			return res
		})
}

func inGroup(n string) bool {
	for _, d := range dispatches {
		for _, m := range d.names {
			if m == n {
				return true
			}
		}
	}
	return false
}

func inSchemaKids(holder, n string) bool {
	if n == "Extension" {
		return true
	}
	for _, k := range schema.Elements[holder].Kids {
		if k.X == n || k.Rows && n == "row" || k.Array != nil && n == "Array" {
			return true
		}
	}
	return false
}

func (g G) dispName() string {
	d := pick(g, dispatches)
	n := pick(g, d.names)
	switch g.n(8) {
	case 0, 1, 2:
		return n
	case 3:
		return strings.ToLower(n)
	case 4:
		return n + pick(g, []string{"s", "2", "_", "Model", "."})
	case 5:
		return n[:len(n)-1]
	case 6:
		return pick(g, schemaNames)
	}
	return pick(g, []string{"X", "Pmml", "my"}) + n
}
