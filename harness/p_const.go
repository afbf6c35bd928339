package main

import (
	"fmt"
	"reflect"
	"strings"
)

// The exported names of enumerated values, filled in by const_table.go, which
// is only built for P28: a build of the other checks does not need the names.
type constEntry struct {
	Type, Text, Name string
	V                reflect.Value
}

var constTable []constEntry

// ConstCase is one exported name and one element with enumerated attributes.
type ConstCase struct {
	Type string `json:"type"`
	Text string `json:"text"`
	El   *El    `json:"el"`
}

func (c *ConstCase) Document() string { return render(c.El) }

// enumNames lists the elements with an enumerated attribute.
var enumNames = func() (names []string) {
	for _, n := range schemaNames {
		for _, a := range schema.Elements[n].Attrs {
			if len(a.Enum) > 0 {
				names = append(names, n)
				break
			}
		}
	}
	return
}()

// eachAttr visits every attribute of a decoded element that is set.
func eachAttr(e *El, v reflect.Value, path string, visit func(path string, a sAttr, text string, f reflect.Value)) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			fail("%s: the element is lost", path)
		}
		v = v.Elem()
	}
	s := schema.Elements[e.Name]
	if s == nil {
		return
	}
	for _, a := range s.Attrs {
		for _, at := range e.Attrs {
			if at[0] == a.X {
				visit(path, a, at[1], v.FieldByName(a.F))
			}
		}
	}
	for _, k := range s.Kids {
		if k.Rows || k.Array != nil {
			continue
		}
		n := 0
		for _, c := range e.Kids {
			is := c.Name == k.X
			for _, gn := range schema.Groups[k.Group] {
				is = is || k.Group != "" && c.Name == gn
			}
			if !is {
				continue
			}
			f := v.FieldByName(k.F)
			if k.Many {
				if n >= f.Len() {
					fail("%s: child %d for %s is lost", path, n, k.F)
				}
				f = f.Index(n)
			} else if n > 0 {
				break
			}
			n++
			eachAttr(c, f, path+"/"+c.Name, visit)
		}
	}
}

func init() {
	const trace = "A random exported name of an enumerated value (244 names of 44 types) and a random element having an enumerated attribute, with children to depth 2, decoded on its own; the name must stand for the schema's text and for no other of its type, and every enumerated attribute must decode to the name for its text. Non-trivial: the element sets an enumerated attribute whose type has exported names."
	register("P28", trace, 2500, 60000,
		gen(func(g G) *ConstCase {
			n := 0
			c := &ConstCase{El: g.schemaEl(pick(g, enumNames), g.n(3), &n)}
			if len(constTable) > 0 {
				e := pick(g, constTable)
				c.Type, c.Text = e.Type, e.Text
			}
			return c
		}),
		func(c *ConstCase) Res {
			if len(constTable) == 0 {
				panic(harnessError{fmt.Errorf("built without the table of names")})
			}
			var res Res
			cl := map[string]bool{}
			for _, e := range constTable {
				if e.Type != c.Type {
					continue
				}
				if e.V.Type().Name() != e.Type || e.V.Kind() != reflect.String {
					fail("models.%s is a %s", e.Name, e.V.Type())
				}
				res.Evals++
				if is := e.V.String() == c.Text; is != (e.Text == c.Text) {
					fail("models.%s is %q, the schema's value is %q", e.Name, e.V.String(), e.Text)
				}
			}
			cl["type:"+c.Type] = true
			v, err := decodeEl(c.El)
			if err != nil {
				fail("a valid element does not decode: %v\n%s", err, fragment(c.El))
			}
			eachAttr(c.El, v, c.El.Name, func(path string, a sAttr, text string, f reflect.Value) {
				for f.Kind() == reflect.Ptr {
					if f.IsNil() {
						fail("%s: attribute %s is %q and decodes to nil", path, a.X, text)
					}
					f = f.Elem()
				}
				if len(a.Enum) == 0 || f.Kind() != reflect.String {
					return
				}
				named := false
				for _, e := range constTable {
					if e.V.Type() != f.Type() {
						continue
					}
					res.Evals++
					named = true
					if is := f.Interface() == e.V.Interface(); is != (e.Text == text) {
						fail("%s: attribute %s is %q, the decoded %s is %s, and models.%s is %q", path, a.X, text, a.F, showVal(f), e.Name, e.V.String())
					}
				}
				if named {
					res.Nontrivial = true
					cl["attr:"+f.Type().Name()] = true
				}
			})
			res.Classes = classes(cl)
			return res
		})
}

// BadCase is an element one of whose attributes is not of its type.
type BadCase struct {
	El   *El    `json:"el"`
	What string `json:"what"`
}

func (c *BadCase) Document() string { return render(c.El) }

type spot struct {
	e    *El
	i    int
	typ  string
	path string
}

// typedSpots lists the attributes with a number or boolean, as far as the
// library models the elements they are in.
func typedSpots(e *El, path string) (out []spot) {
	s := schema.Elements[e.Name]
	if s == nil {
		return
	}
	path += "/" + e.Name
	for i, at := range e.Attrs {
		for _, a := range s.Attrs {
			if a.X != at[0] || len(a.Enum) > 0 {
				continue
			}
			switch a.T {
			case "INT-NUMBER", "nonNegativeInteger":
				out = append(out, spot{e, i, "int", path})
			case "NUMBER", "REAL-NUMBER", "PROB-NUMBER", "PERCENTAGE-NUMBER", "double", "float":
				if f, _ := modelTypes[e.Name].FieldByName(a.F); numericField(f.Type) {
					out = append(out, spot{e, i, "real", path})
				}
			case "boolean":
				out = append(out, spot{e, i, "boolean", path})
			}
		}
	}
	for _, k := range s.Kids {
		seen := false
		for _, c := range e.Kids {
			is := c.Name == k.X
			for _, gn := range schema.Groups[k.Group] {
				is = is || k.Group != "" && c.Name == gn
			}
			switch {
			case k.Rows:
			case k.Array != nil:
				if c.Name == "Array" {
					for i, at := range c.Attrs {
						if at[0] == "n" {
							out = append(out, spot{c, i, "int", path + "/Array"})
						}
					}
				}
			case is && !(seen && !k.Many):
				seen = true
				out = append(out, typedSpots(c, path)...)
			}
		}
	}
	return
}

func numericField(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind() != reflect.String
}

var badValues = map[string][]string{
	"int":     {"abc", "1x", "x1", "--1", "1 2", "1,5", "1.5", "3e2", "99999999999999999999", "one", "+", "-", "true", "1;", "٣"},
	"real":    {"abc", "1x", "x1", "--1", "1 2", "1,5", "1.2.3", "1e", "e5", ".", "one", "+", "-", "true", "1.5f", "٣.5"},
	"boolean": {"abc", "yes!", "2", "-1", "truee", "tru", "1.0", "true false", "no way", "nein", "on"},
}

func init() {
	register("P29",
		"A random element of one of the modelled kinds, with children to depth 4, one of whose numeric or boolean attributes (at any depth) is replaced by a text that is not of its type; decoding must fail. Non-trivial: the attribute is on a descendant.",
		2500, 80000,
		gen(func(g G) *BadCase {
			for try := 0; ; try++ {
				n := 0
				name := pick(g, schemaNames)
				for i := g.n(4); i > 0 && len(schema.Elements[name].Kids) < 3; i-- {
					name = pick(g, schemaNames)
				}
				e := g.schemaEl(name, g.between(1, 4), &n)
				spots := typedSpots(e, "")
				if len(spots) == 0 {
					if try > 20 {
						e = el("Node", "recordCount", "1")
						spots = typedSpots(e, "")
					} else {
						continue
					}
				}
				// prefer the deeper ones
				s := pick(g, spots)
				for i := g.n(3); i > 0; i-- {
					if o := pick(g, spots); strings.Count(o.path, "/") > strings.Count(s.path, "/") {
						s = o
					}
				}
				bad := pick(g, badValues[s.typ])
				what := fmt.Sprintf("%s@%s", s.path, s.e.Attrs[s.i][0])
				s.e.Attrs[s.i] = [2]string{s.e.Attrs[s.i][0], bad}
				return &BadCase{e, what}
			}
		}),
		func(c *BadCase) Res {
			res := Res{Nontrivial: strings.Count(c.What, "/") > 1, Evals: 1, Classes: []string{c.What[strings.LastIndex(c.What, "/")+1:]}}
			v, err := decodeEl(c.El)
			if err == nil {
				fail("%s is not of its type, and decoding succeeds: %+v\n%s", c.What, v.Interface(), fragment(c.El))
			}
			return res
		}).Assume = []string{"empty attribute values are left out", "attributes and children the library has no field for are left out"}
}
