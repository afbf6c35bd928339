package main

import (
	_ "embed"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// The schema table: what the XSD says about each element the library models,
// and the name of the Go field that holds it.

//go:embed schema.json
var schemaJSON []byte

type sAttr struct {
	X    string   `json:"x"`
	F    string   `json:"f"`
	T    string   `json:"t"`
	Enum []string `json:"enum"`
	Def  *string  `json:"def"`
	Req  bool     `json:"req"`
}

type sKid struct {
	X     string  `json:"x"`
	F     string  `json:"f"`
	Many  bool    `json:"many"`
	Group string  `json:"group"`
	Array *string `json:"array"`
	Rows  bool    `json:"rows"`
}

type sElem struct {
	Attrs []sAttr `json:"attrs"`
	Kids  []sKid  `json:"kids"`
	Text  string  `json:"text"`
}

type schemaTable struct {
	Elements map[string]*sElem   `json:"elements"`
	Groups   map[string][]string `json:"groups"`
}

var schema = func() (t schemaTable) {
	if err := json.Unmarshal(schemaJSON, &t); err != nil {
		panic(err)
	}
	return
}()

var schemaNames = func() (names []string) {
	for n := range schema.Elements {
		if modelTypes[n] == nil {
			panic("no type for " + n)
		}
		names = append(names, n)
	}
	sortStrings(names)
	return
}()

// ElCase is one element decoded on its own.
type ElCase struct {
	El *El `json:"el"`
}

func (c *ElCase) Document() string { return render(c.El) }

var tokenBits = []string{"alpha", "b<c", "d&e", `f"g`, "été", "h i", "<![x]]>", "0", "true", "a=b;c", "naïve", "'q'", "$5"}

func (g G) token(n *int) string {
	*n++
	return pick(g, tokenBits) + strconv.Itoa(*n)
}

// padded surrounds a value with whitespace at times, which the types of numbers
// and booleans collapse.
func (g G) padded(a sAttr, v string) string {
	if g.chance(4) {
		return pick(g, []string{" ", "\t", "\n"}) + v + pick(g, []string{"", " ", "\r\n"})
	}
	return v
}

func (g G) attrValue(a sAttr, n *int) string {
	if len(a.Enum) > 0 {
		return pick(g, a.Enum)
	}
	switch a.T {
	case "INT-NUMBER", "nonNegativeInteger":
		*n++
		return g.padded(a, strconv.Itoa(*n*10+g.n(10)))
	case "NUMBER", "REAL-NUMBER", "PROB-NUMBER", "PERCENTAGE-NUMBER", "double", "float":
		*n++
		if g.chance(10) { // as many digits as a float64 has
			return strconv.Itoa(*n) + pick(g, []string{".123456789012", "000000000.25", "e-7", "234567.0625", ".1"})
		}
		return g.padded(a, pick(g, []string{"", "", "-"})+strconv.FormatFloat(float64(*n)+float64(g.n(8))/8, 'f', -1, 64)+pick(g, []string{"", "", "e2"}))
	case "boolean":
		return g.padded(a, pick(g, []string{"true", "false", "1", "0"}))
	}
	return g.token(n)
}

func (g G) schemaEl(name string, depth int, n *int) *El {
	e := el(name)
	s := schema.Elements[name]
	if s == nil {
		return e
	}
	for _, i := range g.perm(len(s.Attrs)) {
		if a := s.Attrs[i]; g.chance(65) {
			e.attr(a.X, g.attrValue(a, n))
		}
	}
	if s.Text != "" {
		e.NoExt = true
		if g.chance(85) {
			e.add(text(g.token(n)))
		}
		return e
	}
	if depth <= 0 {
		return e
	}
	for _, i := range g.perm(len(s.Kids)) {
		k := s.Kids[i]
		if !g.chance(55) {
			continue
		}
		count := 1
		if k.Many {
			count = g.between(1, 3)
		}
		for ; count > 0; count-- {
			switch {
			case k.Rows:
				row := el("row").noExt()
				for j, c := range g.perm(len(colNames)) {
					if j > 2 {
						break
					}
					row.add(el(colNames[c]).noExt().add(text(g.token(n))))
				}
				e.add(row)
			case k.Array != nil:
				e.add(g.arrayEl(*k.Array, n))
			case k.Group != "":
				e.add(g.schemaEl(pick(g, schema.Groups[k.Group]), depth-1, n))
			default:
				e.add(g.schemaEl(k.X, depth-1, n))
			}
		}
	}
	return e
}

func (g G) arrayEl(typ string, n *int) *El {
	if typ == "" {
		typ = pick(g, []string{"int", "real", "string"})
	}
	var items []string
	for i := g.between(1, 4); i > 0; i-- {
		*n++
		switch typ {
		case "int":
			items = append(items, strconv.Itoa(*n))
		case "real":
			items = append(items, strconv.Itoa(*n)+".5")
		default:
			items = append(items, pick(g, []string{"a", "b c", "d&e", "é"})+strconv.Itoa(*n))
		}
	}
	e := el("Array", "type", typ).noExt()
	if g.chance(60) {
		e.attr("n", strconv.Itoa(len(items)))
	}
	return e.add(text(arrayText(typ, items)))
}

func decodeEl(e *El) (reflect.Value, error) {
	v := reflect.New(modelTypes[e.Name])
	var err error
	guard("decoding", func() { err = xml.Unmarshal([]byte(fragment(e)), v.Interface()) })
	return v.Elem(), err
}

var emptyCache = map[string]reflect.Value{}

// emptyEl is the decoded element without any attribute or child.
func emptyEl(name string) reflect.Value {
	if v, ok := emptyCache[name]; ok {
		return v
	}
	v, err := decodeEl(el(name))
	if err != nil {
		fail("<%s/> does not decode: %v", name, err)
	}
	emptyCache[name] = v
	return v
}

func scalarIs(v reflect.Value, text string) bool {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return false
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.String {
		return v.String() == text
	}
	text = strings.Trim(text, " \t\r\n")
	switch v.Kind() {
	case reflect.Bool:
		switch text {
		case "yes":
			text = "true"
		case "no":
			text = "false"
		}
		b, err := strconv.ParseBool(text)
		return err == nil && v.Bool() == b
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, err := strconv.ParseInt(text, 10, 64)
		return err == nil && v.Int() == i
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, err := strconv.ParseUint(text, 10, 64)
		return err == nil && v.Uint() == i
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && (v.Float() == f || float64(float32(f)) == v.Float() && v.Kind() == reflect.Float32)
	}
	return false
}

func showVal(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return fmt.Sprintf("%+v", v.Interface())
}

// sameDecoded compares decoded values, seeing through caches of unexported
// fields is not needed as nothing has been read yet.
func sameDecoded(a, b reflect.Value) bool { return reflect.DeepEqual(a.Interface(), b.Interface()) }

// checkDecoded compares a decoded struct to the element it was decoded from.
func checkDecoded(e *El, v reflect.Value, path string, res *Res, cl map[string]bool) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			fail("%s: the element is lost", path)
		}
		v = v.Elem()
	}
	s := schema.Elements[e.Name]
	if s == nil {
		return
	}
	if v.Kind() != reflect.Struct {
		panic(harnessError{fmt.Errorf("%s decodes to %s", path, v.Type())})
	}
	cl[e.Name] = true
	empty := emptyEl(e.Name)
	for _, a := range s.Attrs {
		f := v.FieldByName(a.F)
		if !f.IsValid() {
			panic(harnessError{fmt.Errorf("%s has no field %s", v.Type(), a.F)})
		}
		res.Evals++
		set := false
		for _, at := range e.Attrs {
			if at[0] != a.X {
				continue
			}
			set = true
			if !scalarIs(f, at[1]) {
				fail("%s: attribute %s is %q but the decoded %s is %s", path, a.X, at[1], a.F, showVal(f))
			}
		}
		if !set && !sameDecoded(f, empty.FieldByName(a.F)) {
			fail("%s: attribute %s is absent but the decoded %s is %s, where an empty element has %s", path, a.X, a.F, showVal(f), showVal(empty.FieldByName(a.F)))
		}
	}
	if s.Text != "" {
		want := ""
		for _, k := range e.Kids {
			if k.Name == "" {
				want += k.Text
			}
		}
		res.Evals++
		if got := v.FieldByName(s.Text).String(); got != want {
			fail("%s: the text is %q but the decoded %s is %q", path, want, s.Text, got)
		}
	}
	for _, k := range s.Kids {
		f := v.FieldByName(k.F)
		if !f.IsValid() {
			panic(harnessError{fmt.Errorf("%s has no field %s", v.Type(), k.F)})
		}
		var kids []*El
		for _, c := range e.Kids {
			switch {
			case k.Group != "":
				for _, gn := range schema.Groups[k.Group] {
					if c.Name == gn {
						kids = append(kids, c)
					}
				}
			case k.Array != nil:
				if c.Name == "Array" {
					kids = append(kids, c)
				}
			case k.Rows:
				if c.Name == "row" {
					kids = append(kids, c)
				}
			case c.Name == k.X:
				kids = append(kids, c)
			}
		}
		res.Evals++
		if k.Many {
			if f.Len() != len(kids) {
				fail("%s: %d children for %s, decoded to %d", path, len(kids), k.F, f.Len())
			}
			for i, c := range kids {
				checkKid(k, c, f.Index(i), fmt.Sprintf("%s/%s[%d]", path, c.Name, i), res, cl)
			}
			continue
		}
		if len(kids) == 0 {
			if !sameDecoded(f, empty.FieldByName(k.F)) {
				fail("%s: no child for %s, but it decodes to %s", path, k.F, showVal(f))
			}
			continue
		}
		checkKid(k, kids[0], f, path+"/"+kids[0].Name, res, cl)
	}
}

func checkKid(k sKid, c *El, f reflect.Value, path string, res *Res, cl map[string]bool) {
	switch {
	case k.Group != "":
		if f.Kind() != reflect.Interface {
			panic(harnessError{fmt.Errorf("%s is not an interface", path)})
		}
		if f.IsNil() {
			fail("%s: the element is lost", path)
		}
		t := f.Elem().Type()
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Name() != c.Name {
			fail("%s decodes to a %s", path, t.Name())
		}
		checkDecoded(c, f.Elem(), path, res, cl)
	case k.Array != nil:
		for f.Kind() == reflect.Ptr {
			if f.IsNil() {
				fail("%s: the array is lost", path)
			}
			f = f.Elem()
		}
		for _, a := range c.Attrs {
			name := map[string]string{"n": "N", "type": "Type"}[a[0]]
			if !scalarIs(f.FieldByName(name), a[1]) {
				fail("%s: %s is %q but decodes to %s", path, a[0], a[1], showVal(f.FieldByName(name)))
			}
		}
		if got := f.FieldByName("RawValue").String(); strings.TrimSpace(got) != strings.TrimSpace(c.Kids[0].Text) {
			fail("%s: the text is %q but decodes to %q", path, c.Kids[0].Text, got)
		}
	case k.Rows:
		want := map[string]string{}
		for _, cell := range c.Kids {
			v := ""
			for _, t := range cell.Kids {
				v += t.Text
			}
			want[cell.Name[strings.Index(cell.Name, ":")+1:]] = v
		}
		if f.Len() != len(want) {
			fail("%s: %d cells, decoded to %d", path, len(want), f.Len())
		}
		for n, w := range want {
			x := f.MapIndex(reflect.ValueOf(n))
			if !x.IsValid() || fmt.Sprint(x.Interface()) != w {
				fail("%s: cell %q is %q but decodes to %v", path, n, w, f.Interface())
			}
		}
	default:
		checkDecoded(c, f, path, res, cl)
	}
}

func countEls(e *El) int {
	n := 1
	for _, k := range e.Kids {
		n += countEls(k)
	}
	return n
}

func init() {
	register("P26",
		"A random element of one of the 73 kinds the library models with fields, with a random subset of its schema attributes (distinct values, special characters, every enumeration value) and children to depth 3, decoded on its own; every attribute, child, text, cell and array is compared by reflection with the Go field of its name, absent ones with those of the empty element. Non-trivial: at least three attributes are set.",
		4000, 150000,
		gen(func(g G) *ElCase {
			n := 0
			return &ElCase{El: g.schemaEl(pick(g, schemaNames), g.n(4), &n)}
		}),
		func(c *ElCase) Res {
			var res Res
			cl := map[string]bool{}
			v, err := decodeEl(c.El)
			if err != nil {
				fail("a valid element does not decode: %v\n%s", err, fragment(c.El))
			}
			checkDecoded(c.El, v, c.El.Name, &res, cl)
			var count func(e *El) int
			count = func(e *El) int {
				n := len(e.Attrs)
				for _, k := range e.Kids {
					n += count(k)
				}
				return n
			}
			res.Nontrivial = count(c.El) >= 3
			res.Classes = classes(cl)
			return res
		}).Assume = []string{"attributes and children without a field in the library's structures are not asked for"}
}
