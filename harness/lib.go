package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Calls into the library. A panic in it is a violation of whatever property is
// being checked, so it is turned into one here.

type libPanic struct{ msg string }

func guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			if l, ok := r.(libPanic); ok {
				panic(l)
			}
			panic(libPanic{fmt.Sprintf("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))})
		}
	}()
	f()
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func decode(doc string) (p *models.PMML, err error) {
	p = new(models.PMML)
	guard("decoding", func() { err = xml.Unmarshal([]byte(doc), p) })
	return
}

func build(p *models.PMML, i int) (m evaluation.Model, err error) {
	guard("building", func() { m, err = evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[i]) })
	return
}

func goRow(row Row) evaluation.DataRow {
	in := evaluation.DataRow{}
	for k, c := range row {
		in[k] = evaluation.NewValue(c.goValue())
	}
	return in
}

func eval(m evaluation.Model, in evaluation.DataRow) (out evaluation.DataRow, err error) {
	guard("scoring", func() { out, err = m.Evaluate(in) })
	return
}

// violation is a property found broken.
type violation string

func fail(format string, args ...interface{}) {
	panic(violation(fmt.Sprintf(format, args...)))
}

// load decodes and builds what must decode and build.
func load(d *Doc) (*models.PMML, []evaluation.Model) {
	x := render(d.xml())
	p, err := decode(x)
	if err != nil {
		fail("a valid document does not decode: %v\n%s", err, x)
	}
	if len(p.Models) != len(d.Models) {
		fail("document with %d models decodes to %d", len(d.Models), len(p.Models))
	}
	var ms []evaluation.Model
	for i := range p.Models {
		m, err := build(p, i)
		if err != nil {
			fail("a valid model does not build: %v\n%s", err, x)
		}
		ms = append(ms, m)
	}
	return p, ms
}

func showRow(r Row) string {
	var ks []string
	for k, c := range r {
		ks = append(ks, fmt.Sprintf("%s=%s(%s)", k, c.Rep, c.Text))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func showOut(out evaluation.DataRow, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if out == nil {
		return "no prediction"
	}
	var ks []string
	for k, v := range out {
		ks = append(ks, fmt.Sprintf("%s=%v", k, v.Raw()))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ", ") + "}"
}

func (o Out) String() string {
	switch {
	case o.Err != "":
		return "an error (" + o.Err + ")"
	case o.Amb != "":
		return "anything (" + o.Amb + ")"
	case o.None:
		return "no prediction"
	}
	var ks []string
	for k, v := range o.Vals {
		if v.Labels != nil {
			ks = append(ks, k+"="+strings.Join(v.Labels, "|"))
		} else {
			ks = append(ks, fmt.Sprintf("%s=%v", k, v.N))
		}
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ", ") + "}"
}

// agree compares what the library returned to what the reference expects and
// says what differs, "" if nothing does.
func agree(want Out, got evaluation.DataRow, err error) string {
	if want.Amb != "" {
		return ""
	}
	if want.Err != "" {
		if err == nil {
			return fmt.Sprintf("expected an error (%s), got %s", want.Err, showOut(got, err))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("expected %s, got error: %v", want, err)
	}
	if want.None {
		if len(got) != 0 {
			return fmt.Sprintf("expected no prediction, got %s", showOut(got, err))
		}
		return ""
	}
	for k, w := range want.Vals {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("expected %s, got %s: no %q", want, showOut(got, err), k)
		}
		if w.Labels != nil {
			found := false
			for _, l := range w.Labels {
				if g.String() == l {
					found = true
				}
			}
			if !found {
				return fmt.Sprintf("expected %s, got %s: %q is wrong", want, showOut(got, err), k)
			}
			continue
		}
		f := g.Float64()
		if !(math.Abs(f-w.N) <= w.Tol) && f != w.N {
			return fmt.Sprintf("expected %s, got %s: %q is wrong", want, showOut(got, err), k)
		}
	}
	if want.Exact {
		for k := range got {
			if _, ok := want.Vals[k]; !ok {
				return fmt.Sprintf("expected %s, got %s: %q is unexpected", want, showOut(got, err), k)
			}
		}
	}
	return ""
}

// sameOut says how two results differ bit for bit.
func sameOut(a evaluation.DataRow, aerr error, b evaluation.DataRow, berr error) string {
	if (aerr != nil) != (berr != nil) {
		return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr))
	}
	if aerr != nil {
		return ""
	}
	if len(a) != len(b) || (a == nil) != (b == nil) && len(a)+len(b) > 0 {
		return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr))
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || !sameRaw(x.Raw(), y.Raw()) {
			return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr))
		}
	}
	return ""
}

func sameRaw(x, y interface{}) bool {
	if fx, ok := x.(float64); ok {
		fy, ok := y.(float64)
		return ok && math.Float64bits(fx) == math.Float64bits(fy)
	}
	return x == y
}

// closeOut is sameOut up to rounding.
func closeOut(a evaluation.DataRow, aerr error, b evaluation.DataRow, berr error) string {
	if (aerr != nil) != (berr != nil) || aerr == nil && len(a) != len(b) {
		return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr))
	}
	if aerr != nil {
		return ""
	}
	for k, x := range a {
		y, ok := b[k]
		same := ok && x.String() == y.String()
		if ok && !same {
			fx, fy := x.Float64(), y.Float64()
			if _, isS := x.Raw().(string); !isS {
				same = math.Abs(fx-fy) <= 1e-9*(1+math.Abs(fx)) || math.IsNaN(fx) && math.IsNaN(fy) || fx == fy
			}
		}
		if !same {
			return fmt.Sprintf("%s vs %s", showOut(a, aerr), showOut(b, berr))
		}
	}
	return ""
}

func sortStrings(s []string)    { sort.Strings(s) }
func trimSpace(s string) string { return strings.TrimSpace(s) }

// loadEl decodes a document and builds one of its models.
func loadEl(e *El, i int) evaluation.Model { return loadText(render(e), i) }

func loadText(x string, i int) evaluation.Model {
	p, err := decode(x)
	if err != nil {
		fail("a valid document does not decode: %v\n%s", err, x)
	}
	if i >= len(p.Models) {
		fail("model %d of a document is lost\n%s", i, x)
	}
	m, err := build(p, i)
	if err != nil {
		fail("a valid model does not build: %v\n%s", err, x)
	}
	return m
}

// firstDiff says where two decoded values differ, "" if they do not.
func firstDiff(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + " is present in one only"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s vs %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + " is present in one only"
		}
		if a.IsNil() {
			return ""
		}
		return firstDiff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := firstDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d items", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := firstDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d keys", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if d := firstDiff(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Int(), b.Int())
		}
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && !(math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return fmt.Sprintf("%s: %v vs %v", path, a.Float(), b.Float())
		}
	}
	return ""
}
