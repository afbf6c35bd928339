package main

import (
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"strconv"
	"sync"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
	"pgregory.net/rapid"
)

// ---- P32: decoded documents have nothing in common

// IndepCase is two documents, of the first of which one model is overwritten.
type IndepCase struct {
	A    *El   `json:"a"`
	B    *El   `json:"b"`
	DocA *Doc  `json:"doca,omitempty"`
	Rows []Row `json:"rows,omitempty"`
	Only int   `json:"only"`
	Par  int   `json:"par"` // how many decode at once
	// at once before anything was decoded alone
	First bool `json:"first,omitempty"`
}

func (c *IndepCase) Document() string { return render(c.A) }

// digest writes everything a decoded value holds.
func digest(v reflect.Value, w io.Writer) {
	put := func(s string) { io.WriteString(w, s); w.Write([]byte{0}) }
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			put("nil")
			return
		}
		put("*")
		digest(v.Elem(), w)
	case reflect.Struct:
		put(v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			digest(v.Field(i), w)
		}
	case reflect.Slice, reflect.Array:
		put("[" + strconv.Itoa(v.Len()))
		for i := 0; i < v.Len(); i++ {
			digest(v.Index(i), w)
		}
	case reflect.Map:
		put("{" + strconv.Itoa(v.Len()))
		var ks []string
		vs := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			vs[s] = v.MapIndex(k)
		}
		sortStrings(ks)
		for _, k := range ks {
			put(k)
			digest(vs[k], w)
		}
	case reflect.String:
		put(v.String())
	case reflect.Bool:
		put(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		put(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		put(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	}
}

func digestOf(x interface{}) uint64 {
	h := fnv.New64a()
	digest(reflect.ValueOf(x), h)
	return h.Sum64()
}

// scribble overwrites everything that can be reached from a decoded value,
// also what lies between the length and the capacity of a slice.
func scribble(v reflect.Value, seen map[uintptr]bool) (n int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		return scribble(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		if v.Elem().Kind() == reflect.Ptr {
			return scribble(v.Elem(), seen)
		}
		if v.CanSet() {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			n = scribble(e, seen)
			v.Set(e)
		}
		return n
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += scribble(v.Field(i), seen)
		}
		return n
	case reflect.Slice:
		if v.Cap() > v.Len() {
			all := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				n += scribble(all.Index(i), seen)
			}
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += scribble(v.Index(i), seen)
		}
		return n
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			n += scribble(e, seen)
			v.SetMapIndex(k, e)
		}
		return n
	}
	if !v.CanSet() {
		return 0
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 77.5)
	default:
		return 0
	}
	return 1
}

func init() {
	p32 := register("P32",
		"Two random whole documents A and B, of which A has models and rows or is drawn from the modelled schema. A is decoded three times and B once, A also from a byte slice that is overwritten afterwards; then everything reachable from one of the decoded A's is overwritten (every text, number and flag, through every pointer, and what lies behind the length of a slice) and in another one a single model; what the others hold, the other models of that one included, what they score, and what decoding A and B again gives must be as before. Building and scoring a model must leave the other decoded documents, and the other models of its own, unchanged. Then A and B are decoded, and the models of one decoded A built, by several goroutines at once under the race detector, half of the time before anything else is done with them, with the same results; the very first decoding in the process, of every modelled element, is done by four goroutines at once. Non-trivial: at least 20 values were overwritten.",
		110, 8000,
		gen(func(g G) *IndepCase {
			c := &IndepCase{Only: g.n(3), Par: g.between(2, 4), First: g.chance(50)}
			if g.chance(60) {
				any := g.anyCase(g.between(1, 3), 15, 2, 45)
				c.DocA, c.Rows = any.Doc, any.Rows
				c.A = c.DocA.xml()
			} else {
				c.A = g.wholeDoc()
			}
			if g.chance(40) {
				c.B = c.A
			} else {
				c.B = g.wholeDoc()
			}
			return c
		}), checkIndep)
	p32.Race = true
}

func checkIndep(c *IndepCase) Res {
	var res Res
	cl := map[string]bool{}
	at, bt := render(c.A), render(c.B)
	cold.Do(coldStart)
	var par *parResult
	if c.First {
		par = atOnce(c, at, bt)
		cl["at once first"] = true
	}
	must1 := func(x string) *models.PMML {
		p, err := decode(x)
		if err != nil {
			fail("a valid document does not decode: %v\n%s", err, x)
		}
		return p
	}
	a := must1(at)
	was := digestOf(a)
	b := must1(bt)
	bwas := digestOf(b)
	still := func(what string, p *models.PMML, want uint64, x string) {
		res.Evals++
		if digestOf(p) != want {
			fail("%s: %s\n%s", what, firstDiff(reflect.ValueOf(p), reflect.ValueOf(must1(x)), "PMML"), x)
		}
	}
	still("decoding another document changes a decoded one", a, was, at)
	again := must1(at)
	still("the document decodes to something else after another", again, was, at)

	// the text may be reused
	buf := []byte(at)
	over := new(models.PMML)
	guard("decoding", func() {
		if err := xml.Unmarshal(buf, over); err != nil {
			fail("a valid document does not decode: %v\n%s", err, at)
		}
	})
	for i := range buf {
		buf[i] = '#'
	}
	still("a decoded document changes with the bytes it was read from", over, was, at)

	// one model of one document
	modelDigests := func(p *models.PMML) (ds []uint64) {
		for i := range p.Models {
			ds = append(ds, digestOf(p.Models[i]))
		}
		return append(ds, digestOf(&p.DataDictionary), digestOf(&p.TransformationDictionary))
	}
	others := func(what string, before, after []uint64, but int) {
		res.Evals++
		for i := range before {
			if i != but && before[i] != after[i] {
				name := fmt.Sprintf("model %d", i)
				if i >= len(before)-2 {
					name = []string{"the data dictionary", "the transformation dictionary"}[i-len(before)+2]
				}
				fail("%s model %d changes %s\n%s", what, but, name, at)
			}
		}
	}
	if len(a.Models) > 0 {
		one := must1(at)
		k := c.Only % len(one.Models)
		before := modelDigests(one)
		scribble(reflect.ValueOf(one.Models[k]), map[uintptr]bool{})
		others("overwriting", before, modelDigests(one), k)
		if len(one.Models) > 1 {
			cl["one of several models"] = true
		}
	}

	// all of one document
	var ms []evaluation.Model
	var outs []result
	score := func() (rs []result) {
		for _, m := range ms {
			for _, r := range c.Rows {
				o, err := eval(m, goRow(r))
				rs = append(rs, result{o, err})
			}
		}
		return
	}
	if c.DocA != nil {
		for i := range c.DocA.Models {
			before := modelDigests(again)
			m, err := build(again, i)
			if err != nil {
				fail("a valid model does not build: %v\n%s", err, at)
			}
			ms = append(ms, m)
			for _, r := range c.Rows {
				eval(m, goRow(r))
			}
			others("building", before, modelDigests(again), i)
		}
		outs = score()
		still("building and scoring changes another decoded document", a, was, at)
		cl["models scored"] = true
	}
	n := scribble(reflect.ValueOf(a), map[uintptr]bool{})
	still("overwriting one decoded document changes another", over, was, at)
	still("overwriting one decoded document changes another", b, bwas, bt)
	still("the document decodes to something else after a decoded one was overwritten", must1(at), was, at)
	still("a document decodes to something else after a decoded one was overwritten", must1(bt), bwas, bt)
	for i, r := range score() {
		if diff := sameOut(outs[i].out, outs[i].err, r.out, r.err); diff != "" {
			fail("overwriting one decoded document changes what another one scores: %s\n%s", diff, at)
		}
	}

	if c.First {
		compareAtOnce(c, par, was, bwas, outs, at)
	} else {
		compareAtOnce(c, atOnce(c, at, bt), was, bwas, outs, at)
	}
	res.Evals += c.Par + len(ms)
	res.Nontrivial = n >= 20
	if c.DocA == nil {
		cl["random schema"] = true
	}
	res.Classes = classes(cl)
	return res
}

// parResult is what decoding and building at once gave.
type parResult struct {
	digests []uint64
	outs    []result
	msgs    []string
}

// atOnce decodes both documents, and builds and scores the models of the
// first, in several goroutines at the same time.
func atOnce(c *IndepCase, at, bt string) *parResult {
	n := 0
	var p *models.PMML
	if c.DocA != nil {
		n = len(c.DocA.Models)
		var err error
		if p, err = decode(at); err != nil {
			fail("a valid document does not decode: %v\n%s", err, at)
		}
	}
	r := &parResult{digests: make([]uint64, c.Par), outs: make([]result, n*len(c.Rows)), msgs: make([]string, c.Par+n)}
	together(c.Par+n, r.msgs, func(k int) {
		if k < c.Par {
			x := at
			if k%2 == 1 {
				x = bt
			}
			d, err := decode(x)
			if err != nil {
				r.msgs[k] = fmt.Sprintf("decoding at once: %v", err)
				return
			}
			r.digests[k] = digestOf(d)
			return
		}
		i := k - c.Par
		m, err := build(p, i)
		if err != nil {
			r.msgs[k] = fmt.Sprintf("building at once: %v", err)
			return
		}
		for ri, row := range c.Rows {
			o, err := eval(m, goRow(row))
			r.outs[i*len(c.Rows)+ri] = result{o, err}
		}
	})
	return r
}

func compareAtOnce(c *IndepCase, r *parResult, was, bwas uint64, outs []result, at string) {
	for _, m := range r.msgs {
		if m != "" {
			fail("%s\n%s", m, at)
		}
	}
	for k, d := range r.digests {
		if k%2 == 0 && d != was || k%2 == 1 && d != bwas {
			fail("decoding at once gives another document\n%s", at)
		}
	}
	for i, o := range r.outs {
		if diff := sameOut(outs[i].out, outs[i].err, o.out, o.err); diff != "" {
			fail("models built at once score otherwise: %s\n%s", diff, at)
		}
	}
}

// together runs a function n times at once.
func together(n int, msgs []string, f func(k int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				switch r := recover().(type) {
				case nil:
				case libPanic:
					msgs[k] = r.msg
				case violation:
					msgs[k] = string(r)
				default:
					panic(r)
				}
			}()
			<-start
			f(k)
		}(k)
	}
	close(start)
	wg.Wait()
}

var cold sync.Once

// coldStart is the first thing a process does: every modelled element is
// decoded for the first time by several goroutines at once.
func coldStart() {
	var texts []string
	for i, name := range schemaNames {
		name := name
		e := rapid.Custom(func(t *rapid.T) *El { n := 0; return G{t}.schemaEl(name, 2, &n) }).Example(i)
		texts = append(texts, render(e))
	}
	const n = 4
	got := make([][]uint64, n)
	msgs := make([]string, n)
	together(n, msgs, func(k int) {
		for i, x := range texts {
			v := reflect.New(modelTypes[schemaNames[i]])
			guard("decoding", func() {
				if err := xml.Unmarshal([]byte(x), v.Interface()); err != nil {
					fail("a valid element does not decode: %v\n%s", err, x)
				}
			})
			got[k] = append(got[k], digestOf(v.Interface()))
		}
	})
	for k := range got {
		if msgs[k] != "" {
			fail("%s", msgs[k])
		}
		for i := range got[k] {
			if got[k][i] != got[0][i] {
				fail("decoded by several goroutines at once, an element becomes different things\n%s", texts[i])
			}
		}
	}
}
