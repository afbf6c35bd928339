package main

import (
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
)

// ---- P25: value conversions

// ValCase is one Go value: a scalar by type and text, or something odd.
type ValCase struct {
	Rep  string `json:"rep"`
	Text string `json:"text"`
}

type oddStringer struct{ s string }

func (o oddStringer) String() string { return o.s }

type oddStruct struct {
	A int
	B []string
}

func (c *ValCase) value() interface{} {
	switch c.Rep {
	case "stringer":
		return oddStringer{c.Text}
	case "struct":
		return oddStruct{len(c.Text), []string{c.Text}}
	case "slice":
		return []interface{}{c.Text, 1}
	case "map":
		return map[string]int{c.Text: 1}
	case "pointer":
		return &oddStruct{}
	case "complex":
		return complex(1, 2)
	case "func":
		return func() {}
	case "bytes":
		return []byte(c.Text)
	}
	return Cell{c.Rep, c.Text}.goValue()
}

func (c *ValCase) Document() string { return c.Rep + "(" + c.Text + ")" }

func (g G) valCase() *ValCase {
	c := &ValCase{}
	switch g.n(10) {
	case 0, 1, 2, 3:
		c.Rep = pick(g, intReps)
		bits, _ := strconv.Atoi(strings.TrimLeft(c.Rep, "uint"))
		if bits == 0 {
			bits = 64
		}
		c.Text = g.intText(bits, c.Rep[0] == 'u')
		if (c.Rep == "uint64" || c.Rep == "uint") && g.chance(20) {
			c.Text = pick(g, []string{"9223372036854775808", "18446744073709549568", "13835058055282163712", "18446744073709551615", "9223372036854777856", "10000000000000000000", "18446742974197923840"})
		}
	case 4, 5, 6:
		c.Rep = pick(g, []string{"float64", "float64", "float32"})
		c.Text = g.floatText(c.Rep == "float32")
	case 7, 8:
		c.Rep = "string"
		switch g.n(7) {
		case 0:
			c.Text = g.intText(64, false)
		case 1:
			c.Text = g.floatText(false)
		case 2:
			c.Text = pick(g, boolPool)
		case 3:
			c.Text = strconv.Itoa(g.n(1000)-500) + "." + pick(g, []string{"0", "00", "5", "25", "125"})
		case 4: // other spellings of a number
			z := g.intText(pick(g, []int{8, 16, 64, 30}), false)
			sign := ""
			if z[0] == '-' {
				sign, z = "-", z[1:]
			} else if g.chance(40) {
				sign = "+"
			}
			c.Text = sign + pick(g, []string{"", "0", "00", "000000000000000000000"}) + z + pick(g, []string{"", "", ".", ".50", "e0", "E1", "e+02", "e-1", "0e-1"})
		default:
			c.Text = pick(g, append(append(append([]string{}, strPool...), tokenBits...), "12abc", "1.5.2", "--3", "1 2", "5%", "$7", "1,000", "truefalse", "yes", "3e", "e5", "+", ".", "1e5x", "falsey", "truth"))
		}
		if g.chance(12) {
			c.Text = pick(g, []string{" ", "\t", "\n", "\r\n ", ""}) + c.Text + pick(g, []string{" ", "\t", "\n", "  ", ""})
		}
	default:
		c.Rep = pick(g, []string{"bool", "bool", "nil", "stringer", "struct", "slice", "map", "pointer", "complex", "func", "bytes"})
		c.Text = pick(g, boolPool)
		if c.Rep != "bool" && g.chance(60) {
			c.Text = pick(g, strPool)
		}
	}
	return c
}

func (g G) intText(bits int, unsigned bool) string {
	z := new(big.Int)
	k := g.n(bits + 1)
	z.Lsh(big.NewInt(1), uint(k))
	switch g.n(4) {
	case 0:
		z.Sub(z, big.NewInt(1))
	case 1:
		z.Add(z, big.NewInt(1))
	case 2:
		r := new(big.Int)
		for i := 0; i < k; i++ {
			r.Lsh(r, 1)
			if bit.Draw(g.t, "i") {
				r.SetBit(r, 0, 1)
			}
		}
		z = r
	}
	lo, hi := new(big.Int), new(big.Int)
	if unsigned {
		hi.Sub(hi.Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	} else {
		if g.chance(50) {
			z.Neg(z)
		}
		hi.Lsh(big.NewInt(1), uint(bits-1))
		lo.Neg(hi)
		hi.Sub(hi, big.NewInt(1))
	}
	if z.Cmp(lo) < 0 {
		z = lo
	}
	if z.Cmp(hi) > 0 {
		z = hi
	}
	return z.String()
}

func (g G) floatText(f32 bool) string {
	var f float64
	switch g.n(6) {
	case 0:
		f, _ = strconv.ParseFloat(pick(g, numPool), 64)
	case 1:
		f, _ = strconv.ParseFloat(pick(g, []string{"NaN", "Inf", "-Inf", "-0", "1e308", "-1e308", "5e-324", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e19", "-1e19", "0.1", "1e21", "1e20", "1e-7", "123456789012345680", "1e22", "3e38", "16777217", "2147483648"}), 64)
	case 2:
		var b uint64
		for i := 0; i < 64; i++ {
			b <<= 1
			if bit.Draw(g.t, "f") {
				b |= 1
			}
		}
		f = math.Float64frombits(b)
	case 3:
		z, _ := new(big.Float).SetString(g.intText(64, false))
		f, _ = z.Float64()
	default:
		f = math.Ldexp(float64(g.n(1<<12)-1<<11), g.n(40)-20)
	}
	if f32 {
		return strconv.FormatFloat(float64(float32(f)), 'g', -1, 32)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// number is what the value holds as an exact number, nil if it holds none.
func (c *ValCase) number() *big.Rat {
	switch v := c.value().(type) {
	case float64:
		return new(big.Rat).SetFloat64(v)
	case float32:
		return new(big.Rat).SetFloat64(float64(v))
	case string:
		v = strings.TrimSpace(v)
		if strings.ContainsAny(v, "/_xXpPbBoO") {
			return nil
		}
		if r, ok := new(big.Rat).SetString(v); ok {
			return r
		}
		return nil
	}
	for _, r := range intReps {
		if r == c.Rep {
			r, _ := new(big.Rat).SetString(c.Text)
			return r
		}
	}
	return nil
}

func init() {
	register("P25",
		"A random Go value: every integer type with boundary (2^k, 2^k+-1) and random contents, float32 and float64 with boundary, special and random bit patterns, numeric, boolean and arbitrary text with and without white space around it, bool, nil, a Stringer, and values no row should hold (struct, slice, map, pointer, complex, func). All conversions are called; against an exact rational of the contents each must be exact when representable, text of a number must read back as the same number, whole numbers are spelled as integers, others with no more digits than that takes, what holds no number gives 0 and what holds no truth value false, and nothing may panic. Non-trivial: the value holds a number or truth value.",
		20000, 600000,
		gen(func(g G) *ValCase { return g.valCase() }),
		func(c *ValCase) Res {
			var res Res
			raw := c.value()
			v := evaluation.NewValue(raw)
			var f64 float64
			var f32 float32
			var i64 int64
			var b bool
			var s string
			guard("converting", func() { f64, f32, i64, b, s = v.Float64(), v.Float32(), v.Int64(), v.Bool(), v.String() })
			what := c.Document()
			res.Evals = 6
			switch raw.(type) {
			case oddStruct, []interface{}, map[string]int, func(), []byte:
			case float64, float32:
				if !sameFloat(raw, v.Raw()) {
					fail("%s: Raw gives %v", what, v.Raw())
				}
			default:
				if v.Raw() != raw {
					fail("%s: Raw gives %T %v", what, v.Raw(), v.Raw())
				}
			}
			switch x := raw.(type) {
			case float64:
				if math.Float64bits(f64) != math.Float64bits(x) && !(math.IsNaN(x) && math.IsNaN(f64)) {
					fail("%s: Float64 gives %v", what, f64)
				}
			case float32:
				if math.Float32bits(f32) != math.Float32bits(x) && !(x != x && f32 != f32) {
					fail("%s: Float32 gives %v", what, f32)
				}
			case bool:
				res.Nontrivial = true
				if b != x {
					fail("%s: Bool gives %v", what, b)
				}
				if s != strconv.FormatBool(x) {
					fail("%s: String gives %q", what, s)
				}
			case string:
				if s != x {
					fail("%s: String gives %q", what, s)
				}
				t := strings.TrimSpace(x)
				if _, err := strconv.ParseBool(t); t == "true" || t == "false" || t == "1" || t == "0" || err != nil {
					res.Nontrivial = t == "true" || t == "false"
					if b != (t == "true" || t == "1") {
						fail("%s: Bool gives %v", what, b)
					}
				}
			case oddStringer:
				if s != x.s {
					fail("%s: String gives %q", what, s)
				}
			}
			n := c.number()
			if n == nil {
				none := false
				switch x := raw.(type) {
				case string:
					x = strings.ToLower(x)
					none = !strings.ContainsAny(x, "/_xpbo") && !strings.Contains(x, "inf") && !strings.Contains(x, "nan")
				case nil, oddStruct, []interface{}, map[string]int:
					none = true
				}
				if none {
					if f64 != 0 || f32 != 0 || i64 != 0 {
						fail("%s, which is no number: Float64 gives %v, Float32 %v, Int64 %v", what, f64, f32, i64)
					}
					if _, ok := raw.(string); !ok && b {
						fail("%s, which is no truth value: Bool gives true", what)
					}
				}
				res.Classes = []string{c.Rep + " not a finite number"}
				return res
			}
			res.Nontrivial = true
			if f, exact := n.Float64(); exact || c.Rep == "string" && !math.IsInf(f, 0) {
				if f64 != f {
					fail("%s: Float64 gives %v, expected %v", what, f64, f)
				}
			}
			if f, exact := n.Float64(); !exact && c.Rep != "string" && f64 != f {
				fail("%s: Float64 gives %v, not the nearest, %v", what, f64, f)
			}
			if f, exact := n.Float32(); (exact || c.Rep != "string" && math.Abs(f64) < 1<<53) && f32 != f {
				fail("%s: Float32 gives %v, expected %v", what, f32, f)
			}
			if n.IsInt() && n.Num().IsInt64() {
				// text that is no integer literal goes through float64
				viaFloat := c.Rep == "string" && strings.ContainsAny(c.Text, ".eE")
				if _, exact := n.Float64(); (exact || !viaFloat) && i64 != n.Num().Int64() {
					fail("%s: Int64 gives %v, expected %v", what, i64, n.Num())
				}
			}
			if c.Rep != "string" {
				back, ok := new(big.Rat).SetString(s)
				same := ok && back.Cmp(n) == 0
				if c.Rep == "float32" && ok && !n.IsInt() {
					f, err := strconv.ParseFloat(s, 32)
					same = err == nil && float32(f) == raw.(float32)
				} else if c.Rep == "float64" && ok && !n.IsInt() {
					f, err := strconv.ParseFloat(s, 64)
					same = err == nil && f == raw.(float64)
				}
				if !same {
					fail("%s: String gives %q", what, s)
				}
				if bits := map[string]int{"float32": 32, "float64": 64}[c.Rep]; bits != 0 && !n.IsInt() {
					if want := strconv.FormatFloat(v.Float64(), 'f', -1, bits); len(s) > len(want) {
						fail("%s: String gives %q, longer than %s", what, s, want)
					}
				}
				if n.IsInt() && n.Sign() != 0 && s != n.Num().String() {
					fail("%s: String gives %q, expected %s", what, s, n.Num())
				}
			}
			res.Classes = []string{c.Rep}
			return res
		})
}

func sameFloat(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || x != x && y != y)
	}
	return false
}
