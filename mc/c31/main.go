// C31: dynamic values parse, compare and convert consistently.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/qri-io/dataset/vals"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C31", Level: "model_checking",
		Rule:   "every text up to the stated length is classified and parsed and compared with a grammar of the value texts; every token sequence up to the stated length is decoded and compared with encoding/json; every pair (ordering: triple) of the enumerated values and texts is compared",
		Bounds: "texts of up to 4 (thorough 5) symbols of 23; token sequences of up to 4 (thorough 5) of 19 tokens; all pairs of about 100 nested values; all triples of about 40 texts per type; all native kinds nested to depth 2",
		Assume: []string{"hexadecimal and infinite spellings of numbers are outside the alphabet"},
		Body:   run})
}

var (
	reInt = regexp.MustCompile(`^-?[0-9]+$`)
	reNum = regexp.MustCompile(`^-?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	reSI  = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reSN  = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

var boolWords = map[string]bool{"t": true, "T": true, "true": true, "TRUE": true, "True": true,
	"f": false, "F": false, "false": false, "FALSE": false, "False": false}

// number gives the nearest float of a decimal text; ok is false when it has none
func number(s string) (float64, bool) {
	mant, exp := s, 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant = s[:i]
		n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
		if err != nil || n > 5000 || n < -5000 {
			n = 5000 * sign(s[i+1:])
		}
		exp = n
	}
	neg := strings.HasPrefix(mant, "-")
	mant = strings.TrimLeft(mant, "+-")
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		exp -= len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	n, ok := new(big.Int).SetString(mant, 10)
	if !ok {
		panic("not a number: " + s)
	}
	r := new(big.Rat).SetInt(n)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil))
	if exp < 0 {
		r.Quo(r, p)
	} else {
		r.Mul(r, p)
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return 0, false
	}
	if neg {
		f = math.Copysign(f, -1)
	}
	return f, true
}

func sign(s string) int {
	if strings.HasPrefix(s, "-") {
		return -1
	}
	return 1
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// classify is the reference for the type of a text
func classify(s string) vals.Type {
	if _, ok := boolWords[s]; ok {
		return vals.TypeBoolean
	}
	if s == "null" {
		return vals.TypeNull
	}
	lead := strings.TrimLeft(s, " \n")
	if lead == "" {
		return vals.TypeString
	}
	switch c := lead[0]; {
	case c == '{':
		return vals.TypeObject
	case c == '[':
		return vals.TypeArray
	case c == '-' || c >= '0' && c <= '9':
		if reNum.MatchString(s) {
			if _, ok := number(s); ok {
				if reInt.MatchString(s) {
					return vals.TypeInteger
				}
				return vals.TypeNumber
			}
		}
	}
	return vals.TypeString
}

func stdJSON(s string) (interface{}, error) {
	var v interface{}
	err := json.Unmarshal([]byte(s), &v)
	return v, err
}

func checkText(t *kit.T, s string) bool {
	t.Op(1)
	data := []byte(s)
	want := classify(s)
	got := vals.ParseType(data)
	if got != want {
		t.Failf("text %q is of type %q, ParseType says %q", s, want, got)
		return false
	}
	p, err := got.Parse(data)
	ok := true
	switch got {
	case vals.TypeString:
		ok = err == nil && p == interface{}(s)
	case vals.TypeNull:
		ok = err == nil && p == nil
	case vals.TypeBoolean:
		ok = err == nil && p == interface{}(boolWords[s])
	case vals.TypeInteger:
		n, _ := new(big.Int).SetString(s, 10)
		if n.IsInt64() {
			ok = err == nil && p == interface{}(n.Int64())
		} else {
			ok = err != nil
		}
	case vals.TypeNumber:
		f, _ := number(s)
		g, isF := p.(float64)
		ok = err == nil && isF && math.Float64bits(f) == math.Float64bits(g)
	case vals.TypeArray, vals.TypeObject:
		v, jerr := stdJSON(s)
		if jerr != nil {
			ok = err != nil
		} else {
			ok = err == nil && body.Eq(p, v)
		}
	}
	if !ok {
		t.Failf("text %q of type %q parses to %#v, error %v", s, got, p, err)
		return false
	}
	// parsed as any type, a text gives a value of that type that it denotes, or an error
	for _, ty := range []vals.Type{vals.TypeNull, vals.TypeBoolean, vals.TypeInteger, vals.TypeNumber} {
		p, err := ty.Parse(data)
		if err != nil {
			continue
		}
		ok := false
		switch ty {
		case vals.TypeNull:
			ok = s == "null" && p == nil
		case vals.TypeBoolean:
			b, is := boolWords[s]
			// Go's short spellings are left open
			ok = is && p == interface{}(b) || !is && strings.Contains(" 1 t T 0 f F ", " "+s+" ")
		case vals.TypeInteger:
			n, is := p.(int64)
			m, num := new(big.Int).SetString(s, 10)
			ok = is && (!num || m.IsInt64() && m.Int64() == n)
		case vals.TypeNumber:
			f, is := p.(float64)
			g, num := 0.0, reNum.MatchString(s)
			if num {
				g, num = number(s)
			}
			ok = is && !math.IsNaN(f) && !math.IsInf(f, 0) && (!num || f == g)
		}
		if !ok {
			t.Failf("text %q parsed as %s gives %#v", s, ty, p)
			return false
		}
	}
	if string(data) != s {
		t.Failf("parsing changed the text %q to %q", s, data)
		return false
	}
	if vals.IsInteger(data) != reSI.MatchString(s) {
		t.Failf("IsInteger(%q) is %v", s, vals.IsInteger(data))
		return false
	}
	// Go's spellings of floats that are no decimal numbers are left open here
	if w := reSN.MatchString(s) && s[0] != '.'; vals.IsFloat(data) != w && !strings.ContainsAny(s, "_xXiI") {
		t.Failf("IsFloat(%q) is %v", s, !w)
		return false
	}
	if _, w := boolWords[s]; vals.IsBoolean(data) != w {
		t.Failf("IsBoolean(%q) is %v", s, !w)
		return false
	}
	return true
}

// toGo turns a value into plain Go values through its accessors
func toGo(v vals.Value) interface{} {
	if v.IsNull() != (v.Type() == vals.TypeNull) {
		return fmt.Sprintf("value of type %v, null: %v", v.Type(), v.IsNull())
	}
	switch v.Type() {
	case vals.TypeNull:
		return nil
	case vals.TypeBoolean:
		return v.Boolean()
	case vals.TypeInteger:
		return int64(v.Integer())
	case vals.TypeNumber:
		return v.Number()
	case vals.TypeString:
		return v.String()
	case vals.TypeArray:
		a := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			a = append(a, toGo(v.Index(i)))
		}
		return a
	case vals.TypeObject:
		m := map[string]interface{}{}
		for _, k := range v.Keys() {
			m[k] = toGo(v.MapIndex(k))
		}
		return m
	}
	return fmt.Sprintf("value of type %v", v.Type())
}

// refGo decodes JSON by the standard library: integers that fit as int64, other numbers float64
func refGo(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return nil, err
	}
	v = nil
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return conv(v), nil
}

func conv(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if reInt.MatchString(string(x)) {
			if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
				return i
			}
		}
		f, _ := x.Float64()
		return f
	case []interface{}:
		for i := range x {
			x[i] = conv(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = conv(x[k])
		}
	}
	return v
}

func checkJSON(t *kit.T, s string) bool {
	t.Op(1)
	data := []byte(s)
	v, err := vals.UnmarshalJSON(data)
	w, jerr := refGo(s)
	if (err == nil) != (jerr == nil) {
		t.Failf("JSON text %q: decoding gives error %v, the standard says %v", s, err, jerr)
		return false
	}
	if string(data) != s {
		t.Failf("decoding changed the text %q to %q", s, data)
		return false
	}
	if err != nil {
		return true
	}
	g := toGo(v)
	if !body.EqTyped(g, w) {
		t.Failf("JSON text %q decodes to %s, not %s", s, body.Show(g), body.Show(w))
		return false
	}
	enc, err := json.Marshal(v)
	if err != nil {
		t.Failf("JSON text %q decoded cannot be encoded: %v", s, err)
		return false
	}
	b, jerr := refGo(string(enc))
	if jerr != nil || !body.Eq(b, w) {
		t.Failf("JSON text %q decoded encodes to %q", s, enc)
		return false
	}
	v2, err := vals.UnmarshalJSON(data)
	if err != nil || !vals.Equal(v, v2) || !vals.Equal(v2, v) {
		t.Failf("JSON text %q decoded twice gives values that are not equal: %s and %s", s, body.Show(g), body.Show(toGo(v2)))
		return false
	}
	return true
}

// seqs runs f on every sequence of exactly n symbols that extends prefix
func seqs(syms []string, prefix string, n int, f func(string) bool) bool {
	if n == 0 {
		return f(prefix)
	}
	for _, s := range syms {
		if !seqs(syms, prefix+s, n-1, f) {
			return false
		}
	}
	return true
}

func run(r *kit.Run) {
	syms := []string{"0", "1", "9", "-", "+", ".", "e", "E", `"`, "{", "}", "[", "]", ",", ":", " ", "\n", "t", "f", "n", "u", "l", "é"}
	max := r.T0(4, 5)
	r.Explore("texts", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, max)
		prefix := ""
		for i := 0; i < n && i < 2; i++ {
			prefix += kit.Pick(c, syms)
		}
		rest := n - 2
		if rest < 0 {
			rest = 0
		}
		return func(t *kit.T) {
			seqs(syms, prefix, rest, func(s string) bool { return checkText(t, s) })
			t.Trace()
		}
	})
	// every pair of bytes, and every short number over all ten digits
	digits := strings.Split("0123456789-.e", "")
	r.Explore("all digits", func(c *kit.C) func(t *kit.T) {
		a := kit.Pick(c, digits)
		n := c.Range(0, r.T0(3, 4))
		return func(t *kit.T) {
			seqs(digits, a, n, func(s string) bool { return checkText(t, s) })
			t.Trace()
		}
	})
	r.Explore("all bytes", func(c *kit.C) func(t *kit.T) {
		a := c.Choose(256)
		return func(t *kit.T) {
			checkText(t, string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				checkText(t, string([]byte{byte(a), byte(b)}))
				checkText(t, string([]byte{'1', byte(a), byte(b)}))
			}
			t.Trace()
		}
	})
	words := []string{"", "true", "false", "True", "False", "TRUE", "FALSE", "null", "nul", "tru", "Null", "NULL", "e", "--1", "1-", "1.2.3", "007", "-007", "00", "-0", "1.0", "1e5", "1E-5", "123456789",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "0.1", "1e308", "1e309", "-1e309", "1e-400", "123456789012345678901234567890.5",
		strings.Repeat("9", 400), "-" + strings.Repeat("9", 400), strings.Repeat("0", 400) + "1", "2020-01-01", "2020_01", "1_0", "0x1p4", "-0x1P-2", "-inf", "-Infinity", "-nan", "0b11", "0o7", "0x1F", "12:30", "1,000", "$5", "5%", "[1,2]", "[", "{}", `{"a":1}`, `{"a":[1,{"b":null}]}`, " [1]", "\n{}", "\t[1]", `"x"`, `"`, " 5", "5 ", "\n5", "5\n", "a{", `a[`, `x"`}
	pads := []string{"", " ", "\n", "\t", "a", "1", "-", "0", "."}
	r.Explore("words", func(c *kit.C) func(t *kit.T) {
		w := kit.Pick(c, words)
		s := kit.Pick(c, pads) + w + kit.Pick(c, pads)
		return func(t *kit.T) { checkText(t, s); t.Trace() }
	})

	toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b"`, `"\u00e9\n"`, `"\ud83d\ude00"`, "1", "-2", "1.5", "1e2", "true", "null", "9223372036854775807", "9223372036854775808", " "}
	tmax := r.T0(4, 5)
	r.Explore("tokens", func(c *kit.C) func(t *kit.T) {
		n := c.Range(1, tmax)
		prefix := ""
		for i := 0; i < n && i < 2; i++ {
			prefix += kit.Pick(c, toks)
		}
		rest := n - 2
		if rest < 0 {
			rest = 0
		}
		return func(t *kit.T) {
			seqs(toks, prefix, rest, func(s string) bool { return checkJSON(t, s) })
			t.Trace()
		}
	})
	leaves := []string{"null", "true", "false", "0", "-0", "1", "-5", "2.0", "1.5", "1e3", "1E-2", "1e400", "01", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", `""`, `"a"`, `"null"`, `"1"`, `"\u0000\"\\"`, `"\ud800"`, "[]", "{}", "t", "T", "nul", "False", "+1", ".5", "1.", "-"}
	r.Explore("documents", func(c *kit.C) func(t *kit.T) {
		var ws = kit.Pick(c, []string{"", " ", "\n\t"})
		var doc func(d int) string
		doc = func(d int) string {
			k := 0
			if d > 0 {
				k = c.Choose(4)
			}
			switch k {
			case 1:
				return "[" + ws + doc(d-1) + ws + "]"
			case 2:
				return `{"k"` + ws + ":" + doc(d-1) + ws + "}"
			case 3:
				return "[" + kit.Pick(c, leaves[:8]) + ws + "," + ws + doc(d-1) + "]"
			}
			return kit.Pick(c, leaves)
		}
		s := ws + doc(3) + ws
		return func(t *kit.T) { checkJSON(t, s); t.Trace() }
	})
	r.Explore("objects", func(c *kit.C) func(t *kit.T) {
		keys := []string{"a", "b", "", "é", "a"}
		var parts []string
		for i, n := 0, c.Choose(4); i < n; i++ {
			parts = append(parts, strconv.Quote(kit.Pick(c, keys))+":"+kit.Pick(c, leaves[:7]))
		}
		s := "{" + strings.Join(parts, ",") + "}"
		return func(t *kit.T) { checkJSON(t, s); t.Trace() }
	})

	// native values converted
	type nat struct {
		v    interface{}
		want interface{} // nil with bad=false is null
		bad  bool
	}
	type odd struct{}
	nats := []nat{{v: nil}, {v: true, want: true}, {v: false, want: false}, {v: "", want: ""}, {v: "x", want: "x"}, {v: "5", want: "5"},
		{v: uint8(200), want: int64(200)}, {v: uint16(60000), want: int64(60000)}, {v: uint32(4000000000), want: int64(4000000000)}, {v: uint64(7), want: int64(7)},
		{v: uint64(math.MaxInt64), want: int64(math.MaxInt64)}, {v: uint64(math.MaxUint64), want: float64(math.MaxUint64)}, {v: uint64(1) << 63, want: float64(1 << 63)},
		{v: int(-3), want: int64(-3)}, {v: int32(math.MinInt32), want: int64(math.MinInt32)}, {v: int64(math.MinInt64), want: int64(math.MinInt64)}, {v: int64(math.MaxInt64), want: int64(math.MaxInt64)}, {v: 1.5, want: 1.5}, {v: float64(2), want: float64(2)}, {v: math.Inf(1), want: math.Inf(1)},
		{v: odd{}, bad: true}, {v: make(chan int), bad: true}, {v: map[interface{}]interface{}{1: 2}, bad: true}, {v: []int{1}, bad: true}}
	r.Explore("native", func(c *kit.C) func(t *kit.T) {
		var mk func(d int) nat
		mk = func(d int) nat {
			k := 0
			if d > 0 {
				k = c.Choose(7)
			}
			switch k {
			case 1:
				return nat{v: []interface{}{}, want: []interface{}{}}
			case 2:
				a := mk(d - 1)
				return nat{[]interface{}{a.v}, []interface{}{a.want}, a.bad}
			case 3:
				a, b := mk(d-1), kit.Pick(c, nats[:4])
				return nat{[]interface{}{b.v, a.v}, []interface{}{b.want, a.want}, a.bad}
			case 4:
				a, b := mk(d-1), kit.Pick(c, nats[:4])
				return nat{map[string]interface{}{"k": b.v, "": a.v}, map[string]interface{}{"k": b.want, "": a.want}, a.bad}
			case 5:
				a, b := mk(d-1), kit.Pick(c, nats[:4])
				return nat{map[interface{}]interface{}{"k": b.v, "z": a.v}, map[string]interface{}{"k": b.want, "z": a.want}, a.bad}
			case 6:
				return nat{v: map[string]interface{}{}, want: map[string]interface{}{}}
			}
			return kit.Pick(c, nats)
		}
		n := mk(2)
		return func(t *kit.T) {
			t.Op(1)
			before := fmt.Sprintf("%#v", n.v)
			v, err := vals.ConvertDecoded(n.v)
			if n.bad != (err != nil) {
				t.Failf("converting %#v gives error %v", n.v, err)
				return
			}
			if err == nil {
				if g := toGo(v); !body.EqTyped(g, n.want) {
					t.Failf("converting %#v gives %s", n.v, body.Show(g))
					return
				}
				w, err := vals.ConvertDecoded(n.v)
				if err != nil || !vals.Equal(v, w) {
					t.Failf("converting %#v twice gives unequal values", n.v)
					return
				}
			}
			if after := fmt.Sprintf("%#v", n.v); after != before && !strings.Contains(before, "0x") && !strings.Contains(before, "map") {
				t.Failf("converting changed %s to %s", before, after)
			}
			t.Trace()
		}
	})

	// equality
	pool := func() []vals.Value {
		s := func(x string) vals.Value { return vals.String(x) }
		base := []vals.Value{vals.Null(true), vals.Boolean(true), vals.Boolean(false), vals.Integer(0), vals.Integer(1), vals.Integer(-1), vals.Number(0), vals.Number(1), vals.Number(1.5), s(""), s("1"), s("null"), s("a"), vals.Array{}, vals.Object{}}
		big := []vals.Value{}
		big = append(big, base...)
		for i := range base {
			big = append(big, vals.Array{base[i]}, vals.Object{"a": base[i]})
			big = append(big, vals.Array{base[i], base[(i+1)%len(base)]}, vals.Array{base[(i+1)%len(base)], base[i]})
			big = append(big, vals.Object{"a": base[i], "b": base[(i+1)%len(base)]}, vals.Object{"b": base[i]}, vals.Object{"": base[i]})
		}
		for i := 13; i < 25; i++ {
			big = append(big, vals.Array{big[i]}, vals.Object{"a": big[i]}, vals.Array{vals.Null(true), big[i]}, vals.Object{"a": vals.Array{big[i]}, "c": vals.Null(true)})
		}
		big = append(big, vals.Object{"a": vals.Null(true), "c": vals.Integer(1)}, vals.Object{"b": vals.Null(true), "c": vals.Integer(1)}, vals.Integer(math.MaxInt64), vals.Integer(math.MaxInt64-1), vals.Number(math.MaxInt64))
		return big
	}()
	r.Explore("equality", func(c *kit.C) func(t *kit.T) {
		a := kit.Pick(c, pool)
		return func(t *kit.T) {
			if vals.Equal(a, nil) || vals.Equal(nil, a) || !vals.Equal(nil, nil) {
				t.Failf("%#v compared with nil", a)
				return
			}
			for _, b := range pool {
				t.Op(1)
				want := body.EqTyped(toGo(a), toGo(b))
				if g, h := vals.Equal(a, b), vals.Equal(b, a); g != want || h != want {
					t.Failf("Equal(%s, %s) is %v, reversed %v", body.Show(toGo(a)), body.Show(toGo(b)), g, h)
					return
				}
				pa, pb := ptr(a), ptr(b)
				if g := vals.Equal(pa, b); g != want {
					t.Failf("Equal(pointer to %s, %s) is %v", body.Show(toGo(a)), body.Show(toGo(b)), g)
					return
				}
				if g := vals.Equal(vals.NewObjectValue("k", a), pb); g != want {
					t.Failf("Equal(%s under a key, pointer to %s) is %v", body.Show(toGo(a)), body.Show(toGo(b)), g)
					return
				}
			}
			t.Trace()
		}
	})

	// ordering
	ints := []string{"0", "-0", "1", "+1", "01", "-1", "2", "9", "10", "-9", "-10", "100", "99", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807"}
	nums := append([]string{"0.0", "1.0", "1.5", "-1.5", "1e1", "10.0", "1e-3", "0.001", "1e308", "-1e308", "5e-324", "0.1", "0.2", "0.30000000000000004", "0.3"}, ints[:13]...)
	var strs []string
	for _, n := range []int{1, 2, 3} {
		seqs([]string{"a", "b", "\x00", "é"}, "", n, func(s string) bool { strs = append(strs, s); return true })
	}
	strs = append(strs[:40], "A", "aaaa", "10", "9", " ")
	type ord struct {
		ty    vals.Type
		texts []string
		cmp   func(a, b string) int
		bad   []string
	}
	num := func(a, b string) int {
		x, _ := number(a)
		y, _ := number(b)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	ords := []ord{
		{vals.TypeString, strs, strings.Compare, nil},
		{vals.TypeInteger, ints, func(a, b string) int {
			x, _ := new(big.Int).SetString(a, 10)
			y, _ := new(big.Int).SetString(b, 10)
			return x.Cmp(y)
		}, []string{"x", "1.5", "9223372036854775808", " 1", "1 "}},
		{vals.TypeNumber, nums, num, []string{"x", "1.5.2", " 1", "1e999"}},
	}
	r.Explore("ordering", func(c *kit.C) func(t *kit.T) {
		o := kit.Pick(c, ords)
		i := c.Choose(len(o.texts))
		return func(t *kit.T) {
			a := o.texts[i]
			call := func(x, y string) (int, bool) {
				t.Op(1)
				bx, by := []byte(x), []byte(y)
				g, err := vals.CompareTypeBytes(bx, by, o.ty)
				if err != nil || string(bx) != x || string(by) != y {
					t.Failf("comparing %q and %q as %s: error %v, texts then %q %q", x, y, o.ty, err, bx, by)
					return 0, false
				}
				return sgn(g), true
			}
			for _, b := range o.texts {
				g, ok := call(a, b)
				h, ok2 := call(b, a)
				if !ok || !ok2 {
					return
				}
				if want := o.cmp(a, b); g != want || h != -want {
					t.Failf("comparing %q and %q as %s gives %d, reversed %d, the order is %d", a, b, o.ty, g, h, want)
					return
				}
				for _, z := range o.texts {
					gz, ok := call(b, z)
					ga, ok2 := call(a, z)
					if !ok || !ok2 {
						return
					}
					if g <= 0 && gz <= 0 && ga > 0 {
						t.Failf("%q <= %q <= %q as %s, but comparing the ends gives %d", a, b, z, o.ty, ga)
						return
					}
				}
			}
			for _, e := range []struct {
				x, y string
				want int
			}{{"", a, -1}, {a, "", 1}, {"", "", 0}, {a, a, 0}} {
				if g, ok := call(e.x, e.y); !ok {
					return
				} else if g != e.want {
					t.Failf("comparing %q and %q as %s gives %d", e.x, e.y, o.ty, g)
					return
				}
			}
			for _, b := range o.bad {
				if g, err := vals.CompareTypeBytes([]byte(a), []byte(b), o.ty); err == nil {
					t.Failf("comparing %q and %q as %s gives %d and no error", a, b, o.ty, g)
					return
				}
				if g, err := vals.CompareTypeBytes([]byte(b), []byte(a), o.ty); err == nil {
					t.Failf("comparing %q and %q as %s gives %d and no error", b, a, o.ty, g)
					return
				}
			}
			for _, ty := range []vals.Type{vals.TypeUnknown, vals.TypeNull, vals.TypeBoolean, vals.TypeArray, vals.TypeObject} {
				if g, err := vals.CompareTypeBytes([]byte(a), []byte(a+"x"), ty); err == nil {
					t.Failf("comparing texts as %s gives %d and no error", ty, g)
					return
				}
			}
			// sorting with it is sorting by the reference
			l := append([]string{}, o.texts...)
			sort.SliceStable(l, func(x, y int) bool { g, _ := vals.CompareTypeBytes([]byte(l[x]), []byte(l[y]), o.ty); return g < 0 })
			for k := 1; k < len(l); k++ {
				if o.cmp(l[k-1], l[k]) > 0 {
					t.Failf("sorted as %s: %q before %q", o.ty, l[k-1], l[k])
					return
				}
			}
			t.Trace()
		}
	})

	// types
	names := map[vals.Type]string{vals.TypeNull: "null", vals.TypeInteger: "integer", vals.TypeNumber: "number", vals.TypeBoolean: "boolean", vals.TypeString: "string", vals.TypeObject: "object", vals.TypeArray: "array"}
	r.Explore("types", func(c *kit.C) func(t *kit.T) {
		ty := vals.Type(c.Choose(256))
		return func(t *kit.T) {
			t.Op(1)
			name := ty.String()
			if name != names[ty] {
				t.Failf("type %d is called %q", ty, name)
				return
			}
			if name == "" {
				if _, err := ty.Parse([]byte("x")); err == nil {
					t.Failf("text parsed by the unknown type %d", ty)
				}
				if _, err := ty.ValueToString("x"); err == nil {
					t.Failf("value formatted by the unknown type %d", ty)
				}
				return
			}
			if vals.TypeFromString(name) != ty {
				t.Failf("%q is type %d", name, vals.TypeFromString(name))
				return
			}
			for _, bad := range []string{"", name + "s", strings.ToUpper(name), " " + name, name[1:]} {
				if g := vals.TypeFromString(bad); g != vals.TypeUnknown {
					t.Failf("%q is type %d", bad, g)
				}
				var u vals.Type
				q, _ := json.Marshal(bad)
				if err := json.Unmarshal(q, &u); err == nil {
					t.Failf("%s decodes to type %d", q, u)
				}
			}
			data, err := json.Marshal(ty)
			var u vals.Type
			if err != nil || string(data) != `"`+name+`"` || json.Unmarshal(data, &u) != nil || u != ty {
				t.Failf("type %d encodes to %s, error %v, decodes to %d", ty, data, err, u)
			}
			for _, bad := range []string{"1", "null", "{}", "[]", "true"} {
				if bad == "null" {
					continue
				}
				if err := json.Unmarshal([]byte(bad), &u); err == nil {
					t.Failf("%s decodes to a type", bad)
				}
			}
			t.Trace()
		}
	})

	// values as text
	type tv struct {
		ty vals.Type
		v  interface{}
	}
	var tvs []tv
	for _, s := range []string{"", "a", "1", "null", " ", "é\n", `"`} {
		tvs = append(tvs, tv{vals.TypeString, s})
	}
	for _, i := range []int{0, 1, -1, 10, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1} {
		tvs = append(tvs, tv{vals.TypeInteger, i})
	}
	for _, f := range []float64{0, 1, -1, 1.5, 0.1, 1e21, 1e20, 1e-7, 1e-6, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 123456789.123456789, 0.30000000000000004} {
		tvs = append(tvs, tv{vals.TypeNumber, f})
	}
	tvs = append(tvs, tv{vals.TypeBoolean, true}, tv{vals.TypeBoolean, false},
		tv{vals.TypeArray, []interface{}{}}, tv{vals.TypeArray, []interface{}{1.0, "a", nil, true, []interface{}{2.5}}}, tv{vals.TypeArray, []interface{}{map[string]interface{}{}}},
		tv{vals.TypeObject, map[string]interface{}{}}, tv{vals.TypeObject, map[string]interface{}{"a": nil, "b": []interface{}{}, "<&>": `"\`}})
	r.Explore("values without a text", func(c *kit.C) func(t *kit.T) {
		ty := kit.Pick(c, []vals.Type{vals.TypeObject, vals.TypeArray})
		bad := kit.Pick(c, []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), func() {}, make(chan int), complex(1, 2)})
		depth := c.Range(0, 2)
		return func(t *kit.T) {
			v := bad
			for i := 0; i <= depth; i++ {
				if (i == depth) == (ty == vals.TypeObject) {
					v = map[string]interface{}{"a": 1, "b": v}
				} else {
					v = []interface{}{1, v}
				}
			}
			t.Op(2)
			s, err := ty.ValueToString(v)
			b, berr := ty.ValueToBytes(v)
			if err == nil || berr == nil {
				t.Failf("%#v, which no text denotes, as text is %q, error %v, as bytes %q, error %v", v, s, err, b, berr)
			}
			t.Trace()
		}
	})
	r.Explore("value-text", func(c *kit.C) func(t *kit.T) {
		x := kit.Pick(c, tvs)
		return func(t *kit.T) {
			t.Op(1)
			s, err := x.ty.ValueToString(x.v)
			b, berr := x.ty.ValueToBytes(x.v)
			if err != nil || berr != nil || !bytes.Equal([]byte(s), b) {
				t.Failf("value %#v as text: %q %v, as bytes %q %v", x.v, s, err, b, berr)
				return
			}
			back, err := x.ty.Parse([]byte(s))
			if err != nil || !body.Eq(back, x.v) {
				t.Failf("value %#v as text is %q, parsed again %#v, error %v", x.v, s, back, err)
				return
			}
			if x.ty != vals.TypeString {
				if g := vals.ParseType([]byte(s)); g != x.ty && !(x.ty == vals.TypeNumber && g == vals.TypeInteger) {
					t.Failf("value %#v as text is %q, which is of type %s", x.v, s, g)
					return
				}
			}
			for _, y := range tvs {
				if y.ty != x.ty && x.ty != vals.TypeArray && x.ty != vals.TypeObject {
					if s, err := x.ty.ValueToString(y.v); err == nil {
						t.Failf("value %#v as text of type %s gives %q and no error", y.v, x.ty, s)
						return
					}
					if s, err := x.ty.ValueToBytes(y.v); err == nil {
						t.Failf("value %#v as bytes of type %s gives %q and no error", y.v, x.ty, s)
						return
					}
				}
			}
			t.Trace()
		}
	})
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func ptr(v vals.Value) vals.Value {
	switch x := v.(type) {
	case vals.Null:
		return &x
	case vals.Boolean:
		return &x
	case vals.Integer:
		return &x
	case vals.Number:
		return &x
	case vals.String:
		return &x
	case vals.Array:
		return &x
	case vals.Object:
		return &x
	}
	panic("kind")
}
