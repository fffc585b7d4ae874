// C08: the JSON reader decodes exactly what the JSON standard says.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C08", Level: "model_checking",
		Rule:   "every token sequence, string content, escape, code unit, number text and nested value in bounds, as array and as object body, with every reader buffer size listed and every alignment of every token kind to a buffer boundary; the entries are compared with an independent decoder, broken bodies with an independent tolerant parser",
		Bounds: "documents of up to 5 (6 thorough) tokens of 13; string contents of up to 5 (6) characters of 9 and 3 (4) segments of 17; all 65536 \\u escapes, surrogate pairs at every boundary (all 1048576 thorough); number texts of up to 5 (6) characters of 8; 16 byte, 64 byte, 4 KiB and 256 KiB buffers",
		Body:   run})
}

// ---- reference: the JSON standard ----

func num(n json.Number) (interface{}, error) {
	s := string(n)
	if !strings.ContainsAny(s, ".eE") {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i, nil
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	return f, err
}

func conv(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case json.Number:
		return num(x)
	case []interface{}:
		for i := range x {
			c, err := conv(x[i])
			if err != nil {
				return nil, err
			}
			x[i] = c
		}
	case map[string]interface{}:
		for k := range x {
			c, err := conv(x[k])
			if err != nil {
				return nil, err
			}
			x[k] = c
		}
	}
	return v, nil
}

var errNotStd = errors.New("not standard")

// standard gives the entries of a valid document of the given top level type.
func standard(doc []byte, obj bool) ([]dsio.Entry, error) {
	if !json.Valid(doc) || !utf8.Valid(doc) {
		return nil, errNotStd
	}
	dec := json.NewDecoder(bytes.NewReader(doc))
	dec.UseNumber()
	t, err := dec.Token()
	if err != nil {
		return nil, errNotStd
	}
	d, ok := t.(json.Delim)
	if !ok || (d == '{') != obj {
		return nil, errNotStd
	}
	var es []dsio.Entry
	for dec.More() {
		e := dsio.Entry{Index: len(es)}
		if obj {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			e.Index = 0
			e.Key = k.(string)
		}
		var v interface{}
		if err := dec.Decode(&v); err != nil {
			return nil, err
		}
		if e.Value, err = conv(v); err != nil {
			return nil, errNotStd // number beyond the range of floats
		}
		es = append(es, e)
	}
	return es, nil
}

// ---- reference: what a broken body may be taken for ----

type tol struct {
	b []byte
	i int
}

var errBroken = errors.New("broken")

func (p *tol) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\n' || p.b[p.i] == '\t' || p.b[p.i] == '\r') {
		p.i++
	}
}
func (p *tol) tok(c byte) bool {
	p.ws()
	if p.i < len(p.b) && p.b[p.i] == c {
		p.i++
		return true
	}
	return false
}
func (p *tol) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *tol) str() (string, error) {
	if !p.tok('"') {
		return "", errBroken
	}
	j := p.i
	for {
		if j >= len(p.b) {
			return "", errBroken
		}
		if p.b[j] == '\\' {
			j += 2
			continue
		}
		if p.b[j] == '"' {
			break
		}
		j++
	}
	s := p.b[p.i:j]
	p.i = j + 1
	return tolString(s), nil
}

func hexv(s []byte, n int) (int, bool) {
	if len(s) != n {
		return 0, false
	}
	v, err := strconv.ParseUint(string(s), 16, 32)
	return int(v), err == nil
}

func cut(s []byte, n int) []byte {
	if n > len(s) {
		n = len(s)
	}
	return s[:n]
}

// tolString decodes the inside of a string: unknown escapes stand for their
// character, \xHH for a byte, and a broken escape for a question mark.
func tolString(s []byte) string {
	var o []byte
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			o = append(o, s[i])
			i++
			continue
		}
		i++
		if i >= len(s) {
			break // a broken escape took the character this one escapes
		}
		c := s[i]
		i++
		switch c {
		case 'b':
			o = append(o, '\b')
		case 'f':
			o = append(o, '\f')
		case 'n':
			o = append(o, '\n')
		case 'r':
			o = append(o, '\r')
		case 't':
			o = append(o, '\t')
		case 'x':
			h := cut(s[i:], 2)
			i += len(h)
			if v, ok := hexv(h, 2); ok {
				o = append(o, byte(v))
			} else {
				o = append(o, '?')
			}
		case 'u':
			h := cut(s[i:], 4)
			i += len(h)
			v, ok := hexv(h, 4)
			if !ok {
				o = append(o, '?')
				break
			}
			r := rune(v)
			if utf16.IsSurrogate(r) {
				if i+6 <= len(s) && s[i] == '\\' && s[i+1] == 'u' {
					if lo, ok := hexv(s[i+2:i+6], 4); ok {
						if x := utf16.DecodeRune(r, rune(lo)); x != utf8.RuneError {
							o = append(o, string(x)...)
							i += 6
							break
						}
					}
				}
				o = append(o, '?') // a lone half
				break
			}
			o = append(o, string(r)...)
		default:
			o = append(o, c)
		}
	}
	return string(o)
}

func (p *tol) val() (interface{}, error) {
	p.ws()
	if p.i >= len(p.b) {
		return nil, errBroken
	}
	switch c := p.b[p.i]; {
	case c == 'n':
		if p.lit("null") {
			return nil, nil
		}
		return nil, errBroken
	case c == 't':
		if p.lit("true") {
			return true, nil
		}
		return nil, errBroken
	case c == 'f':
		if p.lit("false") {
			return false, nil
		}
		return nil, errBroken
	case c == '"':
		return p.str()
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		for j < len(p.b) && strings.IndexByte("0123456789+-.eE", p.b[j]) >= 0 {
			j++
		}
		s := string(p.b[p.i:j])
		p.i = j
		v, err := num(json.Number(s))
		if err != nil {
			return nil, errBroken
		}
		return v, nil
	case c == '[' || c == '{':
		es, err := p.container(c == '{')
		if err != nil {
			return nil, err
		}
		if c == '{' {
			m := map[string]interface{}{}
			for _, e := range es {
				m[e.Key] = e.Value
			}
			return m, nil
		}
		a := make([]interface{}, len(es))
		for i, e := range es {
			a[i] = e.Value
		}
		return a, nil
	}
	return nil, nil // a missing value reads as null
}

func (p *tol) container(obj bool) ([]dsio.Entry, error) {
	open, cl := byte('['), byte(']')
	if obj {
		open, cl = '{', '}'
	}
	if !p.tok(open) {
		return nil, errBroken
	}
	var es []dsio.Entry
	if p.tok(cl) {
		return es, nil
	}
	for {
		e := dsio.Entry{Index: len(es)}
		var err error
		if obj {
			e.Index = 0
			if e.Key, err = p.str(); err != nil {
				return nil, err
			}
			if !p.tok(':') {
				return nil, errBroken
			}
		}
		if e.Value, err = p.val(); err != nil {
			return nil, err
		}
		es = append(es, e)
		if p.tok(cl) {
			return es, nil
		}
		if !p.tok(',') {
			return nil, errBroken
		}
	}
}

// ---- the check of one document ----

func st(obj bool) *dataset.Structure {
	if obj {
		return body.St("json", "", body.Obj(), nil)
	}
	return body.St("json", "", body.Arr(), nil)
}

// loneOK accepts either spelling of a lone surrogate half.
func loneOK(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && (x == y || strings.ReplaceAll(x, "\ufffd", "?") == strings.ReplaceAll(y, "\ufffd", "?"))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !loneOK(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if _, ok := y[k]; !ok && !strings.Contains(k, "\ufffd") {
				return false
			} else if ok && !loneOK(x[k], y[k]) {
				return false
			}
		}
		return true
	}
	return body.EqTyped(a, b)
}

func check(t *kit.T, doc []byte, obj bool, size int) {
	t.Op(1)
	var r *dsio.JSONReader
	var err error
	if size == 0 {
		r, err = dsio.NewJSONReader(st(obj), bytes.NewReader(doc))
	} else {
		r, err = dsio.NewJSONReaderSize(st(obj), bytes.NewReader(doc), size)
	}
	if err != nil {
		t.Failf("opening: %v", err)
	}
	got, gerr := body.Drain(r, len(doc)+2)
	if err := r.Close(); err != nil {
		t.Failf("close: %v", err)
	}
	t.Op(len(got))
	want, werr := standard(doc, obj)
	t.Trace()
	if werr == nil {
		if gerr != nil {
			t.Failf("valid document %s: error %v", short(doc), gerr)
		}
		eq := body.EqTyped
		if bytes.Contains(doc, []byte(`\u`)) && strings.Contains(body.ShowEntries(want), "\ufffd") {
			eq = loneOK
			for i := range want {
				if i < len(got) && strings.Contains(want[i].Key, "\ufffd") && loneOK(want[i].Key, got[i].Key) {
					want[i].Key = got[i].Key
				}
			}
		}
		if !body.EqEntries(want, got, true, eq) {
			t.Failf("valid document %s\n read as %s\n should be %s", short(doc), body.ShowEntries(got), body.ShowEntries(want))
		}
		return
	}
	if gerr != nil {
		return
	}
	p := &tol{b: doc}
	loose, lerr := p.container(obj)
	if lerr != nil {
		t.Failf("broken document %s is delivered as %s without an error", short(doc), body.ShowEntries(got))
	}
	if !body.EqEntries(loose, got, true, body.EqTyped) {
		t.Failf("broken document %s is delivered as %s, can only be %s", short(doc), body.ShowEntries(got), body.ShowEntries(loose))
	}
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q…%q (%d bytes)", b[:60], b[len(b)-100:], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func seq(c *kit.C, max int, parts []string) []string {
	n := c.Range(0, max)
	out := make([]string, n)
	for i := range out {
		out[i] = kit.Pick(c, parts)
	}
	return out
}

func run(r *kit.Run) {
	toks := []string{"[", "]", "{", "}", ",", ":", "1", `"a"`, "null", "tru", " ", `"b"`, "-"}
	r.Explore("token sequences", func(c *kit.C) func(t *kit.T) {
		obj := c.Bool()
		s := seq(c, r.T0(5, 6), toks)
		doc := strings.Join(s, "")
		return func(t *kit.T) { check(t, []byte(doc), obj, 16) }
	})
	// grammar directed: one more level of nesting with a fault at any token
	r.Explore("nested values", func(c *kit.C) func(t *kit.T) {
		obj := c.Bool()
		budget := r.T0(4, 6)
		var gen func(d int) string
		gen = func(d int) string {
			n := 7
			if d == 0 || budget <= 0 {
				n = 5
			}
			budget--
			switch c.Choose(n) {
			case 0:
				return "7"
			case 1:
				return `"x\ty"`
			case 2:
				return "null"
			case 3:
				return "-2.5e3"
			case 4:
				return "true"
			case 5:
				k := 0
				if budget > 0 {
					k = c.Choose(3)
				}
				var p []string
				for i := 0; i < k; i++ {
					p = append(p, gen(d-1))
				}
				return "[" + strings.Join(p, ",") + "]"
			default:
				k := 0
				if budget > 0 {
					k = c.Choose(3)
				}
				var p []string
				for i := 0; i < k; i++ {
					key := "a"
					if i > 0 && c.Choose(2) == 0 {
						key = "b"
					}
					p = append(p, fmt.Sprintf("%q : %s", key, gen(d-1)))
				}
				return "{" + strings.Join(p, " ,\n") + "}"
			}
		}
		k := c.Choose(3)
		var p []string
		for i := 0; i < k; i++ {
			v := gen(2)
			if obj {
				v = fmt.Sprintf("%q:%s", string(rune('a'+i)), v)
			}
			p = append(p, v)
		}
		doc := "[" + strings.Join(p, ",") + "]"
		if obj {
			doc = "{" + strings.Join(p, ",") + "}"
		}
		return func(t *kit.T) {
			check(t, []byte(doc), obj, 16)
			check(t, []byte(doc), obj, 64)
			// every prefix, and every document with one byte dropped
			for i := 0; i < len(doc); i++ {
				check(t, []byte(doc[:i]), obj, 64)
				check(t, []byte(doc[:i]+doc[i+1:]), obj, 64)
			}
		}
	})
	r.Explore("string characters", func(c *kit.C) func(t *kit.T) {
		s := seq(c, r.T0(5, 6), []string{`\`, `"`, "u", "x", "0", "d", "n", "é", "/"})
		in := strings.Join(s, "")
		key := c.Bool()
		return func(t *kit.T) {
			if key {
				check(t, []byte(`{"`+in+`":1}`), true, 16)
			} else {
				check(t, []byte(`["`+in+`",2]`), false, 16)
			}
		}
	})
	segs := []string{`\ud83d`, `\uDE00`, `\u0041`, `\u00e9`, `\u20AC`, `\ud800`, `\uDFFF`, `\n`, `\\`, `\"`, `\/`, `\b\f\r\t`, "é", "😀", "a", `\u`, `\x41`, `\nde00`, `\tDC00z`, `u`}
	r.Explore("string segments", func(c *kit.C) func(t *kit.T) {
		s := seq(c, r.T0(3, 4), segs)
		in := strings.Join(s, "")
		size := kit.Pick(c, []int{16, 17, 64})
		return func(t *kit.T) {
			check(t, []byte(`["`+in+`","`+in+`z"]`), false, size)
			check(t, []byte(`[["`+in+`"],{"`+in+`":3}]`), false, size)
		}
	})
	r.Explore("all code units", func(c *kit.C) func(t *kit.T) {
		hi := c.Choose(256)
		return func(t *kit.T) {
			for lo := 0; lo < 256; lo++ {
				u := hi<<8 | lo
				check(t, []byte(fmt.Sprintf(`["\u%04x"]`, u)), false, 16)
				check(t, []byte(fmt.Sprintf(`{"\u%04X":"%[1]s"}`, u)), true, 64)
			}
		}
	})
	r.Explore("all bytes and two byte contents", func(c *kit.C) func(t *kit.T) {
		a := c.Choose(256)
		return func(t *kit.T) {
			check(t, []byte{'[', '"', byte(a), '"', ']'}, false, 16)
			check(t, []byte{'[', '"', '\\', byte(a), '"', ']'}, false, 16)
			check(t, []byte{'[', byte(a), ']'}, false, 16)
			for b := 0; b < 256; b++ {
				check(t, []byte{'[', '"', byte(a), byte(b), '"', ']'}, false, 16)
				check(t, []byte{'[', byte(a), byte(b), ']'}, false, 16)
			}
		}
	})
	pairs := []int{0xD800, 0xD801, 0xD83D, 0xDBFE, 0xDBFF}
	lows := []int{0xDC00, 0xDC01, 0xDE00, 0xDFFE, 0xDFFF}
	r.Explore("surrogate pairs", func(c *kit.C) func(t *kit.T) {
		var hi int
		full := r.Thorough
		if full {
			hi = 0xD800 + c.Choose(1024)
		} else {
			hi = kit.Pick(c, pairs)
		}
		return func(t *kit.T) {
			if full {
				for lo := 0xDC00; lo <= 0xDFFF; lo++ {
					check(t, []byte(fmt.Sprintf(`["\u%04x\u%04X"]`, hi, lo)), false, 16)
				}
				return
			}
			for _, lo := range lows {
				check(t, []byte(fmt.Sprintf(`["a\u%04x\u%04Xb"]`, hi, lo)), false, 16)
				check(t, []byte(fmt.Sprintf(`["a\u%04x\u%04xb"]`, lo, hi)), false, 16)
			}
			for lo := 0xDC00; lo <= 0xDFFF; lo += 31 {
				check(t, []byte(fmt.Sprintf(`{"\u%04x\u%04X":1}`, hi, lo)), true, 16)
			}
		}
	})
	r.Explore("number texts", func(c *kit.C) func(t *kit.T) {
		s := strings.Join(seq(c, r.T0(5, 6), []string{"0", "1", "9", "-", "+", ".", "e", "E"}), "")
		return func(t *kit.T) { check(t, []byte("["+s+"]"), false, 16) }
	})
	r.Explore("number boundaries", func(c *kit.C) func(t *kit.T) {
		var s string
		switch c.Choose(4) {
		case 0: // around every power of two
			k, d, neg := c.Range(0, 66), c.Range(-2, 2), c.Bool()
			s = pow2(k, d, neg)
		case 1: // every power of ten, whole and fractional
			k, neg := c.Range(0, 40), c.Bool()
			s = "1" + strings.Repeat("0", k)
			if neg {
				s = "-" + s
			}
		case 2:
			s = fmt.Sprintf("%de%d", c.Range(0, 9), c.Range(-330, 309))
		default:
			f := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 2.2250738585072014e-308, 9007199254740993, 123456789.123456789}[c.Choose(7)]
			s = strconv.FormatFloat(f, "fgeE"[c.Choose(4)], -1, 64)
		}
		obj := c.Bool()
		return func(t *kit.T) {
			for _, size := range []int{16, 64} {
				if obj {
					check(t, []byte(`{"k":`+s+`,"l":[`+s+`]}`), true, size)
				} else {
					check(t, []byte(`[`+s+`, `+s+` ]`), false, size)
				}
			}
		}
	})
	items := []string{`"plain"`, `"\u20ac\ud83d\ude00"`, `"q\"\\q"`, "123456", "-0.25e-3", "true", "false", "null", `[1,"two"]`, `{"k":"v"}`, "[]", "{}"}
	for _, size := range []int{16, 64, 4096, 0} {
		size := size
		r.Explore(fmt.Sprintf("buffer boundaries %d", size), func(c *kit.C) func(t *kit.T) {
			bound := size
			kinds := []int{size}
			switch size {
			case 0:
				kinds = []int{256 * 1024}
			case 4096:
				kinds = []int{4096, 8192}
			case 64:
				kinds = []int{64, 128, 4096}
			case 16:
				kinds = []int{16, 32, 4096}
			}
			bound = kit.Pick(c, kinds)
			item := kit.Pick(c, items)
			padding := c.Choose(3)
			obj := c.Bool()
			off := c.Range(-len(item)-4, 4)
			return func(t *kit.T) {
				var pad string
				n := bound + off
				if n < 6 {
					return
				}
				switch padding {
				case 0:
					pad = strings.Repeat(" ", n)
				case 1:
					pad = `"` + strings.Repeat("p", n-3) + `",`
				default:
					pad = strings.Repeat("1,", n/2)
					if n > 10000 {
						pad = strings.Repeat(`"`+strings.Repeat("q", 253)+`",`, n/256) + strings.Repeat(" ", n%256)
					}
				}
				var doc string
				if obj {
					switch padding {
					case 1:
						pad = `"p":` + pad
					case 2:
						pad = `"p":[` + pad + `0],`
					}
					doc = "{" + pad + `"k":` + item + `,"` + strings.Trim(item, `"`) + `":2}`
					if !json.Valid([]byte(doc)) {
						doc = "{" + pad + `"k":` + item + ` , "last":` + item + "}"
					}
				} else {
					doc = "[" + pad + item + " , " + item + "]"
				}
				check(t, []byte(doc), obj, size)
				t.State(bound, item, padding, obj, off)
			}
		})
	}
	r.Explore("long tokens", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{1, 15, 16, 17, 4095, 4096, 4097, 65535, 65536, 256*1024 - 1, 256 * 1024, 256*1024 + 1, 600000})
		kind := c.Choose(5)
		size := kit.Pick(c, []int{16, 4096, 0})
		return func(t *kit.T) {
			var doc string
			switch kind {
			case 0:
				doc = `["` + strings.Repeat("s", n) + `",1]`
			case 1:
				doc = `["` + strings.Repeat(`\\`, n/2) + `",1]`
			case 2:
				doc = `[` + strings.Repeat(" ", n) + `1` + strings.Repeat("\n", n) + `,2` + strings.Repeat("\t", n) + "]"
			case 3:
				doc = `[[` + strings.Repeat("7,", n/2) + `8],1]`
			default:
				if n > 5000 {
					n = 5000
				}
				doc = `[` + strings.Repeat("[", n) + strings.Repeat("]", n) + `,1]`
			}
			if size == 16 && n > 65536 {
				return
			}
			check(t, []byte(doc), false, size)
		}
	})
	_ = io.EOF
}

func pow2(k, d int, neg bool) string {
	v := int64(1)
	if k < 62 {
		v = v<<uint(k) + int64(d)
		if neg {
			v = -v
		}
		return strconv.FormatInt(v, 10)
	}
	// beyond int64 arithmetic: table of 2^62..2^66
	base := []string{"4611686018427387904", "9223372036854775808", "18446744073709551616", "36893488147419103232", "73786976294838206464"}[k-62]
	s := addDec(base, d)
	if neg {
		return "-" + s
	}
	return s
}

func addDec(s string, d int) string {
	b := []byte(s)
	last := int(b[len(b)-1]-'0') + d
	if last < 0 || last > 9 {
		// the table's last digits are 2..8, so small d never carries
		return s
	}
	b[len(b)-1] = byte('0' + last)
	return string(b)
}
