// C09: the CBOR reader decodes exactly what RFC 7049 says.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C09", Level: "model_checking",
		Rule:   "every value of the alphabet in every encoding RFC 7049 allows (all argument widths, definite and indefinite lengths with every chunking), nested, at top level as array and map, encoded by an independent encoder and read back by the real reader; every half precision float; strings and containers around every length class and the reader's buffer",
		Bounds: "bodies of up to 2 (3 thorough) entries of trees of depth 2; all 65536 half floats; single and double floats and integers around every power of two; lengths around 0, 23, 255, 4096, 65535 and 65536",
		Body:   run})
}

// ---- independent encoder ----

// head encodes a major type and argument with width w: 0 immediate, 1, 2, 4 or 8 bytes.
func head(major byte, n uint64, w int) []byte {
	switch w {
	case 0:
		return []byte{major<<5 | byte(n)}
	case 1:
		return []byte{major<<5 | 24, byte(n)}
	case 2:
		b := []byte{major<<5 | 25, 0, 0}
		binary.BigEndian.PutUint16(b[1:], uint16(n))
		return b
	case 4:
		b := []byte{major<<5 | 26, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[1:], uint32(n))
		return b
	}
	b := make([]byte, 9)
	b[0] = major<<5 | 27
	binary.BigEndian.PutUint64(b[1:], n)
	return b
}

func widths(n uint64) []int {
	var w []int
	if n < 24 {
		w = append(w, 0)
	}
	if n < 1<<8 {
		w = append(w, 1)
	}
	if n < 1<<16 {
		w = append(w, 2)
	}
	if n < 1<<32 {
		w = append(w, 4)
	}
	return append(w, 8)
}

// short is the width that is neither pinned nor chosen: the smallest.
func small(n uint64) int { return widths(n)[0] }

type ev struct {
	enc []byte
	val interface{}
}

func intv(n uint64, neg bool, w int) ev {
	if neg {
		return ev{head(1, n, w), -1 - int64(n)}
	}
	if n > math.MaxInt64 {
		return ev{head(0, n, w), n}
	}
	return ev{head(0, n, w), int64(n)}
}

func strv(s string, text bool, w int) ev {
	m := byte(2)
	var v interface{} = []byte(s)
	if text {
		m, v = 3, s
	}
	return ev{append(head(m, uint64(len(s)), w), s...), v}
}

func chunked(parts []string, text bool, w int) ev {
	m := byte(2)
	if text {
		m = 3
	}
	b := []byte{m<<5 | 31}
	all := ""
	for _, p := range parts {
		b = append(b, strv(p, text, w).enc...)
		all += p
	}
	b = append(b, 0xff)
	if text {
		return ev{b, all}
	}
	return ev{b, []byte(all)}
}

func arr(vs []ev, w int) ev { // w<0: indefinite
	var b []byte
	if w < 0 {
		b = []byte{0x9f}
	} else {
		b = head(4, uint64(len(vs)), w)
	}
	out := make([]interface{}, 0, len(vs))
	for _, v := range vs {
		b = append(b, v.enc...)
		out = append(out, v.val)
	}
	if w < 0 {
		b = append(b, 0xff)
	}
	return ev{b, out}
}

func mp(ks []ev, vs []ev, w int) ev {
	var b []byte
	if w < 0 {
		b = []byte{0xbf}
	} else {
		b = head(5, uint64(len(vs)), w)
	}
	out := map[string]interface{}{}
	for i, v := range vs {
		b = append(append(b, ks[i].enc...), v.enc...)
		out[ks[i].val.(string)] = v.val
	}
	if w < 0 {
		b = append(b, 0xff)
	}
	return ev{b, out}
}

func half(u uint16) float64 {
	// via the bit layout of a double, independent of the reader's arithmetic
	sign := uint64(u>>15) << 63
	exp := uint64(u>>10) & 0x1f
	frac := uint64(u & 0x3ff)
	switch {
	case exp == 31:
		return math.Float64frombits(sign | 0x7ff<<52 | frac<<42)
	case exp == 0 && frac == 0:
		return math.Float64frombits(sign)
	case exp == 0:
		e := uint64(1023 - 14)
		for frac&0x400 == 0 {
			frac <<= 1
			e--
		}
		return math.Float64frombits(sign | e<<52 | (frac&0x3ff)<<42)
	}
	return math.Float64frombits(sign | (exp-15+1023)<<52 | frac<<42)
}

func f16(u uint16) ev { return ev{[]byte{0xf9, byte(u >> 8), byte(u)}, half(u)} }
func f32(f float32) ev {
	b := []byte{0xfa, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], math.Float32bits(f))
	return ev{b, float64(f)}
}
func f64(f float64) ev {
	b := make([]byte, 9)
	b[0] = 0xfb
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return ev{b, f}
}

// ---- the check ----

func eq(a, b interface{}) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && y != nil && bytes.Equal(x, y)
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y))
	}
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || y == nil {
			return false
		}
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) || y == nil {
			return false
		}
		for k := range x {
			w, ok := y[k]
			if !ok || !eq(x[k], w) {
				return false
			}
		}
		return true
	}
	return body.EqTyped(a, b)
}

func st(obj bool) *dataset.Structure {
	if obj {
		return body.St("cbor", "", body.Obj(), nil)
	}
	return body.St("cbor", "", body.Arr(), nil)
}

func show(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x…(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// cuts says that documents are also read cut short (set for the section being run).
var cuts bool

func cutting(f func()) {
	cuts = true
	defer func() { cuts = false }()
	f()
}

func check(t *kit.T, doc []byte, want []dsio.Entry, obj bool) {
	got, err := body.ReadBody(st(obj), bytes.NewReader(doc), len(want)+3)
	t.Op(1 + len(got))
	t.Trace()
	if err != nil {
		t.Failf("body %s: error %v after %s, should be %s", show(doc), err, body.ShowEntries(got), body.ShowEntries(want))
	}
	if !body.EqEntries(want, got, true, eq) {
		t.Failf("body %s\n read as %s\n should be %s", show(doc), body.ShowEntries(got), body.ShowEntries(want))
	}
	if !cuts || len(doc) > 60 {
		return
	}
	// no part of a body is a body
	for n := range doc {
		got, err := body.ReadBody(st(obj), bytes.NewReader(doc[:n]), len(want)+3)
		t.Op(1 + len(got))
		if err == nil {
			t.Failf("the first %d bytes of the body %s are read as %s, without an error", n, show(doc), body.ShowEntries(got))
		}
		if len(got) > len(want) || !body.EqEntries(want[:len(got)], got, true, eq) {
			t.Failf("the first %d bytes of the body %s are read as %s, should be part of %s", n, show(doc), body.ShowEntries(got), body.ShowEntries(want))
		}
	}
}

// top checks vs as the entries of an array and of a map body with top level width w.
func top(t *kit.T, vs []ev, w int) {
	a := arr(vs, w)
	var want []dsio.Entry
	for i, v := range vs {
		want = append(want, dsio.Entry{Index: i, Value: v.val})
	}
	check(t, a.enc, want, false)
	ks := make([]ev, len(vs))
	for i := range vs {
		k := strings.Repeat(string(rune('a'+i)), i*30+1)
		ks[i] = strv(k, true, small(uint64(len(k))))
		want[i] = dsio.Entry{Key: k, Value: vs[i].val}
	}
	check(t, mp(ks, vs, w).enc, want, true)
	t.State(a.enc)
}

func ints() (out []ev) {
	add := func(n uint64, neg bool) {
		if neg && n > math.MaxInt64 {
			return
		}
		for _, w := range widths(n) {
			out = append(out, intv(n, neg, w))
		}
	}
	for k := 0; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			n := uint64(1)<<uint(k) + uint64(d)
			add(n, false)
			add(n, true)
		}
	}
	for n := uint64(0); n < 300; n++ {
		add(n, false)
		add(n, true)
	}
	add(math.MaxUint64, false)
	return
}

func leaves() []ev {
	out := []ev{
		{[]byte{0xf4}, false}, {[]byte{0xf5}, true}, {[]byte{0xf6}, nil}, {[]byte{0xf7}, nil},
		intv(0, false, 0), intv(23, false, 0), intv(5, false, 8), intv(1000, false, 2), intv(70000, false, 4),
		intv(0, true, 0), intv(23, true, 0), intv(24, true, 1), intv(5, true, 2), intv(99999, true, 4), intv(math.MaxInt64, true, 8),
		f16(0x3e00), f32(-2.5), f64(12.34), f16(0xfc00),
		strv("", true, 0), strv("cat", true, 0), strv("é\x00z", true, 1), strv("long", true, 4),
		strv("", false, 0), strv("\x01\xff", false, 0), strv("\xff", false, 2), strv("12345678", false, 8),
		chunked(nil, true, 0), chunked([]string{"ab", "", "c"}, true, 0), chunked([]string{"x"}, true, 1),
		chunked(nil, false, 0), chunked([]string{"\xff\xff", "\x00"}, false, 2),
		arr(nil, 0), arr(nil, -1), mp(nil, nil, 0), mp(nil, nil, -1), arr(nil, 1), mp(nil, nil, 2),
	}
	return out
}

func run(r *kit.Run) {
	is := ints()
	r.Explore("integers", func(c *kit.C) func(t *kit.T) {
		v := is[c.Choose(len(is))]
		w := kit.Pick(c, []int{0, 1, 2, 4, 8, -1})
		return func(t *kit.T) { cutting(func() { top(t, []ev{v, intv(7, false, 0), v}, w) }) }
	})
	r.Explore("negative integers beyond 64 bits", func(c *kit.C) func(t *kit.T) {
		k := 63 + c.Choose(2)
		d := uint64(c.Choose(6))
		n := uint64(1)<<63 + d
		if k == 64 {
			n = math.MaxUint64 - d
		}
		where := c.Choose(5)
		return func(t *kit.T) {
			v := head(1, n, 8)
			obj := false
			doc := append([]byte{0x82, 7}, v...)
			switch where {
			case 1:
				doc = append(append([]byte{0x9f}, v...), 0xff)
			case 2:
				doc = append([]byte{0x81, 0x81}, v...)
			case 3:
				doc, obj = append([]byte{0xa1, 0x61, 'a'}, v...), true
			case 4:
				doc, obj = append([]byte{0xa1, 0x61, 'a', 0xa1, 0x61, 'b', 0xc1}, v...), true
			}
			got, err := body.ReadBody(st(obj), bytes.NewReader(doc), 5)
			t.Op(1)
			t.Trace()
			if err == nil {
				t.Failf("body %s holds the integer -1-%d, which is read as %s", show(doc), n, body.ShowEntries(got))
			}
			t.State(doc)
		}
	})
	r.Explore("half floats", func(c *kit.C) func(t *kit.T) {
		hi := c.Choose(256)
		return func(t *kit.T) {
			for lo := 0; lo < 256; lo++ {
				top(t, []ev{f16(uint16(hi<<8 | lo)), {[]byte{0xf5}, true}}, 0)
			}
		}
	})
	r.Explore("floats", func(c *kit.C) func(t *kit.T) {
		e := c.Choose(256)
		return func(t *kit.T) {
			for _, frac := range []uint32{0, 1, 0x400000, 0x7fffff, 0x2aaaaa} {
				for _, s := range []uint32{0, 1 << 31} {
					top(t, []ev{f32(math.Float32frombits(s | uint32(e)<<23 | frac)), f64(1)}, -1)
				}
			}
			for i := 0; i < 8; i++ {
				for _, frac := range []uint64{0, 1, 1 << 51, 1<<52 - 1} {
					top(t, []ev{f64(math.Float64frombits(uint64(e*8+i)<<52 | frac)), f64(math.Float64frombits(1<<63 | uint64(e*8+i)<<52 | frac))}, 0)
				}
			}
		}
	})
	lv := leaves()
	r.Explore("entry sequences", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(2, 3))
		vs := make([]ev, n)
		for i := range vs {
			vs[i] = lv[c.Choose(len(lv))]
		}
		w := kit.Pick(c, []int{0, 1, 2, 4, 8, -1})
		return func(t *kit.T) { cutting(func() { top(t, vs, w) }) }
	})
	r.Explore("nested containers", func(c *kit.C) func(t *kit.T) {
		bad := false
		var gen func(d int) ev
		gen = func(d int) ev {
			if d == 0 {
				return lv[c.Choose(len(lv))]
			}
			ws := []int{0, 1, 8, -1}
			w := kit.Pick(c, ws)
			n := c.Choose(3)
			isMap := c.Bool()
			vs := make([]ev, n)
			ks := make([]ev, n)
			for i := range vs {
				if i == 0 {
					vs[i] = gen(d - 1)
				} else {
					vs[i] = lv[(c.Choose(4)*9)%len(lv)]
				}
				if i == 0 {
					ks[i] = []ev{strv("k", true, 0), chunked([]string{"k", "ey"}, true, 0), strv("", true, 0), strv("wide", true, 4)}[c.Choose(4)]
				} else {
					ks[i] = strv(fmt.Sprintf("k%d", i), true, 0)
				}
			}
			if isMap {
				return mp(ks, vs, w)
			}
			for i := range ks {
				if i == 0 && !bytes.Equal(ks[0].enc, strv("k", true, 0).enc) {
					bad = true // only one key spelling matters for arrays
				}
			}
			return arr(vs, w)
		}
		d := c.Range(1, 2)
		v := gen(d)
		if bad {
			return nil
		}
		return func(t *kit.T) {
			if d > 1 && !r.Thorough {
				top(t, []ev{v, intv(9, true, 0)}, 0)
				return
			}
			cutting(func() { top(t, []ev{v, intv(9, true, 0)}, 0) })
		}
	})
	r.Explore("tags", func(c *kit.C) func(t *kit.T) {
		v := lv[c.Choose(len(lv))]
		tag := kit.Pick(c, []uint64{0, 1, 23, 24, 255, 256, 55799, 1 << 40})
		ws := widths(tag)
		w := kit.Pick(c, ws)
		deep := c.Bool()
		return func(t *kit.T) {
			e := ev{append(head(6, tag, w), v.enc...), v.val}
			if deep {
				e = ev{append(head(6, 2, 0), e.enc...), e.val}
				e = arr([]ev{e, v}, -1)
			}
			cutting(func() { top(t, []ev{e, intv(3, false, 0)}, 0) })
		}
	})
	lens := []int{0, 1, 22, 23, 24, 25, 254, 255, 256, 257, 4080, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 300000}
	r.Explore("lengths", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, lens)
		kind := c.Choose(6)
		pre := kit.Pick(c, []int{0, 1, 100, 4000})
		ws := widths(uint64(n))
		w := kit.Pick(c, ws)
		if (kind == 3 || kind == 4) && n > 5000 && (n > 70000 || pre != 1 || w == 8) {
			return nil
		}
		return func(t *kit.T) {
			s := strings.Repeat("0123456789abcdef", n/16+1)[:n]
			var v ev
			switch kind {
			case 0:
				v = strv(s, true, w)
			case 1:
				v = strv(s, false, w)
			case 2: // split in two chunks at the middle
				v = chunked([]string{s[:n/2], s[n/2:]}, true, small(uint64(n)))
			case 3:
				vs := make([]ev, n)
				for i := range vs {
					vs[i] = intv(uint64(i%24), false, 0)
				}
				v = arr(vs, w)
			case 4:
				vs, ks := make([]ev, n), make([]ev, n)
				for i := range vs {
					vs[i] = intv(uint64(i%24), true, 0)
					ks[i] = strv(fmt.Sprintf("%06d", i), true, 0)
				}
				v = mp(ks, vs, w)
			default: // a long key
				v = mp([]ev{strv(s, true, w)}, []ev{intv(1, false, 0)}, 0)
			}
			p := strv(strings.Repeat("p", pre), false, small(uint64(pre)))
			top(t, []ev{p, v, p, v, p}, 0)
		}
	})
	r.Explore("entry counts", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 1, 22, 23, 24, 25, 255, 256, 4095, 4096, 65535, 65536})
		ws := append([]int{-1}, widths(uint64(n))...)
		w := kit.Pick(c, ws)
		return func(t *kit.T) {
			vs := make([]ev, n)
			want := make([]dsio.Entry, n)
			for i := range vs {
				vs[i] = intv(uint64(i), i%2 == 1, small(uint64(i)))
				want[i] = dsio.Entry{Index: i, Value: vs[i].val}
			}
			check(t, arr(vs, w).enc, want, false)
		}
	})
	r.Explore("values survive further reading", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{1, 10, 1000, 4000, 4096, 5000})
		k := kit.Pick(c, []int{2, 5, 9})
		return func(t *kit.T) {
			var vs []ev
			for i := 0; i < k; i++ {
				s := strings.Repeat(string(rune('A'+i)), n)
				vs = append(vs, strv(s, false, small(uint64(n))), arr([]ev{strv(s, false, small(uint64(n))), chunked([]string{s, s}, false, small(uint64(n)))}, 0))
			}
			top(t, vs, 0)
		}
	})
	beyond(r)
}
