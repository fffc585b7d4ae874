// C10: JSON, NDJSON and CBOR bodies survive writing and reading.
package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C10", Level: "model_checking",
		Rule:   "every sequence of entries over the value alphabet, written entry by entry through every writer (format, pretty setting, compression, top level type, entry buffer) and read back by the matching reader",
		Bounds: "sequences of up to 3 entries of 34 values (4 thorough) without compression, 1 (2) with; nested values of depth 2; bodies up to 6000 entries; strings up to 600 KB",
		Body:   run})
}

type cfg struct {
	format, comp, indent string
	obj, buffer          bool
}

func (c cfg) String() string {
	return fmt.Sprintf("format=%s compression=%q indent=%q object=%v entrybuffer=%v", c.format, c.comp, c.indent, c.obj, c.buffer)
}

func values() []interface{} {
	return []interface{}{
		nil, true, false, 0, int64(1), int64(-1), int64(23), int64(24), int64(-25), int64(256), int64(70000), int64(1) << 33, int64(1) << 53, -(int64(1) << 53),
		0.5, -2.25, 1e300, 5e-324, float64(3), 1e21, math.MaxFloat64, 0.1,
		"", "a", "é😀\u2028", "q\"\\/\b\f\n\r\t\x00\x7f<&>", "null", "1",
		[]interface{}{}, []interface{}{nil, "x", int64(2)}, []interface{}{[]interface{}{[]interface{}{}}, map[string]interface{}{"k": []interface{}{false}}},
		map[string]interface{}{}, map[string]interface{}{"a": int64(1), "b": nil, "": "empty"}, map[string]interface{}{"é\n": map[string]interface{}{"n": []interface{}{1.5}}},
	}
}

// only values that the format keeps exactly
func big() []interface{} {
	return []interface{}{int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<53 + 1, -(int64(1)<<53 + 1)}
}

func cfgs(comps []string) (out []cfg) {
	for _, comp := range comps {
		for _, f := range []string{"json", "ndjson", "cbor"} {
			for _, obj := range []bool{false, true} {
				if f == "ndjson" && obj {
					continue
				}
				for _, buffer := range []bool{false, true} {
					out = append(out, cfg{f, comp, "", obj, buffer})
				}
				if f == "json" {
					out = append(out, cfg{f, comp, " ", obj, false}, cfg{f, comp, "\t", obj, false})
				}
			}
		}
	}
	return
}

func roundtrip(t *kit.T, c cfg, es []dsio.Entry) {
	schema := body.Arr()
	if c.obj {
		schema = body.Obj()
	}
	st := body.St(c.format, c.comp, schema, nil)
	in := body.CloneEntries(es)
	var got []dsio.Entry
	var err error
	var raw []byte
	if c.buffer {
		b, err := dsio.NewEntryBuffer(st)
		if err != nil {
			t.Failf("%v: entry buffer: %v", c, err)
		}
		for i, e := range in {
			if err := b.WriteEntry(e); err != nil {
				t.Failf("%v: writing entry %d of %s: %v", c, i, body.ShowEntries(es), err)
			}
		}
		if err := b.Close(); err != nil {
			t.Failf("%v: close: %v", c, err)
		}
		raw = append(raw, b.Bytes()...)
		got, err = body.Drain(b, len(es)+2)
		if err != nil {
			t.Failf("%v: reading %q after %d of %d entries: %v", c, cut(raw), len(got), len(es), err)
		}
	} else {
		buf := &bytes.Buffer{}
		var w dsio.EntryWriter
		if c.indent != "" {
			w, err = dsio.NewJSONPrettyWriter(st, buf, c.indent)
		} else {
			w, err = dsio.NewEntryWriter(st, buf)
		}
		if err != nil {
			t.Failf("%v: writer: %v", c, err)
		}
		for i, e := range in {
			if err := w.WriteEntry(e); err != nil {
				t.Failf("%v: writing entry %d of %s: %v", c, i, body.ShowEntries(es), err)
			}
		}
		if err := w.Close(); err != nil {
			t.Failf("%v: close: %v", c, err)
		}
		raw = append(raw, buf.Bytes()...)
		got, err = body.ReadBody(st, buf, len(es)+2)
		if err != nil {
			t.Failf("%v: reading %q after %d of %d entries: %v", c, cut(raw), len(got), len(es), err)
		}
	}
	t.Op(2*len(es) + 2)
	t.Trace()
	want := append([]dsio.Entry{}, es...)
	for i := range want {
		want[i].Index = i
		if c.obj {
			want[i].Index = got0(got, i)
		}
	}
	if c.obj && c.format == "cbor" {
		// the canonical encoding orders keys: the same entries, each key once
		sort.Slice(want, func(i, j int) bool { return want[i].Key < want[j].Key })
		got = append([]dsio.Entry{}, got...)
		sort.SliceStable(got, func(i, j int) bool { return got[i].Key < got[j].Key })
	}
	if !body.EqEntries(want, got, !c.obj, body.Eq) {
		t.Failf("%v: wrote %s\n read back %s\n bytes %q", c, body.ShowEntries(want), body.ShowEntries(got), cut(raw))
	}
	t.State(c.format, c.obj, raw)
}

func got0(es []dsio.Entry, i int) int {
	if i < len(es) {
		return es[i].Index
	}
	return 0
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func entries(vs []interface{}, obj bool, keys []string) []dsio.Entry {
	es := make([]dsio.Entry, len(vs))
	for i, v := range vs {
		es[i].Value = v
		if obj {
			es[i].Key = keys[i]
		} else {
			es[i].Index = i
		}
	}
	return es
}

var keys = []string{"b", "a", "é\"<\n", "0", "aa"}

func run(r *kit.Run) {
	vs := values()
	plain := cfgs([]string{""})
	r.Explore("sequences", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, plain)
		n := c.Range(0, r.T0(3, 4))
		seq := make([]interface{}, n)
		for i := range seq {
			seq[i] = vs[c.Choose(len(vs))]
		}
		return func(t *kit.T) { roundtrip(t, f, entries(seq, f.obj, keys)) }
	})
	comp := cfgs([]string{"gzip", "gz", "zst", "zstd"})
	r.Explore("compressed sequences", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, comp)
		n := c.Range(0, r.T0(1, 2))
		seq := make([]interface{}, n)
		for i := range seq {
			seq[i] = vs[c.Choose(len(vs))]
		}
		return func(t *kit.T) { roundtrip(t, f, entries(seq, f.obj, keys)) }
	})
	all := append(append([]cfg{}, plain...), comp...)
	r.Explore("large integers", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, all)
		v := kit.Pick(c, big())
		return func(t *kit.T) {
			roundtrip(t, f, entries([]interface{}{v, []interface{}{v}, map[string]interface{}{"v": v}}, f.obj, keys))
		}
	})
	r.Explore("key orders", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, plain)
		if !f.obj {
			return nil
		}
		// every permutation of the keys
		rest := append([]string{}, keys...)
		var ks []string
		n := c.Range(1, 5)
		for i := 0; i < n; i++ {
			j := c.Choose(len(rest))
			ks = append(ks, rest[j])
			rest = append(append([]string{}, rest[:j]...), rest[j+1:]...)
		}
		return func(t *kit.T) {
			seq := make([]interface{}, n)
			for i := range seq {
				seq[i] = fmt.Sprintf("v%d", i)
			}
			roundtrip(t, f, entries(seq, true, ks))
		}
	})
	r.Explore("byte strings in CBOR", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, all)
		if f.format != "cbor" {
			return nil
		}
		n := kit.Pick(c, []int{0, 1, 23, 24, 255, 256, 4096, 5000, 70000})
		return func(t *kit.T) {
			b := bytes.Repeat([]byte{0, 0xff, 0x80, 7}, n/4+1)[:n]
			roundtrip(t, f, entries([]interface{}{b, []interface{}{b, "t"}, int64(1)}, f.obj, keys))
		}
	})
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, all)
		kind := c.Choose(2)
		sizes := []int{23, 24, 255, 256, 4094, 4095, 4096, 4097, 65536, 256*1024 - 2, 256 * 1024, 600000}
		if kind == 1 {
			sizes = []int{3, 23, 24, 100, 256, 1000, 5000, 6000}
		}
		n := kit.Pick(c, sizes)
		return func(t *kit.T) {
			if kind == 0 {
				s := strings.Repeat("0123456789é\n\"x<>", n/16+1)[:n]
				s = strings.ToValidUTF8(s, "?")
				roundtrip(t, f, entries([]interface{}{s, int64(1), s, []interface{}{s}}, f.obj, keys))
				return
			}
			seq, ks := make([]interface{}, n), make([]string, n)
			for i := range seq {
				seq[i] = []interface{}{int64(i), fmt.Sprintf("row %d", i), float64(i) / 4, i%2 == 0, nil}
				ks[i] = fmt.Sprintf("key%05d", (i*7919)%n*10+i%7)
			}
			seen := map[string]bool{}
			for i := range ks {
				for seen[ks[i]] {
					ks[i] += "'"
				}
				seen[ks[i]] = true
			}
			roundtrip(t, f, entries(seq, f.obj, ks))
		}
	})
	r.Explore("reading while the last line has no newline", func(c *kit.C) func(t *kit.T) {
		v := vs[c.Choose(len(vs))]
		comp := kit.Pick(c, []string{"", "gzip", "zst"})
		tail := kit.Pick(c, []string{"", "\n", "\r\n", " ", " \n", "\n ", "\n\t", "\r\n \r", " \n \t "})
		return func(t *kit.T) {
			st := body.St("ndjson", "", body.Arr(), nil)
			buf := &bytes.Buffer{}
			if err := body.WriteBody(st, buf, entries([]interface{}{v, v}, false, nil)); err != nil {
				t.Failf("%v", err)
			}
			raw := append(bytes.TrimSuffix(buf.Bytes(), []byte("\n")), tail...)
			st.Compression = comp
			got, err := body.ReadBody(st, bytes.NewReader(compress(t, comp, raw)), 4)
			t.Op(2)
			t.Trace()
			if err != nil || !body.EqEntries(entries([]interface{}{v, v}, false, nil), got, true, body.Eq) {
				t.Failf("NDJSON %q (compression %q) read as %s, error %v", raw, comp, body.ShowEntries(got), err)
			}
		}
	})
}
