// C14: a truncated or failing source is never mistaken for a complete body.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C14", Level: "fault_enumeration",
		Rule:   "every document of the corpus, in every format, compression and setting, read from a source that fails at every offset (with each of several errors, alone or with the last data, at several chunk sizes) and from a source that ends at every offset, through the entry reader, a page, ReadAll, Copy, ConvertFile, validation and detection",
		Bounds: "documents up to 350 bytes at every offset, larger ones (up to 400 KB) at every offset near the start, the end and the buffer sizes and at a stride between; one fault for each execution",
		Assume: []string{"a source reports its failure to the read that hits it and to every later one, or once and then goes on (entry readers)"},
		Body:   run})
}

type doc struct {
	name   string
	st     *dataset.Structure
	data   []byte
	plain  int // length of the document up to where it is complete (uncompressed self delimiting formats)
	full   []dsio.Entry
	selfed bool // the document says itself where it ends
	exact  bool // entries come back whole or not at all
}

func comp(c string, data []byte) []byte {
	if c == "" {
		return data
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(c, buf)
	if err != nil {
		panic(err)
	}
	w.Write(data)
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func mk(name, format, c string, schema, cfg map[string]interface{}, text string) *doc {
	d := &doc{name: name, st: body.St(format, c, schema, cfg), selfed: format == "json" || format == "cbor" || format == "xlsx", exact: format != "json"}
	d.data = comp(c, []byte(text))
	d.plain = len(d.data)
	if c == "" && format == "json" {
		d.plain = len(strings.TrimRight(text, " \r\n\t"))
	}
	es, err := body.ReadBody(d.st, bytes.NewReader(d.data), 1<<20)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", name, err))
	}
	d.full = es
	return d
}

func written(name, format, c string, schema, cfg map[string]interface{}, es []dsio.Entry) *doc {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(body.St(format, "", schema, cfg), buf, es); err != nil {
		panic(err)
	}
	return mk(name, format, c, schema, cfg, buf.String())
}

func rows(n, pad int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		es[i] = dsio.Entry{Index: i, Key: fmt.Sprintf("k%d", i), Value: []interface{}{int64(i), "é\"\n" + strings.Repeat("x", (pad*i)%71), true}}
	}
	return es
}

func small() (out []*doc) {
	hdr := map[string]interface{}{"headerRow": true}
	tbl := func() map[string]interface{} { return body.Table("integer", "string", "boolean") }
	for _, c := range []string{"", "gzip", "zst"} {
		out = append(out,
			mk("json array", "json", c, body.Arr(), nil, `[1, "a\n\u00e9", [true, {"b": null}], -2.5e3, {}, []]`+"\n"),
			mk("json empty array", "json", c, body.Arr(), nil, `[]`),
			mk("json object", "json", c, body.Obj(), nil, "{\n  \"a\": [1, 2],\n  \"b\": {\"c\": \"d\"},\n \"e\": false\n}"),
			mk("ndjson", "ndjson", c, body.Arr(), nil, "[1,2]\n{\"a\":\"b\"}\n\"x\"\n3.5\n"),
			mk("ndjson no last newline", "ndjson", c, body.Arr(), nil, "1\ntrue"),
			mk("csv", "csv", c, tbl(), nil, "1,a,true\n2,\"b\n\"\"c\",false\n3,,true\n"),
			mk("csv header, CR, no last line end", "csv", c, tbl(), hdr, "i,s,b\r1,a,true\r2,b,false"),
			written("cbor array", "cbor", c, body.Arr(), nil, []dsio.Entry{{Value: int64(1)}, {Value: "abc"}, {Value: []interface{}{1.5, nil, map[string]interface{}{"k": "v"}}}, {Value: int64(-70000)}, {Value: []byte{1, 2, 3}}}),
			written("cbor object", "cbor", c, body.Obj(), nil, []dsio.Entry{{Key: "a", Value: int64(1)}, {Key: "bb", Value: []interface{}{"x"}}, {Key: "ccc", Value: true}}),
			mk("cbor indefinite array", "cbor", c, body.Arr(), nil, "\x9f\x01\x9f\x02\x5f\x41a\x41b\xff\xff\xbf\x61k\x03\xff\xff"),
			mk("cbor indefinite object", "cbor", c, body.Obj(), nil, "\xbf\x61a\x01\x61b\x82\x02\x7f\x61x\xff\xff"),
		)
	}
	return
}

// ends are bodies that end in every kind of value.
func ends() (out []*doc) {
	vals := []interface{}{int64(0), int64(23), int64(24), int64(255), int64(256), int64(70000), int64(1) << 40, int64(-1), int64(-25), int64(-300), int64(-70000), int64(-1) << 40, uint64(1)<<63 + 5, 1.5, -2e300,
		"", "a", "twenty-four characters..", strings.Repeat("é", 150), true, false, nil, []interface{}{}, []interface{}{int64(1000)}, []interface{}{[]interface{}{"x"}},
		map[string]interface{}{}, map[string]interface{}{"k": int64(1000)}, map[string]interface{}{"k": map[string]interface{}{"twenty-four characters..": nil}}}
	for i, v := range vals {
		for _, f := range []string{"json", "cbor"} {
			for n := 0; n < 2; n++ {
				es := []dsio.Entry{{Key: "a", Value: "first"}, {Key: "b", Value: v}}
				if n == 0 {
					es = es[1:]
				}
				out = append(out, written(fmt.Sprintf("%s ending in value %d", f, i), f, "", body.Arr(), nil, es),
					written(fmt.Sprintf("%s object ending in value %d", f, i), f, "", body.Obj(), nil, es))
			}
		}
	}
	for _, x := range []string{"\x61z", "\x78\x01z", "\x79\x00\x01z", "\x42\x00\xff", "\x59\x00\x01y", "\x5f\x41a\xff", "\x7f\x61a\xff", "\x9f\xff", "\xbf\xff", "\xbf\x61a\x18\x20\xff", "\xf9\x3e\x00", "\xfa\x40\x00\x00\x00", "\xf7",
		"\x18\x05", "\x19\x00\x05", "\x1a\x00\x00\x00\x05", "\x1b\x00\x00\x00\x00\x00\x00\x00\x05", "\x38\x05", "\x3b\x00\x00\x00\x00\x00\x00\x00\x05", "\x98\x01\x05", "\xb8\x01\x61a\x05", "\xc1\x19\x01\x00"} {
		for _, top := range []string{"\x81", "\x98\x01", "\x9f", "\xa1", "\xb9\x00\x01", "\xbf"} {
			sch, text := body.Arr(), top+x
			if top[0] >= 0xa0 {
				sch, text = body.Obj(), top+"\x61k"+x
			}
			if top[0]&0x1f == 0x1f {
				text += "\xff"
			}
			out = append(out, mk(fmt.Sprintf("cbor %x", text), "cbor", "", sch, nil, text))
		}
	}
	return
}

func large() (out []*doc) {
	for _, c := range []string{"", "gzip", "zst"} {
		for _, n := range []int{400, 3500} {
			out = append(out,
				written(fmt.Sprintf("%d row json array", n), "json", c, body.Arr(), nil, rows(n, 13)),
				written(fmt.Sprintf("%d row json object", n), "json", c, body.Obj(), nil, rows(n, 13)),
				written(fmt.Sprintf("%d row ndjson", n), "ndjson", c, body.Arr(), nil, rows(n, 13)),
				written(fmt.Sprintf("%d row csv", n), "csv", c, body.Table("integer", "string", "boolean"), map[string]interface{}{"headerRow": true}, rows(n, 13)),
				written(fmt.Sprintf("%d row cbor", n), "cbor", c, body.Arr(), nil, rows(n, 13)),
			)
		}
	}
	return
}

func xlsx() []*doc {
	return []*doc{
		written("xlsx", "xlsx", "", body.Table("integer", "string", "boolean"), nil, rows(3, 1)),
		written("xlsx sheet", "xlsx", "", body.Table("integer", "string", "boolean"), map[string]interface{}{"sheetName": "Data"}, rows(40, 7)),
	}
}

// judge decides whether a read that ended with err after es is right for a
// source that stopped at off (failing: with an error, else with end of file).
func judge(t *kit.T, d *doc, what string, off int, failing bool, es []dsio.Entry, err error) {
	if err == nil {
		ok := false
		switch {
		case d.selfed:
			// whoever stops at the end of the document itself may not see what comes after
			ok = len(es) == len(d.full)
			if d.st.Compression == "" && off < d.plain {
				ok = false
			}
		case !failing && d.st.Compression == "":
			ok = true // a line oriented text may end anywhere
		case d.st.Compression == "zst" && off == len(d.data) && strings.Contains(what, io.ErrUnexpectedEOF.Error()):
			ok = true // the body is complete; the decoder does not tell this from the end of the stream
		case !failing && d.st.Compression == "zst" && off == 0:
			ok = true // no frames at all is an empty stream
		}
		if !ok {
			t.Failf("%s (%d bytes, %d entries), %s at %d: a clean end after %d entries", d.name, len(d.data), len(d.full), what, off, len(es))
		}
	}
	if !failing && d.st.Compression == "" && !d.selfed {
		return // what is left is another text
	}
	k := len(es)
	if !d.exact && err != nil && k > 0 {
		k-- // the value the cut fell into or before
	}
	if k > len(d.full) {
		t.Failf("%s, %s at %d: %d entries of a body of %d", d.name, what, off, k, len(d.full))
	}
	for i := 0; i < k; i++ {
		if es[i].Key != d.full[i].Key || es[i].Index != d.full[i].Index || !body.EqTyped(es[i].Value, d.full[i].Value) {
			t.Failf("%s, %s at %d: entry %d is %s, want %s", d.name, what, off, i, body.Show(es[i].Value), body.Show(d.full[i].Value))
		}
	}
	t.Op(len(es) + 1)
	t.State(d.name, d.st.Compression, off, failing, len(es))
}

type eofish struct{}

func (eofish) Error() string { return "read tcp: connection reset by peer" }

var faults = []error{body.ErrFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, eofish{}, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF)}

// offsets of interest in a large document
func offsets(n int, thorough bool) []int {
	set := map[int]bool{}
	add := func(x int) {
		if x >= 0 && x <= n {
			set[x] = true
		}
	}
	for i := 0; i < 12; i++ {
		add(i)
		add(n - i)
	}
	for _, b := range []int{100, 4096, 8192, 65536, 128 * 1024, 256 * 1024} {
		for i := -2; i <= 2; i++ {
			add(b + i)
		}
	}
	step := n / 40
	if thorough {
		step = n / 1000
	}
	if step == 0 {
		step = 1
	}
	for i := 0; i < n; i += step {
		add(i)
	}
	var out []int
	for i := 0; i <= n; i++ {
		if set[i] {
			out = append(out, i)
		}
	}
	return out
}

func file(d *doc, src io.Reader) qfs.File {
	name := "body." + d.st.Format
	switch d.st.Compression {
	case "gzip":
		name += ".gz"
	case "zst":
		name += ".zst"
	}
	return qfs.NewMemfileReader(name, src)
}

func run(r *kit.Run) {
	sm := small()
	r.Explore("failing source", func(c *kit.C) func(t *kit.T) {
		d := sm[c.Choose(len(sm))]
		off := c.Range(0, len(d.data))
		chunk := kit.Pick(c, []int{0, 1, 7})
		together := c.Bool()
		f := c.Choose(len(faults))
		if f > 0 && chunk == 1 && !r.Thorough {
			return nil
		}
		return func(t *kit.T) {
			src := &body.Source{Data: d.data, Chunk: chunk, Fail: off, Together: together, Err: faults[f]}
			es, err := body.ReadBody(d.st, src, 1<<20)
			judge(t, d, fmt.Sprintf("source failing (%v) in chunks of %d", faults[f], chunk), off, true, es, err)
			t.Trace()
		}
	})
	// a source that fails once and then goes on: nothing may be lost without an error
	r.Explore("source failing once", func(c *kit.C) func(t *kit.T) {
		d := sm[c.Choose(len(sm))]
		off := c.Range(0, len(d.data))
		chunk := kit.Pick(c, []int{0, 1, 7})
		f := c.Choose(2)
		return func(t *kit.T) {
			es, err := body.ReadBody(d.st, &body.Source{Data: d.data, Chunk: chunk, Fail: off, Err: faults[f], Once: true}, 1<<20)
			if err == nil && body.EqEntries(es, d.full, true, body.EqTyped) {
				t.Op(len(es) + 1)
			} else {
				judge(t, d, fmt.Sprintf("source failing once (%v) in chunks of %d", faults[f], chunk), off, true, es, err)
			}
			t.Trace()
		}
	})
	r.Explore("truncated source", func(c *kit.C) func(t *kit.T) {
		d := sm[c.Choose(len(sm))]
		if len(d.data) == 0 {
			return nil
		}
		off := c.Range(0, len(d.data)-1)
		chunk := kit.Pick(c, []int{0, 1, 7})
		together := c.Bool()
		return func(t *kit.T) {
			es, err := body.ReadBody(d.st, body.NewSource(d.data[:off], chunk, together), 1<<20)
			judge(t, d, fmt.Sprintf("source ending in chunks of %d", chunk), off, false, es, err)
			t.Trace()
		}
	})
	el := ends()
	r.Explore("last values", func(c *kit.C) func(t *kit.T) {
		d := el[c.Choose(len(el))]
		failing := c.Bool()
		once := failing && c.Bool()
		off := c.Range(0, len(d.data)-1)
		chunk := kit.Pick(c, []int{0, 1})
		return func(t *kit.T) {
			src := body.NewSource(d.data[:off], chunk, false)
			if failing {
				src = &body.Source{Data: d.data, Chunk: chunk, Fail: off, Err: body.ErrFault, Once: once}
			}
			es, err := body.ReadBody(d.st, src, 1<<20)
			if once && err == nil && body.EqEntries(es, d.full, true, body.EqTyped) {
				t.Trace()
				return
			}
			judge(t, d, fmt.Sprintf("source stopping (with an error %v) in chunks of %d", failing, chunk), off, failing, es, err)
			t.Trace()
		}
	})
	// every consumer of a body reports what the reader reports
	r.Explore("consumers", func(c *kit.C) func(t *kit.T) {
		d := sm[c.Choose(len(sm))]
		off := c.Range(0, len(d.data))
		failing := c.Bool()
		kind := c.Choose(6)
		return func(t *kit.T) {
			open := func() io.Reader {
				if failing {
					return &body.Source{Data: d.data, Fail: off, Chunk: 5}
				}
				return body.NewSource(d.data[:off], 5, false)
			}
			var es []dsio.Entry
			ref, rerr := dsio.NewEntryReader(d.st, open())
			if rerr == nil {
				es, rerr = body.Drain(ref, 1<<20)
			}
			t.Op(len(es) + 1)
			t.Trace()
			what := ""
			var err error
			switch kind {
			case 0:
				what = "ReadAll"
				rd, e := dsio.NewEntryReader(d.st, open())
				if err = e; err == nil {
					_, err = dsio.ReadAll(rd)
				}
			case 1:
				what = "Copy"
				rd, e := dsio.NewEntryReader(d.st, open())
				if err = e; err == nil {
					tlt, _ := dsio.GetTopLevelType(d.st)
					sch := body.Arr()
					if tlt == "object" {
						sch = body.Obj()
					}
					w, _ := dsio.NewEntryWriter(body.St("json", "", sch, nil), io.Discard)
					err = dsio.Copy(rd, w)
				}
			case 2, 3:
				what = fmt.Sprintf("ConvertFile all=%v", kind == 2)
				tlt, _ := dsio.GetTopLevelType(d.st)
				sch := body.Arr()
				if tlt == "object" {
					sch = body.Obj()
				}
				var b []byte
				b, err = dsio.ConvertFile(file(d, open()), d.st, body.St("json", "", sch, nil), -1, 0, kind == 2)
				if err != nil && len(b) > 0 {
					t.Failf("%s, ConvertFile failed at %d with %v and still gave %q", d.name, off, err, b)
				}
			case 4:
				what = "paged reader"
				rd, e := dsio.NewEntryReader(d.st, open())
				if err = e; err == nil {
					_, err = body.Drain(&dsio.PagedReader{Reader: rd, Limit: 1 << 20}, 1<<20)
				}
			case 5:
				what = "validation"
				rd, e := dsio.NewEntryReader(d.st, open())
				if err = e; err == nil {
					_, err = validate.EntryReader(rd)
				}
			}
			if (rerr == nil) != (err == nil) {
				t.Failf("%s, source stopping (failing %v) at %d: reading reports %v after %d entries, %s reports %v", d.name, failing, off, rerr, len(es), what, err)
			}
		}
	})
	r.Explore("detection", func(c *kit.C) func(t *kit.T) {
		d := sm[c.Choose(len(sm))]
		off := c.Range(0, len(d.data))
		chunk := kit.Pick(c, []int{0, 1, 7})
		together := c.Bool()
		return func(t *kit.T) {
			ds := &dataset.Dataset{}
			ds.SetBodyFile(file(d, &body.Source{Data: d.data, Fail: off, Chunk: chunk, Together: together}))
			err := detect.Structure(ds)
			t.Op(1)
			t.Trace()
			must := false
			switch d.st.Format {
			case "csv":
				must = true // the whole of a short file is sampled
			case "json", "cbor":
				// without its first character nothing can be said
				must = d.st.Compression == "" && off == 0
			}
			if must && err == nil {
				t.Failf("%s, source failing at %d: detected %v", d.name, off, ds.Structure)
			}
			// and the file still holds what could be read, and fails there
			got, rerr := io.ReadAll(ds.BodyFile())
			if !bytes.Equal(got, d.data[:off]) || rerr == nil {
				t.Failf("%s, source failing at %d: after detection (error %v) the body file gives %d bytes, error %v", d.name, off, err, len(got), rerr)
			}
			if !errors.Is(rerr, body.ErrFault) {
				t.Failf("%s, source failing at %d: after detection the body file reports %v", d.name, off, rerr)
			}
			t.State("detect", d.name, d.st.Compression, off)
		}
	})
	lg := large()
	r.Explore("large bodies", func(c *kit.C) func(t *kit.T) {
		d := lg[c.Choose(len(lg))]
		off := kit.Pick(c, offsets(len(d.data), r.Thorough))
		failing := c.Bool()
		if !failing && off == len(d.data) {
			return nil
		}
		return func(t *kit.T) {
			var src io.Reader = body.NewSource(d.data[:off], 0, false)
			if failing {
				src = &body.Source{Data: d.data, Fail: off, Chunk: 3000}
			}
			es, err := body.ReadBody(d.st, src, 1<<20)
			judge(t, d, fmt.Sprintf("source stopping (failing %v)", failing), off, failing, es, err)
			t.Trace()
		}
	})
	xl := xlsx()
	r.Explore("spreadsheets", func(c *kit.C) func(t *kit.T) {
		d := xl[c.Choose(len(xl))]
		step := r.T0(7, 1)
		off := c.Choose((len(d.data)-1)/step+1) * step
		failing := c.Bool()
		return func(t *kit.T) {
			var src io.Reader = body.NewSource(d.data[:off], 0, false)
			if failing {
				src = &body.Source{Data: d.data, Fail: off}
			}
			es, err := body.ReadBody(d.st, src, 1<<20)
			if err == nil {
				t.Failf("%s (%d bytes), source stopping at %d (failing %v): a clean end after %d entries", d.name, len(d.data), off, failing, len(es))
			}
			t.Op(1)
			t.Trace()
			t.State(d.name, off, failing)
		}
	})
	// without faults there is no error
	r.Explore("no fault", func(c *kit.C) func(t *kit.T) {
		all := append(append(append([]*doc{}, sm...), lg...), xl...)
		d := all[c.Choose(len(all))]
		chunk := kit.Pick(c, []int{0, 1, 7, 4096})
		return func(t *kit.T) {
			es, err := body.ReadBody(d.st, body.NewSource(d.data, chunk, true), 1<<20)
			if err != nil || !body.EqEntries(es, d.full, true, body.EqTyped) {
				t.Failf("%s read without fault: %d of %d entries, error %v", d.name, len(es), len(d.full), err)
			}
			t.Op(len(es))
			t.Trace()
		}
	})
}
