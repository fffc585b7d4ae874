// C15: a write that failed is always reported.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/stepfile"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C15", Level: "fault_enumeration",
		Rule:   "every document of the corpus written through every writer (format, setting, compression, pretty printing, Copy, step files, compressors) to a destination that fails at every byte offset, for good or only once, accepting the part before the offset; some call up to and including Close has to report an error",
		Bounds: "documents up to 800 bytes at every offset, larger ones (up to 400 KB) at every offset near the start, the end and the buffer sizes and at a stride between; one fault for each execution",
		Assume: []string{"a destination that accepts less than it was given says so with an error"},
		Body:   run})
}

type writer struct {
	name  string
	write func(w io.Writer) error // first error of any call up to and including Close
}

func entries(format string, obj bool, n, pad int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		es[i] = dsio.Entry{Index: i, Value: []interface{}{int64(i), "é\"\n" + strings.Repeat("x", pad*i%(pad+3)), i%2 == 0}}
		if obj {
			es[i].Key = fmt.Sprintf("k%d", i)
		}
	}
	return es
}

// every error counts, also when later calls succeed: callers may stop at any.
func all(st *dataset.Structure, es []dsio.Entry, mk func(io.Writer) (dsio.EntryWriter, error)) func(io.Writer) error {
	return func(dst io.Writer) error {
		w, err := mk(dst)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := w.WriteEntry(e); err != nil {
				return err
			}
		}
		return w.Close()
	}
}

func writers(n, pad int, comps []string) (out []writer) {
	for _, c := range comps {
		for _, f := range []string{"json", "json ", "json\t", "ndjson", "cbor", "csv", "csvh", "csv1"} {
			for _, obj := range []bool{false, true} {
				format := strings.TrimRight(f, " \t")
				if strings.HasPrefix(f, "csv") {
					format = "csv"
				}
				if obj && (format == "ndjson" || format == "csv") {
					continue
				}
				schema := body.Arr()
				if obj {
					schema = body.Obj()
				}
				var cfg map[string]interface{}
				es := entries(format, obj, n, pad)
				if format == "csv" {
					schema = body.Table("integer", "string", "boolean")
					if f == "csvh" {
						cfg = map[string]interface{}{"headerRow": true, "separator": ";"}
					}
					if f == "csv1" {
						schema = body.Table("string")
						for i := range es {
							es[i].Value = []interface{}{[]interface{}{"", nil, "a"}[i%3]}
						}
					}
				}
				st := body.St(format, c, schema, cfg)
				indent := strings.TrimPrefix(f, "json")
				mk := func(w io.Writer) (dsio.EntryWriter, error) {
					if format == "json" && indent != "" {
						return dsio.NewJSONPrettyWriter(st, w, indent)
					}
					return dsio.NewEntryWriter(st, w)
				}
				name := fmt.Sprintf("%q object=%v compression=%q %d entries", f, obj, c, n)
				out = append(out, writer{name, all(st, es, mk)})
				// through Copy
				src := body.St("json", "", body.Arr(), nil)
				if obj {
					src = body.St("json", "", body.Obj(), nil)
				}
				buf := &bytes.Buffer{}
				if err := body.WriteBody(src, buf, es); err != nil {
					panic(err)
				}
				raw := buf.Bytes()
				out = append(out, writer{"Copy to " + name, func(dst io.Writer) error {
					rd, err := dsio.NewEntryReader(src, bytes.NewReader(raw))
					if err != nil {
						return err
					}
					w, err := mk(dst)
					if err != nil {
						return err
					}
					if err := dsio.Copy(rd, w); err != nil {
						return err
					}
					return w.Close()
				}})
			}
		}
	}
	return
}

func offsets(n int, thorough bool) []int {
	set := map[int]bool{}
	add := func(x int) {
		if x >= 0 && x < n {
			set[x] = true
		}
	}
	for i := 0; i < 12; i++ {
		add(i)
		add(n - i)
	}
	for _, b := range []int{4096, 8192, 65536, 128 * 1024, 256 * 1024} {
		for i := -2; i <= 2; i++ {
			add(b + i)
		}
	}
	step := n/30 + 1
	if thorough {
		step = n/1000 + 1
	}
	for i := 0; i < n; i += step {
		add(i)
	}
	var out []int
	for i := 0; i < n; i++ {
		if set[i] {
			out = append(out, i)
		}
	}
	return out
}

func run(r *kit.Run) {
	try := func(t *kit.T, w writer, total int, off int, once bool) {
		s := &body.Sink{Fail: off, Once: once}
		err := w.write(s)
		t.Op(s.Writes)
		t.Trace()
		t.State(w.name, off, once)
		if s.Failed() && err == nil {
			t.Failf("%s: the destination failed at byte %d of %d (only once: %v) and no call reported it", w.name, off, total, once)
		}
		if !s.Failed() && err != nil {
			t.Failf("%s: error without a fault: %v", w.name, err)
		}
	}
	clean := func(t *kit.T, w writer) []byte {
		s := &body.Sink{Fail: -1}
		if err := w.write(s); err != nil {
			t.Failf("%s: without a fault: %v", w.name, err)
		}
		return s.Bytes()
	}
	group := func(name string, ws []writer, full bool) {
		lens := make([]int, len(ws))
		for i, w := range ws {
			s := &body.Sink{Fail: -1}
			_ = w.write(s)
			lens[i] = s.Len()
		}
		r.Explore(name, func(c *kit.C) func(t *kit.T) {
			i := c.Choose(len(ws))
			n := lens[i]
			if n == 0 {
				return nil
			}
			var off int
			if full {
				off = c.Choose(n)
			} else {
				off = kit.Pick(c, offsets(n, r.Thorough))
			}
			once := c.Bool()
			return func(t *kit.T) { try(t, ws[i], n, off, once) }
		})
	}
	comps := []string{"", "gzip", "zst"}
	var small []writer
	for _, n := range []int{0, 1, 3} {
		small = append(small, writers(n, 2, comps)...)
	}
	group("small bodies", small, true)
	group("large bodies", append(writers(1200, 90, []string{"", "gzip"}), writers(4000, 90, []string{"zst"})...), false)
	xst := body.St("xlsx", "", body.Table("integer", "string", "boolean"), map[string]interface{}{"sheetName": "Data"})
	group("spreadsheets", []writer{{"xlsx", all(xst, entries("xlsx", false, 5, 3), func(w io.Writer) (dsio.EntryWriter, error) { return dsio.NewEntryWriter(xst, w) })}}, r.Thorough)
	// step files of every kind of script
	var steps []writer
	kinds := []func(s string) interface{}{
		func(s string) interface{} { return s },
		func(s string) interface{} { return []byte(s) },
		func(s string) interface{} { return strings.NewReader(s) },
	}
	texts := []string{"", "a", "step\n", "x\n-- -\ny"}
	for i := 0; i < 4*4*4; i++ {
		for k := range kinds {
			i, k := i, k
			steps = append(steps, writer{fmt.Sprintf("step file %d of kind %d", i, k), func(w io.Writer) error {
				return stepfile.Write([]*dataset.TransformStep{{Script: kinds[k](texts[i%4])}, {Script: kinds[(k+1)%3](texts[i/4%4])}, {Script: kinds[k](texts[i/16])}}, w)
			}})
		}
	}
	group("step files", steps, true)
	var comp []writer
	for _, c := range []string{"gzip", "gz", "zst", "zstd"} {
		for _, n := range []int{0, 1, 100, 70000, 300000} {
			c, n := c, n
			comp = append(comp, writer{fmt.Sprintf("%s compressor, %d bytes", c, n), func(w io.Writer) error {
				cw, err := compression.Compressor(c, w)
				if err != nil {
					return err
				}
				data := make([]byte, n)
				x := uint32(1)
				for i := range data {
					x = x*1664525 + 1013904223
					data[i] = byte(x >> 24)
				}
				for len(data) > 0 {
					k := 5000
					if k > len(data) {
						k = len(data)
					}
					if _, err := cw.Write(data[:k]); err != nil {
						return err
					}
					data = data[k:]
				}
				return cw.Close()
			}})
		}
	}
	group("compressors", comp, false)
	r.Explore("no fault", func(c *kit.C) func(t *kit.T) {
		ws := append(append(append([]writer{}, small...), steps...), comp...)
		w := ws[c.Choose(len(ws))]
		return func(t *kit.T) {
			b := clean(t, w)
			if again := clean(t, w); !bytes.Equal(b, again) {
				t.Failf("%s: two writes of the same entries differ: %q and %q", w.name, b, again)
			}
			// a destination with room for exactly the document takes all of it
			s := &body.Sink{Fail: len(b)}
			if err := w.write(s); err != nil || s.Failed() || !bytes.Equal(s.Bytes(), b) {
				t.Failf("%s: %d bytes were accepted of %d, error %v", w.name, s.Len(), len(b), err)
			}
			t.Op(3)
			t.Trace()
		}
	})
}
