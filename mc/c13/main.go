// C13: what is read does not depend on how the bytes arrive.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C13", Level: "model_checking",
		Rule:   "every document of the corpus and every one of its prefixes is read whole (the reference) and then under every way of splitting it into reads: all compositions of short documents, all single and double split points and all fixed chunk sizes of longer ones, empty reads in between, end of file with or after the last data, and every buffer size of the sized constructors; entries and outcome have to be identical",
		Bounds: "all 2^(n-1) compositions of documents up to 11 bytes (14 thorough); all double splits of documents up to 60 bytes (120 thorough); documents up to 700 KB at fixed chunk sizes around the buffer sizes",
		Assume: []string{"a source keeps the io.Reader contract"},
		Body:   run})
}

// result is everything a reader lets its user see.
type result struct {
	es  []dsio.Entry
	err bool
	msg string
}

func (a result) eq(b result) bool {
	return a.err == b.err && body.EqEntries(a.es, b.es, true, body.EqTyped)
}

func (a result) String() string {
	s := body.ShowEntries(a.es)
	if len(s) > 300 {
		s = s[:150] + "…" + s[len(s)-150:]
	}
	return fmt.Sprintf("%d entries %s; error %q", len(a.es), s, a.msg)
}

func read(st *dataset.Structure, size int, src io.Reader) result {
	var rd dsio.EntryReader
	var err error
	switch {
	case size > 0 && st.Format == "json":
		rd, err = dsio.NewJSONReaderSize(st, src, size)
	case size > 0 && st.Format == "csv":
		rd, err = dsio.NewCSVReaderSize(st, src, size)
	default:
		rd, err = dsio.NewEntryReader(st, src)
	}
	if err != nil {
		return result{err: true, msg: "open: " + err.Error()}
	}
	es, err := body.Drain(rd, 20000)
	if cerr := rd.Close(); err == nil {
		err = cerr
	}
	r := result{es: es, err: err != nil}
	if err != nil {
		r.msg = err.Error()
	}
	return r
}

func detected(format dataset.DataFormat, comp compression.Format, src io.Reader) string {
	st, _, err := detect.FromReader(format, comp, src)
	if err != nil {
		return "error"
	}
	b, _ := json.Marshal(st)
	return string(b)
}

type doc struct {
	format string
	schema map[string]interface{}
	cfg    map[string]interface{}
	text   string
}

func corpus() (out []doc) {
	js := func(schema map[string]interface{}, texts ...string) {
		for _, t := range texts {
			out = append(out, doc{"json", schema, nil, t})
		}
	}
	js(body.Arr(), `[]`, `[1]`, `[1,-2.5e3]`, `["a\n",1]`, `[[],{}]`, `["\u00e9"]`, `["é"]`, ` [ 1 , 2 ] `, `[true,nil]`, `[tru]`, `[1 2]`, `["\ud83d\ude00"]`, "[\n null\n]\n", `[{"a":1}]`, `["\\"]`, `[-]`, `[1.]`, `[12345678901234567890]`, `{"a":1}`,
		`[{"k":[1,2,{"z":null}],"l":"x\"y"},"tail",1.25e-3]`, `["\ud83d","\u0041\/\b\f\r\t",false]`)
	js(body.Obj(), `{}`, `{"a":1}`, `{"a":[1]}`, ` {"a" : "b"} `, `{"a":1,"b"}`, `{"é\n":nul`, `{"a":{"b":[true,false,null]},"c":"\u00e9\"","d":-0.5}`)
	nd := func(texts ...string) {
		for _, t := range texts {
			out = append(out, doc{"ndjson", body.Arr(), nil, t})
		}
	}
	nd("", "1\n", "1\n2", "[1]\n\"a\"\n", "{\"a\":1}\r\n[2]\n", "\n1\n", "tru\n", "1 2\n", "\"é\"\n1", "{\"a\":[1,2]}\n\n\"x\\ny\"\nnull\n-1.5")
	cb := func(schema map[string]interface{}, texts ...string) {
		for _, t := range texts {
			out = append(out, doc{"cbor", schema, nil, t})
		}
	}
	cb(body.Arr(), "\x80", "\x81\x01", "\x83\x01\x20\x61a", "\x9f\x01\xff", "\x81\x19\x01\x00", "\x82\xf9\x3c\x00\xf6", "\x81\xfb\x3f\xf8\x00\x00\x00\x00\x00\x00", "\x82\x43abc\x60", "\x81\x5f\x41a\x41b\xff", "\x81\xa1\x61k\x80", "\x81\xc1\x01", "\x85\x01", "\x9f\x9f\x01\xff\xbf\x61a\x02\xff\x78\x18aaaaaaaaaaaaaaaaaaaaaaaa\x3b\x00\x00\x00\x01\x00\x00\x00\x00\xff")
	cb(body.Obj(), "\xa0", "\xa1\x61a\x01", "\xa2\x61a\x01\x61b\x82\x01\x02", "\xbf\x61a\xf5\xff", "\xa1\x78\x03abc\xf4", "\xa2\x61a")
	cs := func(cfg map[string]interface{}, texts ...string) {
		for _, t := range texts {
			out = append(out, doc{"csv", body.Table("integer", "string"), cfg, t})
		}
	}
	cs(nil, "", "1,a", "1,a\n", "1,a\r2,b", "1,a\r\n2,b\r", "1,\"a\r\"\n", "1,\"a", "\r\r\n\n1,a", "1,a\n2\n", "1,\"\"\"\"", "é,é\n", "1,\"a\r\n\rb\"\r\n2,c\n3,\"\"\n")
	cs(map[string]interface{}{"headerRow": true}, "x,y\r1,a", "x,y\n", "x", "x,y\r\n1,\"a\nb\"\r\n2,c")
	cs(map[string]interface{}{"lazyQuotes": true, "variadicFields": true, "separator": ";"}, "1;a\"b\r2", "1;\"a\"b;\n2")
	return
}

func compress(comp string, data []byte) []byte {
	if comp == "" {
		return data
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(comp, buf)
	if err != nil {
		panic(err)
	}
	w.Write(data)
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// splits reads up to the given cut points, one read for each part.
type splits struct {
	data     []byte
	cuts     []int
	together bool
	stutter  bool
	pos      int
	zero     bool
}

func (s *splits) Read(p []byte) (int, error) {
	if s.stutter && !s.zero {
		s.zero = true
		return 0, nil
	}
	s.zero = false
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	for _, c := range s.cuts {
		if c > s.pos {
			end = c
			break
		}
	}
	n := copy(p, s.data[s.pos:end])
	s.pos += n
	if s.together && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func sizes(format string) []int {
	switch format {
	case "json":
		return []int{0, 16, 17, 64}
	case "csv":
		return []int{0, 1, 2, 16}
	}
	return []int{0}
}

func run(r *kit.Run) {
	docs := corpus()
	same := func(t *kit.T, st *dataset.Structure, size int, data []byte, ref result, how string, src io.Reader) {
		got := read(st, size, src)
		t.Op(1)
		if !got.eq(ref) {
			t.Failf("%s %v %q (compression %q, buffer %d):\n read whole: %v\n %s: %v", st.Format, st.FormatConfig, cut(data), st.Compression, size, ref, how, got)
		}
	}
	r.Explore("all compositions of short documents", func(c *kit.C) func(t *kit.T) {
		d := docs[c.Choose(len(docs))]
		max := r.T0(11, 14)
		n := len(d.text)
		if n > max {
			// the longest prefixes that can be composed in full
			n = max
		}
		n = c.Range(0, n)
		size := kit.Pick(c, sizes(d.format))
		together, stutter := c.Bool(), c.Bool()
		return func(t *kit.T) {
			data := []byte(d.text[:n])
			st := body.St(d.format, "", d.schema, d.cfg)
			ref := read(st, 0, bytes.NewReader(data))
			df := st.DataFormat()
			dref := detected(df, "", bytes.NewReader(data))
			t.State(d.format, d.schema, d.cfg, data)
			for m := 0; m < 1<<uint(max0(n-1)); m++ {
				var cuts []int
				for i := 1; i < n; i++ {
					if m>>uint(i-1)&1 == 1 {
						cuts = append(cuts, i)
					}
				}
				same(t, st, size, data, ref, fmt.Sprintf("split at %v, EOF with data %v, empty reads %v", cuts, together, stutter), &splits{data: data, cuts: cuts, together: together, stutter: stutter})
				if size == 0 {
					if g := detected(df, "", &splits{data: data, cuts: cuts, together: together, stutter: stutter}); g != dref {
						t.Failf("%s %q: detected %s read whole, %s split at %v, EOF with data %v, empty reads %v", d.format, data, dref, g, cuts, together, stutter)
					}
				}
			}
			t.Trace()
		}
	})
	r.Explore("single and double splits", func(c *kit.C) func(t *kit.T) {
		d := docs[c.Choose(len(docs))]
		if len(d.text) < 8 || len(d.text) > r.T0(60, 120) {
			return nil
		}
		size := kit.Pick(c, sizes(d.format))
		a := c.Range(1, len(d.text))
		return func(t *kit.T) {
			data := []byte(d.text)
			st := body.St(d.format, "", d.schema, d.cfg)
			ref := read(st, 0, bytes.NewReader(data))
			dref := detected(st.DataFormat(), "", bytes.NewReader(data))
			for b := a; b <= len(data); b++ {
				for _, tog := range []bool{false, true} {
					how := fmt.Sprintf("split at %d and %d, EOF with data %v", a, b, tog)
					same(t, st, size, data, ref, how, &splits{data: data, cuts: []int{a, b}, together: tog})
					if g := detected(st.DataFormat(), "", &splits{data: data, cuts: []int{a, b}, together: tog}); g != dref {
						t.Failf("%s %q: detected %s read whole, %s %s", d.format, data, dref, g, how)
					}
				}
			}
			t.Trace()
		}
	})
	r.Explore("fixed chunk sizes, every prefix", func(c *kit.C) func(t *kit.T) {
		d := docs[c.Choose(len(docs))]
		n := c.Range(0, len(d.text))
		size := kit.Pick(c, sizes(d.format))
		return func(t *kit.T) {
			data := []byte(d.text[:n])
			st := body.St(d.format, "", d.schema, d.cfg)
			ref := read(st, 0, bytes.NewReader(data))
			t.State(d.format, d.schema, d.cfg, data)
			for chunk := 1; chunk <= n; chunk++ {
				for _, tog := range []bool{false, true} {
					same(t, st, size, data, ref, fmt.Sprintf("chunks of %d, EOF with data %v", chunk, tog), body.NewSource(data, chunk, tog))
				}
			}
			t.Trace()
		}
	})
	r.Explore("compressed documents", func(c *kit.C) func(t *kit.T) {
		d := docs[c.Choose(len(docs))]
		comp := kit.Pick(c, []string{"gzip", "zst"})
		trunc := c.Choose(5)
		return func(t *kit.T) {
			data := compress(comp, []byte(d.text))
			if trunc > 0 {
				data = data[:len(data)*trunc/5]
			}
			st := body.St(d.format, comp, d.schema, d.cfg)
			ref := read(st, 0, bytes.NewReader(data))
			dref := detected(st.DataFormat(), compression.Format(comp), bytes.NewReader(data))
			chunks := []int{1, 2, 3, 7, 10, len(data) - 1}
			if r.Thorough {
				chunks = nil
				for i := 1; i <= len(data); i++ {
					chunks = append(chunks, i)
				}
			}
			for _, chunk := range chunks {
				for _, tog := range []bool{false, true} {
					if chunk < 1 {
						continue
					}
					same(t, st, 0, data, ref, fmt.Sprintf("chunks of %d, EOF with data %v", chunk, tog), body.NewSource(data, chunk, tog))
					if trunc == 0 {
						if g := detected(st.DataFormat(), compression.Format(comp), body.NewSource(data, chunk, tog)); g != dref {
							t.Failf("%s.%s of %q: detected %s read whole, %s in chunks of %d", d.format, comp, d.text, dref, g, chunk)
						}
					}
				}
			}
			t.Trace()
			t.State(d.format, comp, d.schema, data)
		}
	})
	large := []string{"json", "jsonobj", "ndjson", "cbor", "cborobj", "csv", "csvcr", "xlsx"}
	r.Explore("large documents", func(c *kit.C) func(t *kit.T) {
		kind := kit.Pick(c, large)
		comp := kit.Pick(c, []string{"", "gzip", "zst"})
		if kind == "xlsx" && comp != "" {
			return nil
		}
		chunk := kit.Pick(c, []int{1, 7, 99, 100, 101, 511, 4095, 4096, 4097, 65536, 256*1024 - 1, 256 * 1024, 256*1024 + 1})
		pad := kit.Pick(c, []int{0, 1, 2, 5})
		cutoff := kit.Pick(c, []int{0, 1})
		if !r.Thorough && (pad == 2 || pad == 5) && chunk != 4096 && chunk != 100 {
			return nil
		}
		return func(t *kit.T) {
			st, data := big(kind, pad)
			st.Compression = comp
			data = compress(comp, data)
			if cutoff == 1 {
				data = data[:len(data)*2/3]
			}
			ref := read(st, 0, bytes.NewReader(data))
			if cutoff == 0 && (ref.err || len(ref.es) == 0) {
				t.Failf("large %s document: %v", kind, ref)
			}
			for _, tog := range []bool{false, true} {
				for _, size := range []int{0, 4096, 511} {
					if size != 0 && st.Format != "json" && st.Format != "csv" {
						continue
					}
					same(t, st, size, data, ref, fmt.Sprintf("chunks of %d, EOF with data %v", chunk, tog), body.NewSource(data, chunk, tog))
				}
			}
			if cutoff == 0 {
				dref := detected(st.DataFormat(), compression.Format(comp), bytes.NewReader(data))
				if g := detected(st.DataFormat(), compression.Format(comp), body.NewSource(data, chunk, true)); g != dref {
					t.Failf("large %s: detected %s read whole, %s in chunks of %d", kind, dref, g, chunk)
				}
			}
			t.Trace()
			t.State(kind, comp, pad, cutoff)
		}
	})
	r.Explore("white space before a document", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 1, 50, 98, 99, 100, 101, 150, 199, 200, 201, 300, 4096})
		doc := kit.Pick(c, []string{"[1]", "{\"a\":1}", "x", ""})
		chunk := kit.Pick(c, []int{0, 1, 2, 33, 99, 100, 101})
		return func(t *kit.T) {
			data := []byte(strings.Repeat(" \n\t\r", n/4+1)[:n] + doc)
			schema := body.Arr()
			if strings.HasPrefix(doc, "{") {
				schema = body.Obj()
			}
			st := body.St("json", "", schema, nil)
			ref := read(st, 0, bytes.NewReader(data))
			same(t, st, 0, data, ref, fmt.Sprintf("chunks of %d", chunk), body.NewSource(data, chunk, true))
			dref := detected(st.DataFormat(), "", bytes.NewReader(data))
			if strings.HasPrefix(doc, "[") != strings.Contains(dref, "array") || strings.HasPrefix(doc, "{") != strings.Contains(dref, "object") {
				t.Failf("%d white space characters and %q: detected %s", n, doc, dref)
			}
			if g := detected(st.DataFormat(), "", body.NewSource(data, chunk, true)); g != dref {
				t.Failf("%d white space characters and %q: detected %s read whole, %s in chunks of %d", n, doc, dref, g, chunk)
			}
			t.Trace()
		}
	})
}

var bigCache = map[string][]byte{}

func big(kind string, pad int) (*dataset.Structure, []byte) {
	format, schema := kind, body.Arr()
	switch kind {
	case "jsonobj", "cborobj":
		format, schema = kind[:4], body.Obj()
	case "csv", "csvcr":
		format, schema = "csv", body.Table("string", "integer", "string")
	case "xlsx":
		schema = body.Table("string", "integer", "string")
	}
	st := body.St(format, "", schema, nil)
	key := fmt.Sprint(kind, pad)
	if b, ok := bigCache[key]; ok {
		return st, b
	}
	n, long := 1500, 300000
	if kind == "xlsx" {
		n, long = 200, 9000
	}
	es := make([]dsio.Entry, n)
	for i := range es {
		s := fmt.Sprintf("é\"row %d\\\n%s", i, strings.Repeat("w", (i*37+pad)%90))
		if i == 0 {
			s = strings.Repeat("p", pad)
		}
		if i == 700 {
			s = strings.Repeat("l😀ng\\", long/9)
		}
		es[i] = dsio.Entry{Index: i, Value: []interface{}{s, int64(i) * 1234567, "e"}}
		if schema["type"] == "object" {
			es[i].Key = fmt.Sprintf("key %d", i)
		}
	}
	buf := &bytes.Buffer{}
	if err := body.WriteBody(st, buf, es); err != nil {
		panic(err)
	}
	b := buf.Bytes()
	if kind == "csvcr" {
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r"))
	}
	bigCache[key] = b
	return st, b
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}
