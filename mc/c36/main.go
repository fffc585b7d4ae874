// C36: finishing with a body lets go of everything it was opened with.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C36", Level: "fault_enumeration",
		Rule:   "every reader, writer and consumer of every format and compression, closed after every number of entries, for every kind of schema (refused ones included), at every failing offset of the source or the sink: afterwards no goroutine it started is left, the source is not read again, no file is left open and no file it was given is lost",
		Bounds: "bodies of 0 to 3 small entries and of 1500 larger ones, every byte offset of the small ones and 16 offsets of the large ones (thorough 120)",
		Assume: []string{"a goroutine that has not ended 3 s after everything was closed is not going to"},
		Body:   run})
}

// source counts the reads, from whatever goroutine they come.
type source struct {
	s *body.Source
	n int64
}

func (s *source) Read(p []byte) (int, error) {
	atomic.AddInt64(&s.n, 1)
	return s.s.Read(p)
}

func (s *source) reads() int64 { return atomic.LoadInt64(&s.n) }

func openFiles() int {
	l, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

// settled runs f and checks that everything it started has ended. src, when
// given, must not be read after f has returned.
func settled(t *kit.T, ctx string, src *source, f func()) {
	base := runtime.NumGoroutine()
	fds := openFiles()
	f()
	var reads int64
	if src != nil {
		reads = src.reads()
	}
	deadline := time.Now().Add(3 * time.Second)
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			break
		}
		if time.Now().After(deadline) {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			t.Logf("%s", buf)
			t.Failf("%s: %d goroutines are left", ctx, runtime.NumGoroutine()-base)
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if src != nil && src.reads() != reads {
		t.Failf("%s: the source is still being read afterwards (%d reads more)", ctx, src.reads()-reads)
	}
	if n := openFiles(); n > fds {
		t.Failf("%s: %d files are left open", ctx, n-fds)
	}
}

type shape struct {
	format, comp string
	n            int
	big          bool
}

func (s shape) String() string { return fmt.Sprintf("%s/%s/%d", s.format, s.comp, s.n) }

func (s shape) structure() *dataset.Structure {
	return body.St(s.format, s.comp, body.Table("integer", "string"), nil)
}

func (s shape) entries() (es []dsio.Entry) {
	pad := "text"
	if s.big {
		// incompressible enough to span several blocks
		pad = ""
	}
	x := uint32(1)
	for i := 0; i < s.n; i++ {
		p := pad
		if s.big {
			b := make([]byte, 200)
			for j := range b {
				x = x*1664525 + 1013904223
				b[j] = 'a' + byte(x>>24)%26
			}
			p = string(b)
		}
		es = append(es, dsio.Entry{Index: i, Value: []interface{}{int64(i), p}})
	}
	return es
}

var cache = map[shape][]byte{}

func (s shape) data() []byte {
	if d, ok := cache[s]; ok {
		return d
	}
	if s.format == "xlsx" && s.comp != "" {
		p := s
		p.comp = "" // compressed workbooks are refused
		cache[s] = p.data()
		return cache[s]
	}
	buf := &bytes.Buffer{}
	if err := body.WriteBody(s.structure(), buf, s.entries()); err != nil {
		panic(fmt.Sprintf("%s: %s", s, err))
	}
	cache[s] = append([]byte{}, buf.Bytes()...)
	return cache[s]
}

var formats = []string{"json", "ndjson", "csv", "cbor", "xlsx"}
var comps = []string{"", "gzip", "zstd"}

func pickShape(c *kit.C) shape {
	s := shape{format: kit.Pick(c, formats), comp: kit.Pick(c, comps)}
	switch k := c.Choose(4); k {
	case 0, 1:
		s.n = k
	case 2:
		s.n = 3
	case 3:
		s.n, s.big = 1500, true
	}
	return s
}

// pickFault chooses the offset a source or sink fails at; negative: never.
func pickFault(c *kit.C, r *kit.Run, s shape) int {
	n := len(s.data())
	if c.Bool() {
		return -1
	}
	if !s.big && s.format != "xlsx" {
		return c.Choose(n + 1)
	}
	k := r.T0(16, 120)
	return n * c.Choose(k+1) / k
}

type schemaKind struct {
	name   string
	schema map[string]interface{}
}

func schemas() []schemaKind {
	return []schemaKind{
		{"table", body.Table("integer", "string")},
		{"array", body.Arr()},
		{"object", body.Obj()},
		{"none", nil},
		{"string", map[string]interface{}{"type": "string"}},
		{"number type", map[string]interface{}{"type": 3}},
		{"empty", map[string]interface{}{}},
	}
}

func run(r *kit.Run) {
	// start whatever the packages start once
	for _, f := range formats {
		for _, cm := range comps {
			s := shape{format: f, comp: cm, n: 1}
			body.ReadBody(s.structure(), bytes.NewReader(s.data()), 10)
		}
	}

	r.Explore("readers", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		k := kit.Pick(c, schemas())
		if s.big && k.name != "table" {
			return nil
		}
		fail := pickFault(c, r, s)
		chunk := kit.Pick(c, []int{0, 1, 7})
		if s.big && chunk != 0 {
			return nil
		}
		read := c.Choose(6)
		closes := 1 + c.Choose(2)
		return func(t *kit.T) {
			src := &source{s: &body.Source{Data: s.data(), Chunk: chunk, Fail: fail}}
			ctx := fmt.Sprintf("%s schema %s, source failing at %d, in chunks of %d, %d entries read, closed %d times", s, k.name, fail, chunk, read, closes)
			settled(t, ctx, src, func() {
				st := s.structure()
				st.Schema = k.schema
				rd, err := dsio.NewEntryReader(st, src)
				t.Op(1)
				if err != nil {
					t.Trace()
					t.State(s.String(), "refused")
					return
				}
				n := 0
				for i := 0; i < read || read == 5; i++ {
					_, err = rd.ReadEntry()
					t.Op(1)
					if err != nil {
						break
					}
					n++
				}
				for i := 0; i < closes; i++ {
					rd.Close()
					t.Op(1)
				}
				t.Trace()
				t.State(s.String(), read, n, err == io.EOF, err != nil)
			})
		}
	})

	r.Explore("decompressors", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		if s.comp == "" || s.format != "json" && s.format != "csv" {
			return nil
		}
		fail := pickFault(c, r, s)
		read := kit.Pick(c, []int{0, 1, 10, 1 << 16, 1 << 17, 1 << 30})
		return func(t *kit.T) {
			src := &source{s: &body.Source{Data: s.data(), Fail: fail}}
			settled(t, fmt.Sprintf("decompressor of %s, source failing at %d, %d bytes read", s, fail, read), src, func() {
				rc, err := compression.Decompressor(s.comp, src)
				t.Op(1)
				if err != nil {
					t.Trace()
					t.State(s.String(), "refused")
					return
				}
				n, err := io.CopyN(ioutil.Discard, rc, int64(read))
				rc.Close()
				t.Op(2)
				t.Trace()
				t.State(s.String(), n, err)
			})
		}
	})

	r.Explore("writers", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		k := kit.Pick(c, schemas())
		if s.big && k.name != "table" {
			return nil
		}
		fail := pickFault(c, r, s)
		once := fail >= 0 && c.Bool()
		// 0: every entry, 1: stop at the first error, 2: stop after one entry
		stop := c.Choose(3)
		closes := 1 + c.Choose(2)
		bad := c.Bool()
		return func(t *kit.T) {
			ctx := fmt.Sprintf("%s schema %s, sink failing at %d (once %v), stop %d, unwritable value %v, closed %d times", s, k.name, fail, once, stop, bad, closes)
			settled(t, ctx, nil, func() {
				st := s.structure()
				st.Schema = k.schema
				w, err := dsio.NewEntryWriter(st, &body.Sink{Fail: fail, Once: once})
				t.Op(1)
				if err != nil {
					t.Trace()
					t.State(s.String(), "refused")
					return
				}
				es := s.entries()
				if bad {
					es = append(es, dsio.Entry{Index: len(es), Value: []interface{}{func() {}, make(chan int)}})
				}
				failed := false
				for _, e := range es {
					err := w.WriteEntry(e)
					t.Op(1)
					failed = failed || err != nil
					if stop == 1 && err != nil || stop == 2 {
						break
					}
				}
				for i := 0; i < closes; i++ {
					err = w.Close()
					t.Op(1)
				}
				t.Trace()
				t.State(s.String(), failed, err != nil, stop, bad)
			})
		}
	})

	// what a consumer opens, it closes, whatever the outcome
	type consumer struct {
		name string
		f    func(s shape, k schemaKind, f qfs.File) error
	}
	ds := func(s shape, k schemaKind, f qfs.File) *dataset.Dataset {
		d := &dataset.Dataset{Name: "n", Structure: s.structure()}
		d.Structure.Schema = k.schema
		d.SetBodyFile(f)
		return d
	}
	viz := func(script string) func(s shape, k schemaKind, f qfs.File) error {
		return func(s shape, k schemaKind, f qfs.File) error {
			d := ds(s, k, f)
			d.Viz = &dataset.Viz{Format: "html"}
			d.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte(script)))
			_, err := dsviz.Render(d)
			return err
		}
	}
	convert := func(format, comp string, pretty bool, limit, offset int, all bool) func(s shape, k schemaKind, f qfs.File) error {
		return func(s shape, k schemaKind, f qfs.File) error {
			in := s.structure()
			in.Schema = k.schema
			out := body.St(format, comp, k.schema, nil)
			if pretty {
				out.FormatConfig = map[string]interface{}{"pretty": true}
			}
			_, err := dsio.ConvertFile(f, in, out, limit, offset, all)
			return err
		}
	}
	consumers := []consumer{
		{"stats", func(s shape, k schemaKind, f qfs.File) error {
			_, err := dsstats.Calculate(ds(s, k, f))
			return err
		}},
		{"preview", func(s shape, k schemaKind, f qfs.File) error {
			_, err := preview.Create(context.Background(), ds(s, k, f))
			return err
		}},
		{"detect", func(s shape, k schemaKind, f qfs.File) error {
			d := &dataset.Dataset{Name: "n"}
			d.SetBodyFile(f)
			return detect.Structure(d)
		}},
		{"detect from reader", func(s shape, k schemaKind, f qfs.File) error {
			df, cm, err := detect.FormatFromFilename(f.FileName())
			if err != nil {
				return err
			}
			_, _, err = detect.FromReader(df, cm, f)
			return err
		}},
		{"render some", viz(`{{ range bodyEntries 1 1 }}{{ . }}{{ end }}`)},
		{"render all", viz(`{{ range allBodyEntries }}{{ . }}{{ end }}`)},
		{"render twice", viz(`{{ range bodyEntries 0 1 }}{{ . }}{{ end }}{{ allBodyEntries }}`)},
		{"render none", viz(`{{ bodyEntries 0 0 }}{{ nope`)},
		{"convert to json", convert("json", "", false, 0, 0, true)},
		{"convert a page to csv", convert("csv", "", false, 1, 1, false)},
		{"convert to zstd cbor", convert("cbor", "zstd", false, 0, 0, true)},
		{"convert to pretty zstd json", convert("json", "zstd", true, 0, 0, true)},
		{"convert to gzip json", convert("json", "gzip", true, 0, 0, true)},
		{"convert a page to zstd ndjson", convert("ndjson", "zstd", false, 1, 0, false)},
		{"convert to an unknown format", convert("bmp", "zstd", false, 1, 0, false)},
	}
	r.Explore("consumers", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		k := kit.Pick(c, schemas())
		if s.big && k.name != "table" {
			return nil
		}
		fail := pickFault(c, r, s)
		cons := kit.Pick(c, consumers)
		return func(t *kit.T) {
			src := &source{s: &body.Source{Data: s.data(), Fail: fail}}
			name := "body." + s.format
			if s.comp != "" {
				name += "." + map[string]string{"gzip": "gz", "zstd": "zst"}[s.comp]
			}
			settled(t, fmt.Sprintf("%s: %s schema %s, source failing at %d", cons.name, s, k.name, fail), src, func() {
				err := cons.f(s, k, qfs.NewMemfileReader(name, src))
				t.Op(1)
				t.Trace()
				t.State(cons.name, s.String(), k.name, err != nil)
			})
		}
	})

	// a reader given to a consumer belongs to the caller, who closes it
	r.Explore("readers consumed", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		fail := pickFault(c, r, s)
		how := c.Choose(8)
		return func(t *kit.T) {
			src := &source{s: &body.Source{Data: s.data(), Fail: fail}}
			settled(t, fmt.Sprintf("consumer %d of a %s reader failing at %d, then closed", how, s, fail), src, func() {
				rd, err := dsio.NewEntryReader(s.structure(), src)
				t.Op(1)
				if err != nil {
					return
				}
				switch how {
				case 0:
					_, err = validate.EntryReader(rd)
				case 1:
					_, err = dsstats.CalculateFromEntryReader(rd)
				case 2:
					_, err = dsio.ReadAll(rd)
				case 3:
					n := 0
					err = dsio.EachEntry(rd, func(int, dsio.Entry, error) error {
						n++
						if n == 2 {
							return errors.New("enough")
						}
						return nil
					})
				case 4, 5:
					p := &dsio.PagedReader{Reader: rd, Limit: 1, Offset: how - 4}
					_, err = p.ReadEntry()
					p.Close()
				case 6:
					w := dsstats.NewAccumulator(s.structure())
					err = dsio.Copy(rd, w)
					w.Close()
				case 7:
					var w dsio.EntryWriter
					if w, err = dsio.NewEntryWriter(body.St("json", "zstd", body.Arr(), nil), &body.Sink{Fail: 5}); err == nil {
						err = dsio.Copy(rd, w)
						w.Close()
					}
				}
				rd.Close()
				t.Op(2)
				t.Trace()
				t.State(how, s.String(), err != nil)
			})
		}
	})

	r.Explore("identity readers", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, 4)
		read := c.Range(0, n+2)
		asMap := c.Bool()
		closes := c.Range(0, 2)
		if closes == 0 && read <= n {
			return nil
		}
		how := c.Choose(3)
		return func(t *kit.T) {
			settled(t, fmt.Sprintf("identity reader of %d entries (map %v), %d read, closed %d times, way %d", n, asMap, read, closes, how), nil, func() {
				var data interface{}
				if asMap {
					m := map[string]interface{}{}
					for i := 0; i < n; i++ {
						m[fmt.Sprint(i)] = i
					}
					data = m
				} else {
					a := []interface{}{}
					for i := 0; i < n; i++ {
						a = append(a, i)
					}
					data = a
				}
				st := body.St("json", "", body.Arr(), nil)
				rd, err := dsio.NewIdentityReader(st, data)
				t.Op(1)
				if err != nil {
					t.Failf("refused: %s", err)
				}
				var er dsio.EntryReader = rd
				if how == 1 {
					er = &dsio.PagedReader{Reader: rd, Offset: 1, Limit: -1}
				}
				for i := 0; i < read; i++ {
					er.ReadEntry()
					t.Op(1)
				}
				if how == 2 && closes > 0 {
					dsio.ReadAll(er)
				}
				for i := 0; i < closes; i++ {
					er.Close()
					t.Op(1)
				}
				t.Trace()
				t.State(n, read, asMap, closes, how)
			})
		}
	})

	// test cases are read from files
	r.Explore("test cases", func(c *kit.C) func(t *kit.T) {
		have := c.Choose(1 << 7)
		return func(t *kit.T) {
			dir, err := ioutil.TempDir("", "c36")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			for i, n := range []string{"input.dataset.json", "expect.dataset.json", "body.csv", "body.json", "transform.star", "template.html", "readme.md"} {
				if have>>i&1 == 1 {
					if err := ioutil.WriteFile(filepath.Join(dir, n), []byte("{}"), 0600); err != nil {
						panic(err)
					}
				}
			}
			settled(t, fmt.Sprintf("test case of files %b", have), nil, func() {
				_, err := dstest.NewTestCaseFromDir(dir)
				dstest.LoadTestCases(filepath.Dir(dir) + "/none")
				t.Op(2)
				t.Trace()
				t.State("case", have, err != nil)
			})
		}
	})

	// files opened by name are closed
	r.Explore("files", func(c *kit.C) func(t *kit.T) {
		s := pickShape(c)
		cut := pickFault(c, r, s)
		ext := c.Choose(4)
		return func(t *kit.T) {
			dir, err := ioutil.TempDir("", "c36")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			name := "body." + s.format
			switch {
			case ext == 1:
				name = "body"
			case ext == 2:
				name = "body.bmp"
			case s.comp != "":
				name += "." + map[string]string{"gzip": "gz", "zstd": "zst"}[s.comp]
			}
			data := s.data()
			if cut >= 0 {
				data = data[:cut]
			}
			path := filepath.Join(dir, name)
			if ext != 3 {
				if err := ioutil.WriteFile(path, data, 0600); err != nil {
					panic(err)
				}
			}
			settled(t, fmt.Sprintf("detection of a file %s cut at %d", name, cut), nil, func() {
				_, err := detect.FromFile(path)
				t.Op(1)
				t.Trace()
				t.State(s.String(), ext, err != nil)
			})
			settled(t, fmt.Sprintf("steps of a file %s cut at %d", name, cut), nil, func() {
				stepfile.ReadFile(path)
				t.Op(1)
			})
		}
	})
}
