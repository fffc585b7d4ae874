// Package mach holds the machines of C18: an instance of a reader, writer,
// buffer, accumulator, sketch, detector or other stateful part, operated in
// steps whose outcome can be compared with what the instance gives alone.
package mach

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsstats/histosketch"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"vmc/body"
)

// Inst is one instance in operation.
type Inst struct {
	Steps []func() string
	// Final is called after all steps of all instances: what was returned
	// earlier and what was handed in, as it stands then.
	Final func() string
	// At, when set, is called at each read of the source and each write to the
	// sink, before it happens.
	At func()
	N  int
}

// point is reached at each input or output operation of the instance.
func (in *Inst) point() {
	in.N++
	if in.At != nil {
		in.At()
	}
}

type src struct {
	r  io.Reader
	in *Inst
}

func (s src) Read(p []byte) (int, error) {
	s.in.point()
	if len(p) > 700 {
		p = p[:700]
	}
	return s.r.Read(p)
}

type sink struct {
	w  io.Writer
	in *Inst
}

func (s sink) Write(p []byte) (int, error) {
	s.in.point()
	return s.w.Write(p)
}

// Kind is a kind of machine; New makes an instance, with its own input when
// the variant differs and with a shared structure when st is not nil.
type Kind struct {
	Name string
	Slow bool
	// Plain says its input and output happen in its own goroutine.
	Plain bool
	St    func() *dataset.Structure
	New   func(variant int, st *dataset.Structure) *Inst
	Extra string
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error() + fmt.Sprintf("%#v", v)
	}
	return string(b)
}

type shape struct {
	format, comp string
	obj          bool
	cfg          map[string]interface{}
}

func (s shape) name() string {
	n := s.format
	if s.obj {
		n += " object"
	}
	if s.comp != "" {
		n += "." + s.comp
	}
	if len(s.cfg) > 0 {
		n += js(s.cfg)
	}
	return n
}

func (s shape) st() *dataset.Structure {
	schema := body.Arr()
	if s.obj {
		schema = body.Obj()
	}
	if s.format == "csv" || s.format == "xlsx" {
		schema = body.Table("integer", "string", "array")
	}
	return body.St(s.format, s.comp, schema, s.cfg)
}

// entries of the variant: long text, nested values, all different by variant.
func (s shape) entries(v int) []dsio.Entry {
	es := make([]dsio.Entry, 3)
	for i := range es {
		text := fmt.Sprintf("v%d row %d, \"q\"", v, i)
		if i == 1 {
			text += strings.Repeat(string(rune('a'+v)), 5000)
		}
		nested := []interface{}{fmt.Sprintf("n%d.%d", v, i), true, map[string]interface{}{fmt.Sprintf("k%d", v): nil}}
		es[i] = dsio.Entry{Index: i, Value: []interface{}{int64(v*100 + i), text, nested}}
		if s.obj {
			es[i].Index = 0
			es[i].Key = fmt.Sprintf("key%d.%d", v, i)
		}
	}
	return es
}

func (s shape) raw(v int) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(s.st(), buf, s.entries(v)); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func show(e dsio.Entry, err error) string {
	return fmt.Sprintf("%d %q %s %v", e.Index, e.Key, js(e.Value), err)
}

func reader(s shape, page bool, size int) Kind {
	name := "reader " + s.name()
	if page {
		name = "paged " + name
	}
	if size > 0 {
		name = "small " + name
	}
	return Kind{Name: name, Plain: s.comp != "zst", Slow: s.format == "xlsx", St: s.st, New: func(v int, st *dataset.Structure) *Inst {
		if st == nil {
			st = s.st()
		}
		before := js(st)
		data := s.raw(v)
		keep := append([]byte{}, data...)
		var rd dsio.EntryReader
		var got []dsio.Entry
		in := &Inst{}
		in.Steps = append(in.Steps, func() string {
			var err error
			if size > 0 {
				rd, err = dsio.NewJSONReaderSize(st, src{bytes.NewReader(data), in}, size)
			} else {
				rd, err = dsio.NewEntryReader(st, src{bytes.NewReader(data), in})
			}
			if page && err == nil {
				rd = &dsio.PagedReader{Reader: rd, Offset: 1, Limit: 2}
			}
			return fmt.Sprint(err)
		})
		read := func() string {
			e, err := rd.ReadEntry()
			if err == nil {
				got = append(got, e)
			}
			return show(e, err)
		}
		in.Steps = append(in.Steps, read, read)
		in.Steps = append(in.Steps, func() string { a := read(); return a + read() })
		in.Steps = append(in.Steps, func() string { return fmt.Sprint(rd.Close()) })
		in.Final = func() string {
			return fmt.Sprint(js(got), js(st) == before, bytes.Equal(keep, data))
		}
		return in
	}}
}

func writer(s shape) Kind {
	return Kind{Name: "writer " + s.name(), Plain: s.comp != "zst", Slow: s.format == "xlsx", St: s.st, New: func(v int, st *dataset.Structure) *Inst {
		if st == nil {
			st = s.st()
		}
		before := js(st)
		es := s.entries(v)
		keep := js(es)
		buf := &bytes.Buffer{}
		var w dsio.EntryWriter
		in := &Inst{}
		in.Steps = append(in.Steps, func() string {
			var err error
			w, err = dsio.NewEntryWriter(st, sink{buf, in})
			return fmt.Sprint(err)
		})
		for i := range es {
			i := i
			in.Steps = append(in.Steps, func() string { return fmt.Sprint(w.WriteEntry(es[i])) })
		}
		in.Steps = append(in.Steps, func() string { return fmt.Sprint(w.Close()) })
		in.Final = func() string {
			out := fmt.Sprintf("%x", buf.Bytes())
			if s.format == "xlsx" { // an archive with the time in it
				got, err := body.ReadBody(s.st(), bytes.NewReader(buf.Bytes()), 100)
				out = fmt.Sprint(js(got), err)
			}
			return fmt.Sprint(out, js(es) == keep, js(st) == before)
		}
		return in
	}}
}

func buffer(s shape) Kind {
	return Kind{Name: "buffer " + s.name(), St: s.st, New: func(v int, st *dataset.Structure) *Inst {
		if st == nil {
			st = s.st()
		}
		before := js(st)
		es := s.entries(v)
		keep := js(es)
		var b *dsio.EntryBuffer
		var got []dsio.Entry
		in := &Inst{}
		in.Steps = append(in.Steps, func() string {
			var err error
			b, err = dsio.NewEntryBuffer(st)
			return fmt.Sprint(err)
		})
		in.Steps = append(in.Steps, func() string { return fmt.Sprint(b.WriteEntry(es[0]), b.WriteEntry(es[1])) })
		in.Steps = append(in.Steps, func() string { return fmt.Sprint(b.WriteEntry(es[2]), b.Close()) })
		in.Steps = append(in.Steps, func() string { return fmt.Sprintf("%x", b.Bytes()) })
		in.Steps = append(in.Steps, func() string {
			out := ""
			for i := 0; i < 4; i++ {
				e, err := b.ReadEntry()
				if err == nil {
					got = append(got, e)
				}
				out += show(e, err)
			}
			return out
		})
		in.Final = func() string { return fmt.Sprint(js(got), js(es) == keep, js(st) == before) }
		return in
	}}
}

func stats(obj bool) Kind {
	name := "stats of rows"
	if obj {
		name = "stats of objects"
	}
	return Kind{Name: name, New: func(v int, _ *dataset.Structure) *Inst {
		st := body.St("json", "", body.Arr(), nil)
		acc := dsstats.NewAccumulator(st)
		var es []dsio.Entry
		for i := 0; i < 40; i++ {
			row := []interface{}{int64(i*i + v), fmt.Sprintf("s%d.%d", v, i%3), i%(v+2) == 0, float64(i) / 3, nil, []interface{}{i, "x"}}
			var val interface{} = row
			if obj {
				val = map[string]interface{}{"n": row[0], "s": row[1], "b": row[2], "o": map[string]interface{}{"in": row[3]}}
			}
			es = append(es, dsio.Entry{Index: i, Value: val})
		}
		keep := js(es)
		write := func(lo, hi int) func() string {
			return func() string {
				for _, e := range es[lo:hi] {
					if err := acc.WriteEntry(e); err != nil {
						return err.Error()
					}
				}
				return ""
			}
		}
		var m []map[string]interface{}
		in := &Inst{Steps: []func() string{write(0, 1), write(1, 35), write(35, 40),
			func() string { return fmt.Sprint(acc.Close()) },
			func() string { m = dsstats.ToMap(acc); return js(m) }}}
		in.Final = func() string { return fmt.Sprint(js(m), js(dsstats.ToMap(acc)), js(es) == keep) }
		return in
	}}
}

func sketch() Kind {
	return Kind{Name: "sketch", New: func(v int, _ *dataset.Structure) *Inst {
		h, x := histosketch.New(4), histosketch.New(3)
		obs := func() string {
			b, f := h.Read()
			enc, _ := h.MarshalBinary()
			xe, _ := x.MarshalBinary()
			return fmt.Sprint(b, f, h.Count(), h.Min(), h.Max(), string(enc), string(xe))
		}
		in := &Inst{Steps: []func() string{
			func() string { h.Add(float64(v)); h.Add(3); h.AddMany(2.5, 4); return obs() },
			func() string { x.Add(float64(10 + v)); x.Add(7); x.Add(8); x.Add(1); return obs() },
			func() string { h.Merge(*x); return obs() },
			func() string { x.Add(100); h.Add(6); return obs() },
			func() string { return fmt.Sprint(h.Quantile(0.3), h.Sum(5), h.Median()) },
		}}
		in.Final = obs
		return in
	}}
}

func detector(name string, data func(v int) []byte) Kind {
	return Kind{Name: "detection of " + name, Slow: strings.HasSuffix(name, "xlsx"), New: func(v int, _ *dataset.Structure) *Inst {
		raw := data(v)
		keep := append([]byte{}, raw...)
		ds := &dataset.Dataset{}
		ds.SetBodyFile(qfs.NewMemfileBytes(name, raw))
		in := &Inst{Steps: []func() string{
			func() string { return fmt.Sprint(detect.Structure(ds), js(ds.Structure)) },
			func() string { // what was detected belongs to the caller
				if ds.Structure != nil {
					for k := range ds.Structure.Schema {
						if k == "type" {
							ds.Structure.Schema[k] = fmt.Sprint("changed ", v)
						}
					}
					if items, ok := ds.Structure.Schema["items"].(map[string]interface{}); ok {
						items["changed"] = v
					}
				}
				return js(ds.Structure)
			},
			func() string {
				d2 := &dataset.Dataset{}
				d2.SetBodyFile(qfs.NewMemfileBytes(name, raw))
				return fmt.Sprint(detect.Structure(d2), js(d2.Structure))
			},
			func() string { b, err := io.ReadAll(ds.BodyFile()); return fmt.Sprintf("%x %v", b, err) },
		}}
		in.Final = func() string { return fmt.Sprint(js(ds.Structure), bytes.Equal(raw, keep)) }
		return in
	}}
}

func identity() Kind {
	return Kind{Name: "identity reader", New: func(v int, _ *dataset.Structure) *Inst {
		data := []interface{}{int64(v), "a", []interface{}{v}}
		keep := js(data)
		rd, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), data)
		read := func() string { return show(rd.ReadEntry()) }
		in := &Inst{Steps: []func() string{func() string { return fmt.Sprint(err) }, read, read, func() string { return read() + read() }, func() string { return fmt.Sprint(rd.Close()) }}}
		in.Final = func() string { return fmt.Sprint(js(data) == keep) }
		return in
	}}
}

func normaliser() Kind {
	return Kind{Name: "line ending normaliser", Plain: true, New: func(v int, _ *dataset.Structure) *Inst {
		data := []byte(fmt.Sprintf("a%d\rb\r\nc\n\r\r", v))
		keep := string(data)
		in := &Inst{}
		r := replacecr.Reader(src{bytes.NewReader(data), in})
		read := func(n int) func() string {
			return func() string {
				p := make([]byte, n)
				m, err := r.Read(p)
				return fmt.Sprintf("%q %v", p[:m], err)
			}
		}
		in.Steps = []func() string{read(2), read(3), read(1), read(20), read(20)}
		in.Final = func() string { return fmt.Sprint(string(data) == keep) }
		return in
	}}
}

func generator() Kind {
	return Kind{Name: "generator", New: func(v int, _ *dataset.Structure) *Inst {
		st := body.St("json", "", body.Table("integer", "string", "number", "boolean"), nil)
		before := js(st)
		var g *generate.TabularGenerator
		vg := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(int64(v + 1))), MaxStringLength: 9}
		var got []dsio.Entry
		read := func() string {
			e, err := g.ReadEntry()
			if err == nil {
				got = append(got, e)
			}
			return show(e, err)
		}
		in := &Inst{Steps: []func() string{func() string {
			var err error
			g, err = generate.NewTabularGenerator(st, generate.AssignSeed, generate.AssignMaxLen)
			return fmt.Sprint(err, vg.Value(), vg.String())
		}, read, read, func() string { return fmt.Sprint(g.Close(), vg.Int(), vg.Float(), vg.Type("string")) }}}
		in.Final = func() string { return fmt.Sprint(js(got), js(st) == before) }
		return in
	}}
}

func validator() Kind {
	return Kind{Name: "validator", New: func(v int, _ *dataset.Structure) *Inst {
		st := body.St("json", "", map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer", "maximum": float64(v + 3)}}, nil)
		before := js(st)
		val := func() string {
			sch, err := st.JSONSchema()
			if err != nil {
				return err.Error()
			}
			rd, err := dsio.NewEntryReader(st, strings.NewReader(`[1,"a",4,9,2]`))
			if err != nil {
				return err.Error()
			}
			errs, err := validate.EntryReader(rd)
			_ = sch
			return fmt.Sprint(js(errs), err)
		}
		cols := func() string {
			c, p, err := tabular.ColumnsFromJSONSchema(body.Table("integer", "string"))
			return fmt.Sprint(js(c), p, err)
		}
		in := &Inst{Steps: []func() string{val, cols, val}}
		in.Final = func() string { return fmt.Sprint(js(st) == before) }
		return in
	}}
}

func sample(v int) *dataset.Dataset {
	ds := &dataset.Dataset{Name: fmt.Sprint("n", v), Peername: "p",
		Meta:      &dataset.Meta{Title: fmt.Sprint("title ", v), Keywords: []string{"a", fmt.Sprint(v)}},
		Commit:    &dataset.Commit{Title: fmt.Sprint("commit ", v), Author: &dataset.User{ID: "u"}},
		Structure: shape{format: "json"}.st(),
		Transform: &dataset.Transform{Config: map[string]interface{}{"a": v}},
	}
	ds.Meta.Set("custom", v)
	return ds
}

func testCase() Kind {
	return Kind{Name: "test case", New: func(v int, _ *dataset.Structure) *Inst {
		top, err := os.MkdirTemp("", "vmc-case")
		if err != nil {
			panic(err)
		}
		dir := filepath.Join(top, fmt.Sprint("case", v))
		os.Mkdir(dir, 0700)
		os.WriteFile(filepath.Join(dir, "input.dataset.json"), []byte(fmt.Sprintf(`{"name":"case%d","meta":{"title":"t%d"}}`, v, v)), 0600)
		os.WriteFile(filepath.Join(dir, "body.json"), []byte(fmt.Sprintf("[%d]", v)), 0600)
		var got []string
		load := func() string {
			tc, err := dstest.NewTestCaseFromDir(dir)
			if err != nil {
				return err.Error()
			}
			out := fmt.Sprint(js(tc.Input), tc.BodyFilename, string(tc.Body))
			got = append(got, out)
			return out
		}
		return &Inst{Steps: []func() string{load, load}, Final: func() string {
			os.RemoveAll(top)
			return fmt.Sprint(got)
		}}
	}}
}

func document() Kind {
	return Kind{Name: "document", New: func(v int, _ *dataset.Structure) *Inst {
		ds := sample(v)
		var data []byte
		got := &dataset.Dataset{}
		in := &Inst{Steps: []func() string{
			func() string {
				var err error
				data, err = ds.MarshalJSON()
				return fmt.Sprint(string(data), err)
			},
			func() string { return fmt.Sprint(got.UnmarshalJSON(data), js(got)) },
			func() string {
				b := ds.SigningBytes()
				return fmt.Sprintf("%x", b)
			},
			func() string {
				d2 := &dataset.Dataset{}
				d2.Assign(ds, got)
				d2.DropTransientValues()
				d2.Structure.Schema["type"] = "object"
				return js(d2)
			},
		}}
		in.Final = func() string { return js(got) + string(data) }
		return in
	}}
}

func rendering() Kind {
	return Kind{Name: "rendering", New: func(v int, _ *dataset.Structure) *Inst {
		mk := func() *dataset.Dataset {
			ds := sample(v)
			ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(fmt.Sprintf("[[%d,\"a\"]]", v))))
			ds.Viz = &dataset.Viz{Format: "html"}
			ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t.html", []byte(fmt.Sprintf("%d {{ ds.meta.title }} {{ ds.name }} {{ ds.commit.title }}", v))))
			return ds
		}
		render := func() string {
			f, err := dsviz.Render(mk())
			if err != nil {
				return err.Error()
			}
			b, err := io.ReadAll(f)
			return fmt.Sprint(string(b), err)
		}
		return &Inst{Steps: []func() string{render, render}, Final: func() string { return "" }}
	}}
}

func previewed() Kind {
	return Kind{Name: "preview", New: func(v int, _ *dataset.Structure) *Inst {
		ds := sample(v)
		ds.SetBodyFile(qfs.NewMemfileBytes("body.json", shape{format: "json"}.raw(v)))
		ds.Readme = &dataset.Readme{}
		ds.Readme.SetScriptFile(qfs.NewMemfileBytes("r.md", []byte(strings.Repeat(fmt.Sprint(v), 1500))))
		var p *dataset.Dataset
		take := func() string {
			var err error
			p, err = preview.Create(context.Background(), ds)
			return fmt.Sprint(js(p), err)
		}
		in := &Inst{Steps: []func() string{take, take, func() string {
			d, err := dsdiff.DiffDatasets(sample(v), sample(v+1), nil)
			return fmt.Sprint(js(d), err)
		}}}
		in.Final = func() string { return js(p) }
		return in
	}}
}

// Kinds are all machines.
func Kinds() (ks []Kind) {
	hdr := map[string]interface{}{"headerRow": true}
	shapes := []shape{{format: "json"}, {format: "json", obj: true}, {format: "json", comp: "zst"}, {format: "ndjson"}, {format: "ndjson", comp: "gzip"},
		{format: "cbor"}, {format: "cbor", obj: true}, {format: "csv"}, {format: "csv", comp: "gzip", cfg: hdr}, {format: "xlsx"}}
	for _, s := range shapes {
		ks = append(ks, reader(s, false, 0), writer(s))
		if s.format != "xlsx" {
			ks = append(ks, buffer(s))
		}
	}
	ks = append(ks, reader(shape{format: "json"}, true, 0), reader(shape{format: "json"}, false, 16), reader(shape{format: "json", obj: true}, false, 100), writer(shape{format: "json", cfg: map[string]interface{}{"pretty": true}}), stats(false), stats(true), sketch(), identity(), document(), testCase(), rendering(), previewed(), normaliser(), generator(), validator())
	ks = append(ks,
		detector("body.csv", func(v int) []byte { return []byte(fmt.Sprintf("name%d,b\n%d,x\n3,y\n", v, v)) }),
		detector("body.json", func(v int) []byte { return []byte(fmt.Sprintf(" [%d]", v)) }),
		detector("body.object.json", func(v int) []byte { return []byte(fmt.Sprintf(`{"a":%d}`, v)) }),
		detector("body.ndjson", func(v int) []byte { return []byte(fmt.Sprintf("%d\n", v)) }),
		detector("body.cbor", func(v int) []byte { return []byte{0x81, byte(v)} }),
		detector("body.xlsx", func(v int) []byte { return []byte("PK") }))
	return ks
}

// Solo gives what an instance gives alone.
func Solo(k Kind, v int, st *dataset.Structure) []string {
	in := k.New(v, st)
	var out []string
	for _, s := range in.Steps {
		out = append(out, s())
	}
	return append(out, in.Final())
}
