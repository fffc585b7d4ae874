// C41: a reader, writer or detector made directly for a format behaves as the general one does,
// tracked bytes are counted exactly, and abstract column names are the bijective numbering.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"

	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C41", Level: "model_checking",
		Rule:   "every format, compression, setting and body, whole, cut at every byte and with a byte changed: the reader, the writer and the schema detector made for the format directly are compared with those made from the structure; every history of answers of a source under a tracking reader is compared with the sum of the bytes delivered; every abstract column name is compared with its number",
		Bounds: "5 formats by up to 3 compressions by 12 bodies of up to 4 entries; all cuts and all single byte changes by 3 values (quick: for a third of the compressed bodies and every 5th cut and byte of xlsx files); histories of up to 4 (5 thorough) reads with 6 answers and 4 buffer sizes; column numbers up to 500000 (2000000 thorough); pairs of 24 texts as integers and numbers",
		Body:   run})
}

type form struct {
	format, comp string
	cfg          map[string]interface{}
	obj          bool
}

func (f form) st() *dataset.Structure {
	sch := body.Arr()
	if f.obj {
		sch = body.Obj()
	}
	if f.format == "csv" || f.format == "xlsx" {
		sch = body.Table("string", "integer")
	}
	return body.St(f.format, f.comp, sch, f.cfg)
}

func forms() (out []form) {
	for _, comp := range []string{"", "gzip", "zst"} {
		for _, f := range []string{"json", "ndjson", "cbor", "csv"} {
			out = append(out, form{format: f, comp: comp})
			if f == "json" || f == "cbor" {
				out = append(out, form{format: f, comp: comp, obj: true})
			}
			if f == "csv" {
				out = append(out, form{format: f, comp: comp, cfg: map[string]interface{}{"headerRow": true, "separator": "\t", "variadicFields": true}},
					form{format: f, comp: comp, cfg: map[string]interface{}{"lazyQuotes": true}})
			}
			if f == "json" {
				out = append(out, form{format: f, comp: comp, cfg: map[string]interface{}{"pretty": true}})
			}
		}
	}
	return append(out, form{format: "xlsx"}, form{format: "xlsx", cfg: map[string]interface{}{"sheetName": "Other"}})
}

func direct(f form, r io.Reader) (dsio.EntryReader, error) {
	switch f.format {
	case "json":
		return rd(dsio.NewJSONReader(f.st(), r))
	case "ndjson":
		return rd(dsio.NewNDJSONReader(f.st(), r))
	case "cbor":
		return rd(dsio.NewCBORReader(f.st(), r))
	case "csv":
		return rd(dsio.NewCSVReader(f.st(), r))
	}
	return rd(dsio.NewXLSXReader(f.st(), r))
}

func rd[T dsio.EntryReader](x T, err error) (dsio.EntryReader, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

func wr[T dsio.EntryWriter](x T, err error) (dsio.EntryWriter, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

func directWriter(f form, w io.Writer) (dsio.EntryWriter, error) {
	switch f.format {
	case "json":
		return wr(dsio.NewJSONWriter(f.st(), w))
	case "ndjson":
		return wr(dsio.NewNDJSONWriter(f.st(), w))
	case "cbor":
		return wr(dsio.NewCBORWriter(f.st(), w))
	case "csv":
		return wr(dsio.NewCSVWriter(f.st(), w))
	}
	return wr(dsio.NewXLSXWriter(f.st(), w))
}

func directSchema(f form, st *dataset.Structure, r io.Reader) (map[string]interface{}, int, error) {
	switch f.format {
	case "json":
		return detect.JSONSchema(st, r)
	case "ndjson":
		return detect.NDJSONSchema(st, r)
	case "cbor":
		return detect.CBORSchema(st, r)
	case "csv":
		return detect.CSVSchema(st, r)
	}
	return detect.XLSXSchema(st, r)
}

func bodies(f form) (out [][]dsio.Entry) {
	rows := []interface{}{[]interface{}{"a", int64(1)}, []interface{}{"b, \"c\"", int64(-2)}, []interface{}{"", int64(0)}, []interface{}{"x\ny", int64(44)}}
	for n := 0; n <= 4; n++ {
		out = append(out, list(f, rows[:n]))
	}
	if f.format != "csv" && f.format != "xlsx" {
		for _, v := range []interface{}{nil, "text", true, 2.5, map[string]interface{}{"k": []interface{}{nil}}, []interface{}{[]interface{}{}}, ""} {
			out = append(out, list(f, []interface{}{v, v}))
		}
	}
	return
}

func list(f form, vs []interface{}) []dsio.Entry {
	es := make([]dsio.Entry, len(vs))
	for i, v := range vs {
		es[i] = dsio.Entry{Index: i, Value: v}
		if f.obj {
			es[i].Key = fmt.Sprint("k", i)
		}
	}
	return es
}

// all reads to the end or the first error.
func all(r dsio.EntryReader, err error) ([]dsio.Entry, string, string) {
	if err != nil {
		return nil, "refused: " + err.Error(), ""
	}
	var es []dsio.Entry
	for len(es) < 50 {
		e, err := r.ReadEntry()
		if err == io.EOF {
			break
		}
		if err != nil {
			return es, "fails: " + err.Error(), fmt.Sprint(r.Close())
		}
		es = append(es, e)
	}
	return es, "", fmt.Sprint(r.Close())
}

type answers struct {
	plan  func() (int, error)
	sum   int
	shut  int
	fail  error
	bytes byte
}

func (a *answers) Read(p []byte) (int, error) {
	n, err := a.plan()
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		a.bytes++
		p[i] = a.bytes
	}
	a.sum += n
	return n, err
}

type closing struct{ *answers }

func (a closing) Close() error { a.shut++; return a.fail }

func run(r *kit.Run) {
	fs := forms()
	made := map[[2]int][]byte{}
	r.Explore("readers and schemas", func(c *kit.C) func(t *kit.T) {
		fi := c.Choose(len(fs))
		f := fs[fi]
		b := c.Choose(len(bodies(f)))
		id := [2]int{fi, b}
		if _, ok := made[id]; !ok {
			buf := &bytes.Buffer{}
			if err := body.WriteBody(f.st(), buf, body.CloneEntries(bodies(f)[b])); err != nil {
				panic(err)
			}
			made[id] = buf.Bytes()
		}
		data := made[id]
		how := c.Choose(3)
		if f.comp != "" && how > 0 && b%3 != 2 && !r.Thorough {
			return nil
		}
		if len(data) == 0 && how > 0 {
			return nil
		}
		if how > 0 && f.format == "xlsx" && b != 2 {
			return nil
		}
		x := append([]byte{}, data...)
		switch how {
		case 1:
			x = x[:c.Choose(len(x))]
			if f.format == "xlsx" && len(x)%5 > 0 && !r.Thorough {
				return nil
			}
		case 2:
			i := c.Choose(len(x))
			if f.format == "xlsx" && i%5 > 0 && !r.Thorough {
				return nil
			}
			x[i] ^= kit.Pick(c, []byte{1, 0x20, 0x80})
		}
		return func(t *kit.T) {
			ctx := fmt.Sprintf("%+v body %q", f, x)
			if len(ctx) > 400 {
				ctx = ctx[:400]
			}
			g, ge, gc := all(dsio.NewEntryReader(f.st(), bytes.NewReader(x)))
			d, de, dc := all(direct(f, bytes.NewReader(x)))
			t.Op(2)
			if (ge == "") != (de == "") || gc != dc || !body.EqEntries(g, d, true, body.EqTyped) {
				t.Failf("%s: read as %s %q close %q; directly as %s %q close %q", ctx, body.ShowEntries(g), ge, gc, body.ShowEntries(d), de, dc)
			}
			if ge == "" && len(g) < 50 {
				// reading everything at once
				if rd, err := direct(f, bytes.NewReader(x)); err == nil {
					var got, want interface{}
					if f.obj {
						m := map[string]interface{}{}
						for _, e := range g {
							m[e.Key] = e.Value
						}
						want = m
						got, err = dsio.ReadAllObject(rd)
					} else {
						l := []interface{}{}
						for _, e := range g {
							l = append(l, e.Value)
						}
						want = l
						got, err = dsio.ReadAllArray(rd)
					}
					t.Op(1)
					rd.Close()
					if err != nil || !body.EqTyped(got, want) {
						t.Failf("%s: all of it is %s, error %v; want %s", ctx, body.Show(got), err, body.Show(want))
					}
				}
			}
			if f.comp == "" {
				s1, s2 := f.st(), f.st()
				a, n, err := detect.Schema(s1, bytes.NewReader(x))
				b, m, err2 := directSchema(f, s2, bytes.NewReader(x))
				t.Op(2)
				if (err == nil) != (err2 == nil) || n != m || !body.Eq(a, b) || !body.Eq(s1.FormatConfig, s2.FormatConfig) {
					t.Failf("%s: schema %v (%d bytes, error %v), directly %v (%d bytes, error %v)", ctx, a, n, err, b, m, err2)
				}
			}
			t.State(f.format, f.comp, f.obj, len(g), ge == "")
			t.Trace()
		}
	})
	r.Explore("writers", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, fs)
		es := kit.Pick(c, bodies(f))
		fail := c.Choose(2) == 1
		return func(t *kit.T) {
			var outs [2][]dsio.Entry
			var raw [2][]byte
			var errs [2]string
			for i := range outs {
				buf := &bytes.Buffer{}
				var w dsio.EntryWriter
				var err error
				var sink io.Writer = buf
				if fail {
					sink = &failing{}
				}
				if i == 0 {
					w, err = dsio.NewEntryWriter(f.st(), sink)
				} else {
					w, err = directWriter(f, sink)
				}
				if err == nil {
					for _, e := range body.CloneEntries(es) {
						if err = w.WriteEntry(e); err != nil {
							break
						}
					}
					if cerr := w.Close(); err == nil {
						err = cerr
					}
				}
				t.Op(len(es) + 2)
				if err != nil {
					errs[i] = "fails"
					continue
				}
				raw[i] = buf.Bytes()
				outs[i], err = body.ReadBody(f.st(), bytes.NewReader(raw[i]), 50)
				if err != nil {
					errs[i] = err.Error()
				}
			}
			if errs[0] != errs[1] || !body.EqEntries(outs[0], outs[1], true, body.EqTyped) || f.format != "xlsx" && !bytes.Equal(raw[0], raw[1]) {
				t.Failf("%+v %s: written as %q (%s), directly as %q (%s)", f, body.ShowEntries(es), raw[0], errs[0], raw[1], errs[1])
			}
			if !fail && errs[0] != "" {
				t.Failf("%+v %s: %s", f, body.ShowEntries(es), errs[0])
			}
			t.State(f.format, f.comp, raw[0])
			t.Trace()
		}
	})
	r.Explore("readers of everything that fail", func(c *kit.C) func(t *kit.T) {
		n := c.Choose(4)
		obj := c.Bool()
		bad := c.Range(-1, n)
		dup := c.Bool()
		return func(t *kit.T) {
			f := form{format: "json", obj: obj}
			vs := []interface{}{"a", nil, int64(3)}[:n]
			src := &lister{st: f.st(), es: list(f, vs), bad: bad}
			if dup {
				for i := range src.es {
					if obj {
						src.es[i].Key = "same"
					}
				}
			}
			var got interface{}
			var err error
			if obj {
				var m map[string]interface{}
				m, err = dsio.ReadAllObject(src)
				got = m
				if err == nil && m == nil {
					t.Failf("no object")
				}
			} else {
				var l []interface{}
				l, err = dsio.ReadAllArray(src)
				got = l
				if err == nil && l == nil {
					t.Failf("no array")
				}
			}
			t.Op(n + 1)
			ctx := fmt.Sprintf("%d entries object=%v failing at %d, repeated=%v", n, obj, bad, dup)
			if (bad >= 0) != (err != nil) || err != nil && !errors.Is(err, body.ErrFault) {
				t.Failf("%s: error %v", ctx, err)
			}
			if bad < 0 {
				want := interface{}(vs)
				if obj {
					m := map[string]interface{}{}
					for _, e := range src.es {
						m[e.Key] = e.Value
					}
					want = m
				}
				if !body.Eq(got, want) {
					t.Failf("%s: got %s", ctx, body.Show(got))
				}
			}
			t.State(ctx)
			t.Trace()
		}
	})
	depth := r.T0(4, 5)
	r.Explore("tracked bytes", func(c *kit.C) func(t *kit.T) {
		type step struct {
			size, give int
			err        error
		}
		var steps []step
		k := c.Range(1, depth)
		for i := 0; i < k; i++ {
			s := step{size: c.Choose(4)}
			switch c.Choose(6) {
			case 0:
				s.give = 3
			case 1:
				s.give = 1
			case 2:
				s.give = 0
			case 3:
				s.give, s.err = 2, io.EOF
			case 4:
				s.give, s.err = 1, body.ErrFault
			case 5:
				s.err = io.EOF
			}
			steps = append(steps, s)
		}
		kind := c.Choose(3)
		return func(t *kit.T) {
			i := 0
			src := &answers{plan: func() (int, error) { return steps[i].give, steps[i].err }}
			var under io.Reader = src
			if kind > 0 {
				under = closing{src}
				if kind == 2 {
					src.fail = body.ErrFault
				}
			}
			tr := dsio.NewTrackedReader(under)
			if tr.BytesRead() != 0 {
				t.Failf("a new reader has read %d bytes", tr.BytesRead())
			}
			var last byte
			for i = 0; i < len(steps); i++ {
				p := make([]byte, steps[i].size)
				before := src.sum
				n, err := tr.Read(p)
				t.Op(1)
				if n != src.sum-before || err != steps[i].err || tr.BytesRead() != src.sum {
					t.Failf("%v: read %d gave %d bytes, error %v, %d in all; the source gave %d", steps, i, n, err, tr.BytesRead(), src.sum)
				}
				for j := 0; j < n; j++ {
					last++
					if p[j] != last {
						t.Failf("%v: read %d gave other bytes", steps, i)
					}
				}
				t.State(tr.BytesRead(), n, err)
			}
			if err := tr.Close(); err != src.fail || src.shut != map[bool]int{false: 0, true: 1}[kind > 0] || tr.BytesRead() != src.sum {
				t.Failf("closing gave %v, the source was closed %d times", err, src.shut)
			}
			t.Trace()
		}
	})
	limit := r.T0(500000, 2000000)
	const chunk = 10000
	r.Explore("formats without readers and writers", func(c *kit.C) func(t *kit.T) {
		format := kit.Pick(c, []string{"", "xml", ".xml", "nope", "txt", "JSO", "csvx", "\x00", " "})
		comp := kit.Pick(c, []string{"", "gzip", "zst", "nope"})
		obj := c.Bool()
		data := kit.Pick(c, []string{"", "[]", "<a></a>"})
		return func(t *kit.T) {
			schema := body.Arr()
			if obj {
				schema = body.Obj()
			}
			mk := func() *dataset.Structure { return body.St(format, comp, schema, nil) }
			t.Op(4)
			if rd, err := dsio.NewEntryReader(mk(), strings.NewReader(data)); err == nil {
				t.Failf("a reader of format %q, compression %q: %v, error %v", format, comp, rd, err)
			}
			b := &bytes.Buffer{}
			if w, err := dsio.NewEntryWriter(mk(), b); err == nil {
				t.Failf("a writer of format %q, compression %q: %v, error %v", format, comp, w, err)
			}
			if b.Len() > 0 {
				t.Failf("a refused writer of format %q wrote %q", format, b)
			}
			if buf, err := dsio.NewEntryBuffer(mk()); err == nil {
				t.Failf("a buffer of format %q, compression %q: %v, error %v", format, comp, buf, err)
			}
			for _, ok := range []string{"json", "cbor"} {
				for _, from := range []bool{true, false} {
					in, out := mk(), body.St(ok, "", schema, nil)
					if !from {
						in, out = out, in
					}
					empty := "[]"
					if obj {
						empty = "{}"
					}
					if ok == "cbor" {
						empty = map[bool]string{true: "\xa0", false: "\x80"}[obj]
					}
					if from {
						empty = data
					}
					if _, err := dsio.ConvertFile(qfs.NewMemfileBytes("b", []byte(empty)), in, out, 0, 0, true); err == nil {
						t.Failf("conversion of %q from %q to %q gives no error", empty, in.Format, out.Format)
					}
				}
			}
			t.Trace()
			t.State(format, comp, obj)
		}
	})
	r.Explore("column names", func(c *kit.C) func(t *kit.T) {
		k := c.Choose(limit / chunk)
		return func(t *kit.T) {
			for i := k * chunk; i < (k+1)*chunk; i++ {
				s := dataset.AbstractColumnName(i)
				// the number back from the name
				n := 0
				for _, ch := range s {
					if ch < 'a' || ch > 'z' {
						t.Failf("column %d is named %q", i, s)
					}
					n = n*26 + int(ch-'a') + 1
				}
				if s == "" || n != i+1 {
					t.Failf("column %d is named %q, the name of column %d", i, s, n-1)
				}
			}
			t.Op(chunk)
			t.State(k)
			t.Trace()
		}
	})
	texts := []string{"0", "1", "-1", "2", "10", "9", "-10", "+1", "007", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "1e3", "-0.0", "1e400", "0x10", "", "a", " 1", "null", "NaN", "Inf", "1_000"}
	r.Explore("comparisons", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, texts), kit.Pick(c, texts)
		return func(t *kit.T) {
			for _, k := range []struct {
				name string
				typ  vals.Type
				f    func(a, b []byte) (int, error)
			}{{"integer", vals.TypeInteger, vals.CompareIntegerBytes}, {"number", vals.TypeNumber, vals.CompareNumberBytes}} {
				x, err := k.f([]byte(a), []byte(b))
				y, err2 := vals.CompareTypeBytes([]byte(a), []byte(b), k.typ)
				z, err3 := k.f([]byte(b), []byte(a))
				t.Op(3)
				empty := strings.TrimSpace(a) == "" || strings.TrimSpace(b) == ""
				if !empty && ((err == nil) != (err2 == nil) || err == nil && x != y) {
					t.Failf("%q and %q compare as %s %d (%v), by type %d (%v)", a, b, k.name, x, err, y, err2)
				}
				if (err == nil) != (err3 == nil) || err == nil && a != "NaN" && b != "NaN" && x != -z {
					t.Failf("%q and %q compare as %s %d (%v), the other way %d (%v)", a, b, k.name, x, err, z, err3)
				}
				t.State(k.name, a, b, x, err == nil)
			}
			t.Trace()
		}
	})
}

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, body.ErrFault }

type lister struct {
	st       *dataset.Structure
	es       []dsio.Entry
	bad, pos int
}

func (l *lister) Structure() *dataset.Structure { return l.st }
func (l *lister) Close() error                  { return nil }
func (l *lister) ReadEntry() (dsio.Entry, error) {
	if l.pos == l.bad {
		return dsio.Entry{}, body.ErrFault
	}
	if l.pos >= len(l.es) {
		return dsio.Entry{}, io.EOF
	}
	l.pos++
	return l.es[l.pos-1], nil
}
