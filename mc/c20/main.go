// C20: detection never alters what it was given and gives a readable structure.
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C20", Level: "model_checking",
		Rule:   "detection run on every body of a family in every format and compression, with every combination of fields set beforehand, on every short byte string, and with a read fault at every offset; the structure is compared with the fields set and with the content, the body read back byte for byte and entry by entry",
		Bounds: "bodies of 0 to 3 entries behind white space of up to 300 bytes, 162 combinations of preset fields, byte strings to length 3 (thorough 4) over 18 bytes, CSV tables of up to 2 rows (thorough 3) of up to 3 cells over 9 cells; one fault for each execution",
		Assume: []string{"file names end in the extension of the body's format and compression"},
		Body:   run})
}

const dir = "/some.dir/in.csv/"

type file struct {
	name  string // with extension
	data  []byte
	chunk int
	fail  int
}

func (f file) open() (*dataset.Dataset, *body.Source) {
	src := body.NewSource(f.data, f.chunk, false)
	src.Fail = f.fail
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileReaderSize(dir+f.name, src, int64(len(f.data))))
	return ds, src
}

// intact reads the body and compares it with what it was at first.
func intact(t *kit.T, ctx string, ds *dataset.Dataset, src *body.Source) {
	b := ds.BodyFile()
	if b == nil {
		t.Failf("%s: the body is gone", ctx)
	}
	if sf, ok := b.(qfs.SizeFile); !ok || sf.Size() != int64(len(src.Data)) {
		t.Failf("%s: the body of %d bytes does not know its size", ctx, len(src.Data))
	}
	if b.FullPath() != dir+filepath.Base(b.FullPath()) {
		t.Failf("%s: the body's path is %q", ctx, b.FullPath())
	}
	got, err := ioutil.ReadAll(b)
	want, fault := src.Data, false
	if src.Fail >= 0 {
		want, fault = want[:src.Fail], true
	}
	if !bytes.Equal(got, want) || (err != nil) != fault {
		t.Failf("%s: afterwards the body reads %d bytes %.80q, error %v; it has %d bytes %.80q", ctx, len(got), got, err, len(want), want)
	}
}

type kind struct {
	ext, format string
	top         string
	encode      func(es []dsio.Entry) []byte
}

func write(st *dataset.Structure, es []dsio.Entry) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(st, buf, es); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func kinds() []kind {
	enc := func(format string, schema map[string]interface{}) func(es []dsio.Entry) []byte {
		return func(es []dsio.Entry) []byte { return write(body.St(format, "", schema, nil), es) }
	}
	return []kind{
		{"json", "json", "array", enc("json", body.Arr())},
		{"json", "json", "object", enc("json", body.Obj())},
		{"ndjson", "ndjson", "array", enc("ndjson", body.Arr())},
		{"jsonl", "ndjson", "array", enc("ndjson", body.Arr())},
		{"cbor", "cbor", "array", enc("cbor", body.Arr())},
		{"cbor", "cbor", "object", enc("cbor", body.Obj())},
		{"csv", "csv", "array", func(es []dsio.Entry) []byte {
			return write(body.St("csv", "", body.Table("string", "integer"), map[string]interface{}{"headerRow": true}), es)
		}},
		{"csv", "csv", "array", func(es []dsio.Entry) []byte {
			return append([]byte("head,2\n"), write(body.St("csv", "", body.Table("string", "integer"), nil), es)...)
		}},
	}
}

func (k kind) entries(n int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		es[i] = dsio.Entry{Index: i, Value: []interface{}{fmt.Sprintf("text \"%d\"", i), int64(i)}}
		if k.top == "object" {
			es[i].Key = fmt.Sprint("k", i)
		}
	}
	return es
}

type comp struct{ ext, name string }

var comps = []comp{{"", ""}, {".gzip", "gzip"}, {".zst", "zst"}}

func squeeze(t *kit.T, c comp, data []byte) []byte {
	if c.name == "" {
		return data
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(c.name, buf)
	if err != nil {
		t.Failf("compressor: %v", err)
	}
	w.Write(data)
	w.Close()
	return buf.Bytes()
}

func topOf(st *dataset.Structure) string {
	if st == nil || st.Schema == nil {
		return "none"
	}
	s, _ := st.Schema["type"].(string)
	return s
}

// set is the structure with the fields that a case sets beforehand
func set(format, comp, schema, cfg, rest int, k kind, c comp) (*dataset.Structure, bool) {
	st := &dataset.Structure{}
	switch format {
	case 1:
		st.Format = k.format
	case 2:
		st.Format = "xml"
	}
	switch comp {
	case 1:
		st.Compression = c.name
	case 2:
		st.Compression = "gzip"
	}
	switch schema {
	case 1:
		st.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array"}}
	case 2:
		st.Schema = map[string]interface{}{}
	}
	switch cfg {
	case 1:
		st.FormatConfig = map[string]interface{}{"headerRow": false}
	case 2:
		st.FormatConfig = map[string]interface{}{}
	}
	if rest == 1 {
		st.Checksum, st.Depth, st.Encoding, st.Entries, st.ErrCount, st.Length, st.Path, st.Strict, st.Qri = "c", 3, "utf-8", 5, 6, 7, "/p", true, "st:0"
	}
	return st, format != 2
}

func clone(st *dataset.Structure) *dataset.Structure {
	c := *st
	if st.Schema != nil {
		c.Schema = body.Clone(st.Schema).(map[string]interface{})
	}
	if st.FormatConfig != nil {
		c.FormatConfig = body.Clone(st.FormatConfig).(map[string]interface{})
	}
	return &c
}

func run(r *kit.Run) {
	ks := kinds()
	r.Explore("bodies", func(c *kit.C) func(t *kit.T) {
		k, cp := kit.Pick(c, ks), kit.Pick(c, comps)
		n := c.Choose(4)
		pad := 0
		if k.format == "json" {
			pad = kit.Pick(c, []int{0, 1, 98, 99, 100, 101, 199, 200, 201, 300})
		}
		chunk := kit.Pick(c, []int{0, 1, 7, 100})
		nilSt := c.Bool()
		return func(t *kit.T) {
			es := k.entries(n)
			raw := append(bytes.Repeat([]byte("\n"), pad), k.encode(es)...)
			if k.format == "cbor" && k.top == "object" {
				es, _ = body.ReadBody(body.St("cbor", "", body.Obj(), nil), bytes.NewReader(raw), n+1)
			}
			f := file{"body." + k.ext + cp.ext, squeeze(t, cp, raw), chunk, -1}
			ctx := fmt.Sprintf("%s of %d entries behind %d bytes of white space", f.name, n, pad)
			var prev *dataset.Structure
			for i := 0; i < 3; i++ {
				ds, src := f.open()
				if !nilSt {
					ds.Structure = &dataset.Structure{}
				}
				t.Op(1)
				if err := detect.Structure(ds); err != nil {
					t.Failf("%s: %v", ctx, err)
				}
				st := ds.Structure
				if st.Format != k.format || st.Compression != cp.name || topOf(st) != k.top {
					t.Failf("%s: detected %s", ctx, show(st))
				}
				b := ds.BodyFile()
				saved, _ := ioutil.ReadAll(b)
				ds.SetBodyFile(qfs.NewMemfileReaderSize(b.FullPath(), bytes.NewReader(saved), b.(qfs.SizeFile).Size()))
				intact(t, ctx, ds, src)
				got, err := body.ReadBody(st, bytes.NewReader(saved), 20)
				want := es
				if k.format == "csv" && st.FormatConfig["headerRow"] != true {
					if len(got) != n+1 || err != nil {
						t.Failf("%s: detected %s reads as %s, error %v", ctx, show(st), body.ShowEntries(got), err)
					}
					got = got[1:]
				}
				if err != nil || !body.EqEntries(got, want, false, body.Eq) {
					t.Failf("%s: detected %s reads as %s, error %v; instead of %s", ctx, show(st), body.ShowEntries(got), err, body.ShowEntries(want))
				}
				if prev != nil && !reflect.DeepEqual(prev, st) {
					t.Failf("%s: detected %s at first, then %s", ctx, show(prev), show(st))
				}
				prev = clone(st)
				// a result belongs to its receiver
				spoil(st.Schema)
				spoil(st.FormatConfig)
				st.Format = "spoiled"
			}
			t.Trace()
		}
	})

	r.Explore("fields set beforehand", func(c *kit.C) func(t *kit.T) {
		k, cp := kit.Pick(c, ks), kit.Pick(c, comps)
		f1, f2, f3, f4, f5 := c.Choose(3), c.Choose(3), c.Choose(3), c.Choose(3), c.Choose(2)
		fault := c.Choose(3)
		return func(t *kit.T) {
			raw := squeeze(t, cp, k.encode(k.entries(2)))
			f := file{"body." + k.ext + cp.ext, raw, 0, []int{-1, 0, 1}[fault]}
			ds, src := f.open()
			st, sameFormat := set(f1, f2, f3, f4, f5, k, cp)
			orig := clone(st)
			ds.Structure = st
			ds.Name, ds.Meta = "n", &dataset.Meta{Title: "t"}
			ctx := fmt.Sprintf("%s with %s, fault at %d", f.name, show(orig), f.fail)
			t.Op(1)
			err := detect.Structure(ds)
			intact(t, ctx, ds, src)
			got := ds.Structure
			if got == nil || ds.Name != "n" || ds.Meta == nil || ds.Meta.Title != "t" {
				t.Failf("%s: dataset became %v", ctx, ds)
			}
			kept := func(name string, set bool, a, b interface{}) {
				if set && !reflect.DeepEqual(a, b) {
					t.Failf("%s: %s became %v", ctx, name, b)
				}
			}
			kept("format", orig.Format != "" || err != nil, orig.Format, got.Format)
			kept("compression", orig.Compression != "" || err != nil, orig.Compression, got.Compression)
			kept("schema", orig.Schema != nil || err != nil, orig.Schema, got.Schema)
			kept("format config", orig.FormatConfig != nil || err != nil, orig.FormatConfig, got.FormatConfig)
			a, b := *orig, *got
			a.Format, a.Compression, a.Schema, a.FormatConfig = "", "", nil, nil
			b.Format, b.Compression, b.Schema, b.FormatConfig = "", "", nil, nil
			kept("the rest", true, a, b)
			if fault == 0 {
				if err != nil {
					t.Failf("%s: %v", ctx, err)
				}
				if orig.Format == "" && got.Format != k.format {
					t.Failf("%s: format became %q", ctx, got.Format)
				}
				complete := orig.Format != "" && orig.Schema != nil && (orig.Format != "csv" || orig.FormatConfig != nil)
				if !complete && orig.Compression == "" && got.Compression != cp.name {
					t.Failf("%s: compression became %q", ctx, got.Compression)
				}
				if orig.Schema == nil && topOf(got) != k.top {
					t.Failf("%s: schema became %v", ctx, got.Schema)
				}
				if orig.FormatConfig == nil && (got.FormatConfig != nil) != (sameFormat && k.format == "csv") {
					t.Failf("%s: format config became %v", ctx, got.FormatConfig)
				}
			}
			t.Trace()
		}
	})

	// every short content
	alphabet := []byte{0x00, ' ', '\n', '\r', '"', ',', '1', 'a', '[', ']', '{', '}', 0x80, 0x9f, 0xa1, 0xbf, 0xc1, 0xff}
	r.Explore("contents", func(c *kit.C) func(t *kit.T) {
		ext := kit.Pick(c, []string{"json", "cbor", "csv", "ndjson", "xlsx", "xml"})
		var data []byte
		for i, n := 0, c.Range(0, r.T0(3, 4)); i < n; i++ {
			data = append(data, kit.Pick(c, alphabet))
		}
		chunk := c.Choose(2)
		return func(t *kit.T) {
			f := file{"body." + ext, data, chunk, -1}
			ds, src := f.open()
			t.Op(1)
			err := detect.Structure(ds)
			ctx := fmt.Sprintf("%s holding %q", f.name, data)
			intact(t, ctx, ds, src)
			want := ""
			switch ext {
			case "json":
				if s := bytes.TrimLeft(data, " \n\r\t"); len(s) > 0 && s[0] == '[' {
					want = "array"
				} else if len(s) > 0 && s[0] == '{' {
					want = "object"
				}
			case "cbor":
				if len(data) == 0 {
				} else if b := data[0]; b >= 0x80 && b <= 0x9b || b == 0x9f {
					want = "array"
				} else if b >= 0xa0 && b <= 0xbb || b == 0xbf {
					want = "object"
				}
			case "ndjson", "xlsx":
				want = "array"
			case "csv":
				cr := csv.NewReader(bytes.NewReader(bytes.Replace(bytes.Replace(data, []byte("\r\n"), []byte("\n"), -1), []byte("\r"), []byte("\n"), -1)))
				cr.LazyQuotes = true
				cr.FieldsPerRecord = -1
				recs, rerr := cr.ReadAll()
				if rerr == nil && len(recs) > 0 {
					want = "array"
				}
			}
			if (err == nil) != (want != "") || err == nil && topOf(ds.Structure) != want {
				t.Failf("%s: detected %s, error %v; expected top level %q", ctx, show(ds.Structure), err, want)
			}
			if err != nil && ds.Structure != nil {
				t.Failf("%s: error %v beside structure %s", ctx, err, show(ds.Structure))
			}
			if err == nil && ext == "csv" {
				es, rerr := body.ReadBody(ds.Structure, bytes.NewReader(data), 20)
				if rerr != nil {
					t.Failf("%s: detected %s reads as %s, error %v", ctx, show(ds.Structure), body.ShowEntries(es), rerr)
				}
			}
			t.Trace()
		}
	})

	// CSV tables can be read with what is detected
	cells := []string{"a", "1", "", "2.5", "true", `say "x"`, " lead", "two\nlines", "null"}
	r.Explore("tables", func(c *kit.C) func(t *kit.T) {
		var recs [][]string
		n := c.Range(1, r.T0(2, 3))
		for i := 0; i < n; i++ {
			var rec []string
			widest := 3
			if n == 3 {
				widest = 2
			}
			m := c.Range(1, widest)
			for j := 0; j < m; j++ {
				k := len(cells)
				if m == 3 && !r.Thorough {
					k = 5
				}
				rec = append(rec, cells[c.Choose(k)])
			}
			recs = append(recs, rec)
		}
		return func(t *kit.T) {
			buf := &bytes.Buffer{}
			for _, rec := range recs {
				for j, cell := range rec {
					if j > 0 {
						buf.WriteByte(',')
					}
					buf.WriteString(`"` + strings.Replace(cell, `"`, `""`, -1) + `"`)
				}
				buf.WriteByte('\n')
			}
			f := file{"body.csv", buf.Bytes(), 0, -1}
			ds, src := f.open()
			t.Op(1)
			ctx := fmt.Sprintf("table %q", recs)
			if err := detect.Structure(ds); err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			intact(t, ctx, ds, src)
			es, err := body.ReadBody(ds.Structure, bytes.NewReader(f.data), 20)
			want := recs
			if ds.Structure.FormatConfig["headerRow"] == true {
				want = want[1:]
			}
			ok := err == nil && len(es) == len(want)
			for i := range es {
				row, _ := es[i].Value.([]interface{})
				ok = ok && len(row) == len(want[i])
				for j := range row {
					v := row[j]
					b, berr := strconv.ParseBool(want[i][j])
					ok = ok && (fmt.Sprint(v) == want[i][j] || berr == nil && v == b || v == nil && want[i][j] == "null" || v == nil && want[i][j] == "")
				}
			}
			if !ok {
				t.Failf("%s: detected %s, reads as %s, error %v", ctx, show(ds.Structure), body.ShowEntries(es), err)
			}
			t.Trace()
		}
	})

	r.Explore("faults", func(c *kit.C) func(t *kit.T) {
		k, cp := kit.Pick(c, ks), kit.Pick(c, comps)
		n := c.Range(0, 3)
		pad := kit.Pick(c, []int{0, 120})
		if pad > 0 && k.format != "json" {
			return nil
		}
		chunk := kit.Pick(c, []int{0, 1})
		return func(t *kit.T) {
			raw := squeeze(t, cp, append(bytes.Repeat([]byte(" "), pad), k.encode(k.entries(n))...))
			t.Dyn(-1, func(c *kit.C) {
				f := file{"body." + k.ext + cp.ext, raw, chunk, c.Choose(len(raw) + 1)}
				ds, src := f.open()
				t.Op(1)
				err := detect.Structure(ds)
				ctx := fmt.Sprintf("%s failing at byte %d of %d", f.name, f.fail, len(raw))
				intact(t, ctx, ds, src)
				if err != nil && ds.Structure != nil {
					t.Failf("%s: error %v beside structure %s", ctx, err, show(ds.Structure))
				}
				if k.format == "csv" && err == nil {
					t.Failf("%s: detected %s and no error", ctx, show(ds.Structure))
				}
				if err == nil && topOf(ds.Structure) != k.top {
					t.Failf("%s: detected %s", ctx, show(ds.Structure))
				}
				if err == nil && f.fail == 0 && k.format != "ndjson" {
					t.Failf("%s: detected %s from nothing", ctx, show(ds.Structure))
				}
				t.Trace()
			})
		}
	})

	// what the file knows of its size stays as it was
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		k, cp := kit.Pick(c, ks), kit.Pick(c, comps)
		n := c.Choose(3)
		how := c.Choose(body.Sizes)
		ext := kit.Pick(c, []string{"", ".jpg"})
		broken := c.Bool()
		return func(t *kit.T) {
			data := squeeze(t, cp, k.encode(k.entries(n)))
			if broken {
				data = append([]byte("\xff"), data...)
			}
			name := "body." + k.ext + cp.ext + ext
			src := body.NewSource(data, 0, false)
			ds := &dataset.Dataset{}
			ds.SetBodyFile(body.File(dir+name, src, len(data), how))
			t.Op(1)
			err := detect.Structure(ds)
			f := ds.BodyFile()
			if f == nil || !body.SameSize(f, len(data), how) {
				t.Failf("%s of %d bytes that knows its size as %d: afterwards %#v (detection error %v)", name, len(data), how, f, err)
			}
			if got, rerr := ioutil.ReadAll(f); rerr != nil || !bytes.Equal(got, data) {
				t.Failf("%s of %d bytes that knows its size as %d: afterwards it reads %d bytes, error %v", name, len(data), how, len(got), rerr)
			}
			t.Trace()
			t.State(name, how, err)
		}
	})

	r.Explore("names", func(c *kit.C) func(t *kit.T) {
		base := kit.Pick(c, []string{"body", "a.b", "in.csv/body", ".hidden/x", "", "csv", "body.csv.json"})
		ext := kit.Pick(c, []string{"", ".json", ".csv", ".cbor", ".xlsx", ".xml", ".ndjson", ".jsonl", ".jpg", ".", ".JSON", ".js on", "json"})
		cp := kit.Pick(c, []string{"", ".gzip", ".zst", ".bz2", ".lzma", ".gzip.gzip"})
		return func(t *kit.T) {
			t.Op(1)
			name := base + ext + cp
			df, cf, err := detect.FormatFromFilename(name)
			formats := map[string]dataset.DataFormat{".json": dataset.JSONDataFormat, ".csv": dataset.CSVDataFormat, ".cbor": dataset.CBORDataFormat, ".xlsx": dataset.XLSXDataFormat, ".xml": dataset.XMLDataFormat, ".ndjson": dataset.NDJSONDataFormat, ".jsonl": dataset.NDJSONDataFormat}
			e := filepath.Ext(name)
			wantC := compression.FmtNone
			if e == ".gzip" || e == ".zst" {
				wantC, _ = compression.ParseFormat(e[1:])
				e = filepath.Ext(strings.TrimSuffix(name, e))
			}
			want, known := formats[e]
			if (err == nil) != known || known && (df != want || cf != wantC) {
				t.Failf("name %q: format %v, compression %v, error %v", name, df, cf, err)
			}
			if err != nil && df != dataset.UnknownDataFormat {
				t.Failf("name %q: format %v beside error %v", name, df, err)
			}
			// without a known name there is nothing to go by
			ds := &dataset.Dataset{}
			src := body.NewSource([]byte("[1]"), 0, false)
			ds.SetBodyFile(qfs.NewMemfileReaderSize(dir+"x"+filepath.Base("/y"+name), src, 3))
			if _, _, ferr := detect.FormatFromFilename("x" + filepath.Base("/y"+name)); ferr != nil {
				if derr := detect.Structure(ds); derr == nil || ds.Structure != nil {
					t.Failf("name %q: detected %s", name, show(ds.Structure))
				}
				intact(t, name, ds, src)
			}
			t.Trace()
		}
	})

	r.Explore("files on disk", func(c *kit.C) func(t *kit.T) {
		k, cp := kit.Pick(c, ks), kit.Pick(c, comps)
		n := c.Choose(3)
		return func(t *kit.T) {
			tmp, err := os.MkdirTemp("", "vmc-c20-")
			if err != nil {
				t.Failf("%v", err)
			}
			defer os.RemoveAll(tmp)
			raw := squeeze(t, cp, k.encode(k.entries(n)))
			path := filepath.Join(tmp, "body."+k.ext+cp.ext)
			os.WriteFile(path, raw, 0600)
			t.Op(2)
			st, err := detect.FromFile(path)
			ds, _ := file{"body." + k.ext + cp.ext, raw, 0, -1}.open()
			err2 := detect.Structure(ds)
			if err != nil || err2 != nil || !reflect.DeepEqual(st, ds.Structure) {
				t.Failf("file %s: %s, error %v; as a body: %s, error %v", path, show(st), err, show(ds.Structure), err2)
			}
			if after, _ := os.ReadFile(path); !bytes.Equal(after, raw) {
				t.Failf("file %s was changed", path)
			}
			if _, err := detect.FromFile(filepath.Join(tmp, "none."+k.ext)); err == nil {
				t.Failf("detected a file that does not exist")
			}
			t.Trace()
		}
	})
	r.Case("nothing", func(t *kit.T) {
		t.Op(2)
		if err := detect.Structure(nil); err == nil {
			t.Failf("detected nothing")
		}
		ds := &dataset.Dataset{}
		if err := detect.Structure(ds); !errors.Is(err, dataset.ErrNoBody) || ds.Structure != nil {
			t.Failf("dataset without a body: %v, %s", err, show(ds.Structure))
		}
		t.Trace()
	})
}

// spoil changes everything reachable from a schema
func spoil(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			spoil(e)
		}
		for k := range x {
			delete(x, k)
		}
		if x != nil {
			x["spoiled"] = true
		}
	case []interface{}:
		for i := range x {
			spoil(x[i])
			x[i] = "spoiled"
		}
	}
}

func show(st *dataset.Structure) string {
	if st == nil {
		return "no structure"
	}
	return fmt.Sprintf("%+v", *st)
}
