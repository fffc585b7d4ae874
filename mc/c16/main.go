// C16: malformed input never crashes or hangs.
package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	// a runaway allocation ends this process, not the sandbox
	lim := &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	if text := os.Getenv("C16_SCHEMA"); text != "" {
		debug.SetMaxStack(64 << 20)
		rd, err := dsio.NewEntryReader(&dataset.Structure{Format: "json", Schema: parse(text)}, strings.NewReader(os.Getenv("C16_BODY")))
		if err == nil {
			validate.EntryReader(rd)
		}
		return
	}
	kit.Main(kit.Def{Prop: "C16", Level: "model_checking",
		Rule:   "every byte string up to a bounded length over each format's significant bytes, every single-byte change, insertion, deletion, cut and repetition of valid bodies in every format and compression, every small JSON tree as a document, component, schema and format configuration, every short script and every nesting depth around the limit, given to every consumer in the code: readers, detection, validation, stats, preview, conversion, decoding, rendering; each has to end without a panic, with no more entries and no more memory than the input allows",
		Bounds: "byte strings of up to 4 bytes (thorough 5 or 6), one change to a valid body (thorough all 256 byte values), one key with any of 24 values or two keys with any of 9 (thorough 24) in a document, schemas of 4 levels, nesting to 1,000,000",
		Assume: []string{"an execution that makes no progress for 60 s hangs"},
		Hang:   60 * time.Second,
		Body:   run})
}

var heap = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(heap)
	return heap[0].Value.Uint64()
}

// within runs f, which may allocate up to limit bytes.
func within(t *kit.T, ctx string, limit int, f func()) {
	before := allocated()
	f()
	if n := int64(allocated() - before); n > int64(limit) {
		t.Failf("%s: allocates %d bytes", ctx, n)
	}
}

// budget is what consuming n bytes of input may allocate: buffers, and a
// multiple of what the input can decompress to.
func budget(n int, format, comp string) int {
	b := 48<<20 + 4000*n
	switch comp {
	case "gzip", "xz", "bzip2":
		b += 1000 * 1000 * n
	case "zstd":
		b += 2<<30 + 1000*40000*n // a frame may ask for a window of 512 MB
	}
	if format == "xlsx" {
		b += 4 << 30 // up to 1,048,576 rows of a sheet
	}
	return b
}

func most(n int, format, comp string) int {
	switch {
	case format == "xlsx":
		return 1 << 20
	case comp == "zstd":
		return 2 << 20 * (n/4 + 1)
	case comp != "":
		return 1100*n + 1
	}
	return n + 1
}

type consumer struct {
	name string
	f    func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte)
}

func opened(st *dataset.Structure, data []byte) *dataset.Dataset {
	ds := &dataset.Dataset{Peername: "p", Name: "n", Structure: st}
	ds.SetBodyFile(qfs.NewMemfileBytes("body."+st.Format, data))
	return ds
}

// drain reads a reader to its end and a little further.
func drain(t *kit.T, ctx string, rd dsio.EntryReader, max int) {
	es, err := body.Drain(rd, max)
	if err == body.ErrTooMany {
		t.Failf("%s: gives more than %d entries: %s …", ctx, max, body.ShowEntries(es[:3]))
	}
	for i := 0; i < 3; i++ {
		rd.ReadEntry()
	}
	rd.Close()
	rd.ReadEntry()
	rd.Close()
}

var consumers = []consumer{
	{"read", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		s := st()
		rd, err := dsio.NewEntryReader(s, bytes.NewReader(data))
		if err == nil {
			drain(t, ctx, rd, most(len(data), s.Format, s.Compression))
		}
	}},
	{"read bytewise", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		s := st()
		rd, err := dsio.NewEntryReader(s, body.NewSource(data, 1, true))
		if err == nil {
			drain(t, ctx, rd, most(len(data), s.Format, s.Compression))
		}
	}},
	{"read all", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		rd, err := dsio.NewEntryReader(st(), bytes.NewReader(data))
		if err == nil {
			dsio.ReadAll(rd)
			rd.Close()
		}
	}},
	{"detect", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		s := st()
		df, cp := dataset.UnknownDataFormat, compression.FmtNone
		df, _ = dataset.ParseDataFormatString(s.Format)
		cp, _ = compression.ParseFormat(s.Compression)
		got, _, err := detect.FromReader(df, cp, bytes.NewReader(data))
		if err == nil && got != nil {
			rd, err := dsio.NewEntryReader(got, bytes.NewReader(data))
			if err == nil {
				drain(t, ctx+", as detected", rd, most(len(data), s.Format, s.Compression))
			}
		}
	}},
	{"detect from file", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		s := st()
		ds := opened(&dataset.Structure{Format: s.Format, Compression: s.Compression}, data)
		detect.Structure(ds)
	}},
	{"validate", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		rd, err := dsio.NewEntryReader(st(), bytes.NewReader(data))
		if err == nil {
			validate.EntryReader(rd)
			rd.Close()
		}
	}},
	{"stats", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		dsstats.Calculate(opened(st(), data))
	}},
	{"preview", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		preview.Create(context.Background(), opened(st(), data))
	}},
	{"convert", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		for _, f := range []string{"json", "cbor", "csv", "ndjson"} {
			s := st()
			dsio.ConvertFile(qfs.NewMemfileBytes("b", data), s, &dataset.Structure{Format: f, Schema: s.Schema}, 2, 1, f != "json")
		}
	}},
	{"render", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		ds := opened(st(), data)
		ds.Viz = &dataset.Viz{Format: "html"}
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("v.html", []byte(`{{ bodyEntries 1 3 }}{{ allBodyEntries }}`)))
		dsviz.Render(ds)
	}},
	{"row lengths", func(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
		validate.CheckCsvRowLengths(bytes.NewReader(data))
	}},
}

func consume(t *kit.T, ctx string, st func() *dataset.Structure, data []byte) {
	s := st()
	for _, c := range consumers {
		if c.name == "row lengths" && s.Format != "csv" {
			continue
		}
		c := c
		within(t, ctx+": "+c.name, budget(len(data), s.Format, s.Compression), func() { c.f(t, ctx+": "+c.name, st, data) })
		t.Op(1)
	}
}

type alphabet struct {
	name        string
	sts         []func() *dataset.Structure
	syms        []string
	quick, deep int
}

func st(format, comp string, sch func() map[string]interface{}, cfg map[string]interface{}) func() *dataset.Structure {
	return func() *dataset.Structure { return body.St(format, comp, sch(), cfg) }
}

func table() map[string]interface{} {
	return body.Table("string", "integer", "null", "object")
}

func one() map[string]interface{} { return body.Table("number") }

func none() map[string]interface{} { return nil }

func alphabets() []alphabet {
	var cb []string
	for _, b := range []byte{0x00, 0x17, 0x18, 0x19, 0x1b, 0x20, 0x3b, 0x40, 0x41, 0x58, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x78, 0x7b, 0x7f, 0x80, 0x81, 0x9a, 0x9b, 0x9f, 0xa0, 0xa1, 0xba, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xd9, 0xdb, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xff} {
		cb = append(cb, string([]byte{b}))
	}
	return []alphabet{
		{"json", []func() *dataset.Structure{st("json", "", body.Arr, nil), st("json", "", body.Obj, nil), st("json", "", none, nil)},
			[]string{"[", "]", "{", "}", ",", ":", `"`, `\`, "1", "-", ".", "e", "null", "tru", " ", "\xc3", "\x00"}, 3, 4},
		{"json arrays", []func() *dataset.Structure{st("json", "", body.Arr, nil)}, []string{"[", "]", "{", "}", ",", ":", `"`, `\u`, "1", "n"}, 4, 5},
		{"ndjson", []func() *dataset.Structure{st("ndjson", "", body.Arr, nil), st("ndjson", "", body.Obj, nil)},
			[]string{"[", "]", "{", "}", ",", ":", `"`, `\`, "1", "-", "null", "tru", " ", "\n", "\r", "\xc3"}, 3, 4},
		{"csv", []func() *dataset.Structure{st("csv", "", table, nil), st("csv", "", one, map[string]interface{}{"headerRow": true, "lazyQuotes": true, "variadicFields": true, "separator": "\t"}), st("csv", "", body.Arr, nil)},
			[]string{",", `"`, "\n", "\r", "a", "1", "{", " ", "\t", "\xff", "\x00"}, 3, 4},
		{"cbor", []func() *dataset.Structure{st("cbor", "", body.Arr, nil), st("cbor", "", body.Obj, nil)}, cb, 3, 3},
		{"cbor arrays", []func() *dataset.Structure{st("cbor", "", body.Arr, nil)}, []string{"\x00", "\x18", "\x1b", "\x41", "\x5b", "\x5f", "\x61", "\x7b", "\x7f", "\x81", "\x9b", "\x9f", "\xa1", "\xbb", "\xbf", "\xc1", "\xf6", "\xfb", "\xff"}, 4, 5},
		{"xlsx", []func() *dataset.Structure{st("xlsx", "", table, nil)}, []string{"P", "K", "\x03", "\x04", "\x01", "\x00"}, 4, 5},
		{"gzip", []func() *dataset.Structure{st("json", "gzip", body.Arr, nil)}, []string{"\x1f", "\x8b", "\x08", "\x00", "\xff", "\x01"}, 4, 6},
		{"zstd", []func() *dataset.Structure{st("csv", "zstd", table, nil)}, []string{"\x28", "\xb5", "\x2f", "\xfd", "\x00", "\xff", "\x50"}, 4, 5},
	}
}

// valid bodies that are then changed
func valid(t *kit.T, st *dataset.Structure) []byte {
	es := []dsio.Entry{{Value: []interface{}{"a\"\n", int64(300), nil, map[string]interface{}{"k": []interface{}{1.5, true}}}}, {Index: 1, Value: []interface{}{"é", int64(-1), nil, nil}}}
	if st.Schema["type"] == "object" {
		es[0].Key, es[1].Key = "one", "two"
	}
	buf := &bytes.Buffer{}
	if err := body.WriteBody(st, buf, es); err != nil {
		t.Failf("writing a valid body: %v", err)
	}
	return buf.Bytes()
}

func repack(t *kit.T, data []byte, name string, change func(b []byte) []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		t.Failf("%v", err)
	}
	buf := &bytes.Buffer{}
	zw := zip.NewWriter(buf)
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			t.Failf("%v", err)
		}
		b, err := ioutil.ReadAll(r)
		if err != nil {
			t.Failf("%v", err)
		}
		if f.Name == name {
			b = change(b)
			if b == nil {
				continue
			}
		}
		w, _ := zw.CreateHeader(&zip.FileHeader{Name: f.Name, Method: zip.Store})
		w.Write(b)
	}
	zw.Close()
	return buf.Bytes()
}

// change makes the kth of the changes to data at position i.
func change(data []byte, i, kind int, val byte) ([]byte, bool) {
	out := append([]byte{}, data...)
	switch kind {
	case 0: // replaced
		if out[i] == val {
			return nil, false
		}
		out[i] = val
	case 1: // inserted
		out = append(out[:i], append([]byte{val}, data[i:]...)...)
	case 2: // deleted
		out = append(out[:i], data[i+1:]...)
	case 3: // cut
		out = out[:i]
	case 4: // a stretch repeated
		n := int(val)
		if i+n > len(data) {
			return nil, false
		}
		out = append(out[:i+n], data[i:]...)
	case 5: // without what precedes
		out = out[i:]
	}
	return out, true
}

func names(v interface{}) (ks []string) {
	t := reflect.TypeOf(v)
	for i := 0; i < t.NumField(); i++ {
		tag := strings.Split(t.Field(i).Tag.Get("json"), ",")[0]
		if tag != "" && tag != "-" {
			ks = append(ks, tag)
		}
	}
	sort.Strings(ks)
	return append(ks, "other", "", strings.ToUpper(ks[0]))
}

type doc struct {
	name  string
	keys  []string
	fresh func() interface{}
}

func docs() []doc {
	return []doc{
		{"dataset", names(dataset.Dataset{}), func() interface{} { return &dataset.Dataset{} }},
		{"commit", names(dataset.Commit{}), func() interface{} { return &dataset.Commit{} }},
		{"meta", names(dataset.Meta{}), func() interface{} { return &dataset.Meta{} }},
		{"structure", names(dataset.Structure{}), func() interface{} { return &dataset.Structure{} }},
		{"transform", names(dataset.Transform{}), func() interface{} { return &dataset.Transform{} }},
		{"step", names(dataset.TransformStep{}), func() interface{} { return &dataset.TransformStep{} }},
		{"resource", names(dataset.TransformResource{}), func() interface{} { return &dataset.TransformResource{} }},
		{"readme", names(dataset.Readme{}), func() interface{} { return &dataset.Readme{} }},
		{"viz", names(dataset.Viz{}), func() interface{} { return &dataset.Viz{} }},
		{"stats", names(dataset.Stats{}), func() interface{} { return &dataset.Stats{} }},
	}
}

// use calls what a decoded value can be asked.
func use(t *kit.T, v interface{}) {
	rv := reflect.ValueOf(v)
	if rv.IsNil() {
		return
	}
	for i := 0; i < rv.NumMethod(); i++ {
		m := rv.Type().Method(i)
		if m.Type.NumIn() == 1 && !strings.HasPrefix(m.Name, "Drop") {
			rv.Method(i).Call(nil)
			t.Op(1)
		}
	}
	json.Marshal(v)
	switch x := v.(type) {
	case *dataset.Dataset:
		validate.Dataset(x)
		y := &dataset.Dataset{}
		y.Assign(x, x)
		dsdiff.DiffDatasets(x, y, nil)
		dsdiff.DiffDatasets(y, x, nil)
		preview.Create(context.Background(), x)
		dsviz.Render(x)
		detect.Structure(x)
		dsstats.Calculate(x)
		x.PathMap()
		if x.Structure != nil {
			use(t, x.Structure)
		}
		y.DropDerivedValues()
		y.DropTransientValues()
	case *dataset.Commit:
		validate.Commit(x)
		(&dataset.Commit{}).Assign(x, x)
	case *dataset.Meta:
		(&dataset.Meta{}).Assign(x, x)
		dsdiff.DiffMeta(x, &dataset.Meta{})
		for _, k := range []string{"title", "keywords", "x"} {
			(&dataset.Meta{}).Set(k, x.Meta()[k])
		}
		x.DropDerivedValues()
		json.Marshal(x)
	case *dataset.Structure:
		validate.Structure(x)
		validate.Schema(x.Schema)
		(&dataset.Structure{}).Assign(x, x)
		dsdiff.DiffStructure(x, &dataset.Structure{})
		dataset.ParseFormatConfigMap(x.DataFormat(), x.FormatConfig)
		x.AddFileFormatExtensions("a")
	case *dataset.Transform:
		(&dataset.Transform{}).Assign(x, x)
		dsdiff.DiffTransform(x, &dataset.Transform{})
		x.ShallowCompare(&dataset.Transform{})
		stepfile.Write(x.Steps, &bytes.Buffer{})
	case *dataset.Readme:
		(&dataset.Readme{}).Assign(x, x)
		x.ShallowCompare(&dataset.Readme{})
	case *dataset.Viz:
		(&dataset.Viz{}).Assign(x, x)
		dsdiff.DiffViz(x, &dataset.Viz{})
		x.ShallowCompare(&dataset.Viz{})
	case *dataset.Stats:
		(&dataset.Stats{}).Assign(x, x)
	}
}

func decode(t *kit.T, d doc, text []byte) {
	v := d.fresh()
	t.Op(1)
	if u, ok := v.(json.Unmarshaler); ok {
		u.UnmarshalJSON(append([]byte{}, text...))
	}
	v = d.fresh()
	if json.Unmarshal(text, v) == nil {
		use(t, v)
	}
	raw := append([]byte{}, text...)
	switch d.name {
	case "dataset":
		dataset.UnmarshalDataset(raw)
	case "commit":
		dataset.UnmarshalCommit(raw)
	case "structure":
		dataset.UnmarshalStructure(raw)
	case "transform":
		dataset.UnmarshalTransform(raw)
	case "readme":
		dataset.UnmarshalReadme(raw)
	case "viz":
		dataset.UnmarshalViz(raw)
	}
}

var values = []string{`null`, `"a"`, `[]`, `{}`, `1`, `[null]`, `{"a":null}`, `true`, `[{}]`,
	`""`, `-1.5`, `1e400`, `99999999999999999999`, `"2001-01-01T01:01:01Z"`, `[1]`, `["a"]`, `[[]]`, `[{"a":1}]`, `{"":1}`, `{"path":1}`, `{"path":"a"}`, `{"a":[{"a":{}}]}`, `"\u0000"`, `{"qri":"md:0"}`}

func run(r *kit.Run) {
	for _, a := range alphabets() {
		a := a
		r.Explore("strings: "+a.name, func(c *kit.C) func(t *kit.T) {
			s := ""
			for i, n := 0, c.Range(0, r.T0(a.quick, a.deep)); i < n; i++ {
				s += kit.Pick(c, a.syms)
			}
			return func(t *kit.T) {
				for _, st := range a.sts {
					consume(t, fmt.Sprintf("%s %q", a.name, s), st, []byte(s))
				}
				t.Trace()
			}
		})
	}
	r.Explore("strings: cbor, all bytes", func(c *kit.C) func(t *kit.T) {
		var s []byte
		for i, n := 0, c.Range(1, r.T0(1, 2)); i < n; i++ {
			s = append(s, byte(c.Choose(256)))
		}
		pre := kit.Pick(c, []string{"", "\x81", "\x9f", "\xa1", "\xbf\x61k", "\x9f\x81"})
		post := kit.Pick(c, []string{"", "\xff", "\x00\x00\x00\x00\x00\x00\x00\x01", "\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x10\x00\x00\x00", "\x7f\xff\xff\xff\xff\xff\xff\xff"})
		return func(t *kit.T) {
			data := append([]byte(pre), append(s, post...)...)
			for _, sch := range []func() map[string]interface{}{body.Arr, body.Obj} {
				consume(t, fmt.Sprintf("cbor %x", data), st("cbor", "", sch, nil), data)
			}
			t.Trace()
		}
	})

	// valid bodies with one change
	type kind struct {
		name string
		st   func() *dataset.Structure
	}
	kinds := []kind{
		{"json", st("json", "", body.Arr, nil)}, {"json {}", st("json", "", body.Obj, nil)}, {"pretty json", st("json", "", body.Arr, map[string]interface{}{"pretty": true})},
		{"ndjson", st("ndjson", "", body.Arr, nil)}, {"cbor", st("cbor", "", body.Arr, nil)}, {"cbor {}", st("cbor", "", body.Obj, nil)},
		{"csv", st("csv", "", table, nil)}, {"csv, header", st("csv", "", table, map[string]interface{}{"headerRow": true, "lazyQuotes": true})},
		{"json gzip", st("json", "gzip", body.Arr, nil)}, {"csv zstd", st("csv", "zstd", table, nil)}, {"cbor zstd", st("cbor", "zstd", body.Arr, nil)}, {"cbor gzip {}", st("cbor", "gzip", body.Obj, nil)},
	}
	for _, k := range kinds {
		k := k
		var data []byte
		r.Explore("changed: "+k.name, func(c *kit.C) func(t *kit.T) {
			if data == nil {
				data = valid(&kit.T{}, k.st())
			}
			i := c.Choose(len(data))
			how := c.Choose(6)
			var val byte
			switch how {
			case 0, 1:
				if r.Thorough && how == 0 || (k.name == "cbor" || k.name == "cbor {}") && how == 0 {
					val = byte(c.Choose(256))
				} else {
					val = kit.Pick(c, []byte{0, 1, 0xff, 0x7f, 0x80, data[i] + 1, data[i] ^ 0x20, data[i] << 1, '"', '[', ']', '{', '}', ',', '\n', '\\'})
				}
			case 4:
				val = byte(1 + c.Choose(r.T0(8, len(data))))
			}
			x, ok := change(data, i, how, val)
			if !ok {
				return nil
			}
			return func(t *kit.T) {
				consume(t, fmt.Sprintf("%s %q", k.name, x), k.st, x)
				t.Trace()
			}
		})
	}
	xst := st("xlsx", "", table, nil)
	var sheet []byte
	r.Explore("changed: xlsx", func(c *kit.C) func(t *kit.T) {
		if sheet == nil {
			sheet = valid(&kit.T{}, xst())
		}
		i := c.Choose(len(sheet))
		how := kit.Pick(c, []int{0, 2, 3})
		var val byte
		if how == 0 {
			val = sheet[i] + kit.Pick(c, []byte{1, 0x80, 0xff, 0x10}[:r.T0(2, 4)])
		}
		if how == 2 && !r.Thorough && i%4 > 0 || how == 3 && !r.Thorough && i%16 > 0 {
			return nil
		}
		x, ok := change(sheet, i, how, val)
		if !ok {
			return nil
		}
		return func(t *kit.T) {
			ctx := fmt.Sprintf("xlsx changed at %d", i)
			for _, cn := range consumers {
				if cn.name == "read" || r.Thorough && (cn.name == "detect" || cn.name == "stats") {
					within(t, ctx, budget(len(x), "xlsx", ""), func() { cn.f(t, ctx, xst, x) })
					t.Op(1)
				}
			}
			t.Trace()
		}
	})
	parts := []string{"xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/workbook.xml", "[Content_Types].xml", "xl/_rels/workbook.xml.rels", "xl/styles.xml"}
	inner := map[string][]byte{}
	for _, p := range parts {
		p := p
		r.Explore("changed: xlsx "+p, func(c *kit.C) func(t *kit.T) {
			if sheet == nil {
				sheet = valid(&kit.T{}, xst())
			}
			if inner[p] == nil {
				repack(&kit.T{}, sheet, p, func(b []byte) []byte { inner[p] = b; return b })
				if inner[p] == nil {
					inner[p] = []byte(" ")
				}
			}
			b := inner[p]
			i := c.Choose(len(b))
			how := c.Choose(4)
			var val byte
			if how < 2 {
				val = kit.Pick(c, []byte("<>\"9A/ \x00"[:r.T0(5, 8)]))
			}
			if !r.Thorough && p != parts[0] && i%3 > 0 {
				return nil
			}
			x, ok := change(b, i, how, val)
			if !ok {
				return nil
			}
			return func(t *kit.T) {
				data := repack(t, sheet, p, func([]byte) []byte { return x })
				ctx := fmt.Sprintf("xlsx with %s %q", p, x)
				for _, cn := range consumers {
					if cn.name == "read" || r.Thorough && (cn.name == "detect" || cn.name == "stats") {
						within(t, ctx, budget(len(data), "xlsx", ""), func() { cn.f(t, ctx, xst, data) })
						t.Op(1)
					}
				}
				t.Trace()
			}
		})
	}

	// rows and cells with any numbers
	rows := []string{"", `r="1"`, `r="0"`, `r="-1"`, `r="2"`, `r="5"`, `r="20000"`, `r="1048577"`, `r="99999999"`, `r="9223372036854775807"`, `r="99999999999999999999"`, `r="a"`, `r=""`}
	refs := []string{"", `r="A1"`, `r="B1"`, `r="D9"`, `r="XFD1"`, `r="XFE1"`, `r="ZZZZZ1"`, `r="ZZZZZZZZZZZZZZ1"`, `r="1"`, `r=""`, `r="a1"`, `r="A"`, `r="é1"`, `r="A1B"`, `r="A-1"`}
	cellOf := []string{`<v>1</v>`, `t="s"><v>0</v>`, `t="s"><v>7</v>`, `t="s"><v>-1</v>`, `t="s"><v>a</v>`, `t="inlineStr"><is><t>x</t></is>`, `t="b"><v>9</v>`, `s="99"><v>1.5</v>`, `s="-1"><v>1</v>`, `t="e"><v>#</v>`, `t="str"></c><c>`}
	r.Explore("xlsx rows and cells", func(c *kit.C) func(t *kit.T) {
		text := ""
		for i, n := 0, c.Range(1, r.T0(1, 2)); i < n; i++ {
			text += "<row " + kit.Pick(c, rows) + ">"
			m := c.Range(0, 2)
			for j := 0; j < m; j++ {
				x := cellOf[0]
				if n == 1 && m == 1 {
					x = cellOf[c.Choose(r.T0(5, len(cellOf)))]
				}
				if strings.HasPrefix(x, "<") {
					x = ">" + x
				}
				text += "<c " + kit.Pick(c, refs) + " " + x + "</c>"
			}
			text += "</row>"
		}
		return func(t *kit.T) {
			if sheet == nil {
				sheet = valid(&kit.T{}, xst())
			}
			text := `<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>` + text + `</sheetData></worksheet>`
			data := repack(t, sheet, "xl/worksheets/sheet1.xml", func([]byte) []byte { return []byte(text) })
			for _, cn := range consumers {
				if cn.name == "read" || r.Thorough && cn.name == "validate" {
					within(t, text, budget(len(data), "xlsx", ""), func() { cn.f(t, text, xst, data) })
					t.Op(1)
				}
			}
			t.Trace()
		}
	})

	// documents and components
	for _, d := range docs() {
		d := d
		r.Explore("documents: "+d.name, func(c *kit.C) func(t *kit.T) {
			text := ""
			switch c.Choose(4) {
			case 0:
				text = kit.Pick(c, values)
			case 1:
				text = fmt.Sprintf("{%q:%s}", kit.Pick(c, d.keys), kit.Pick(c, values))
			case 2:
				k, vs := c.Choose(len(d.keys)), values[:r.T0(9, len(values))]
				text = fmt.Sprintf("{%q:%s", d.keys[k], kit.Pick(c, vs))
				text += fmt.Sprintf(",%q:%s}", d.keys[c.Choose(k+1)], kit.Pick(c, vs))
			case 3:
				for i, n := 0, c.Range(0, r.T0(3, 4)); i < n; i++ {
					text += kit.Pick(c, []string{"{", "}", "[", "]", `"`, "qri", ":", ",", "1", "n", " ", "\xff"})
				}
			}
			return func(t *kit.T) {
				within(t, text, 64<<20, func() { decode(t, d, []byte(text)) })
				t.Trace()
			}
		})
	}
	r.Explore("documents: components of a dataset", func(c *kit.C) func(t *kit.T) {
		d := docs()[1+c.Choose(9)]
		if d.name == "step" || d.name == "resource" {
			return nil
		}
		text := fmt.Sprintf(`{%q:{%q:%s`, d.name, kit.Pick(c, d.keys), kit.Pick(c, values))
		if r.Thorough {
			text += fmt.Sprintf(`,%q:%s`, kit.Pick(c, d.keys), kit.Pick(c, values[:6]))
		}
		text += "}}"
		return func(t *kit.T) {
			within(t, text, 64<<20, func() { decode(t, docs()[0], []byte(text)) })
			t.Trace()
		}
	})
	r.Explore("documents: decoded values", func(c *kit.C) func(t *kit.T) {
		text := kit.Pick(c, values)
		key := kit.Pick(c, append(names(dataset.Meta{}), "name", "url", "type", "email", "id", "fullname"))
		wrap := c.Choose(3)
		return func(t *kit.T) {
			var v interface{}
			if json.Unmarshal([]byte(text), &v) != nil {
				return
			}
			m := &dataset.Meta{}
			x := v
			switch wrap {
			case 1:
				x = map[string]interface{}{key: v}
			case 2:
				x = []interface{}{v, map[string]interface{}{key: v}}
			}
			t.Op(8)
			m.Set(key, x)
			m.SetArbitrary(key, x)
			json.Marshal(m)
			(&dataset.User{}).Decode(x)
			(&dataset.License{}).Decode(x)
			(&dataset.Citation{}).Decode(x)
			vals.ConvertDecoded(x)
			detect.TabularSchemaFromTabularData(x)
			dataset.UnmarshalDataset(x)
			dataset.UnmarshalCommit(x)
			dataset.UnmarshalStructure(x)
			dataset.UnmarshalTransform(x)
			dataset.UnmarshalReadme(x)
			dataset.UnmarshalViz(x)
			if rd, err := dsio.NewIdentityReader(&dataset.Structure{Format: "json", Schema: body.Arr()}, x); err == nil {
				drain(t, text, rd, 100)
			}
			t.Trace()
		}
	})

	// format configurations
	r.Explore("format configurations", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, []string{"csv", "json", "xlsx", "ndjson", "cbor", "other", ""})
		keys := []string{"headerRow", "lazyQuotes", "separator", "variadicFields", "pretty", "sheetName", "other"}
		i := c.Choose(len(keys))
		text := fmt.Sprintf("{%q:%s,%q:%s}", keys[i], kit.Pick(c, values), keys[c.Choose(i+1)], kit.Pick(c, values[:r.T0(6, len(values))]))
		return func(t *kit.T) {
			st := func() *dataset.Structure {
				var m map[string]interface{}
				json.Unmarshal([]byte(text), &m)
				return &dataset.Structure{Format: f, FormatConfig: m, Schema: table()}
			}
			dataset.ParseFormatConfigMap(st().DataFormat(), st().FormatConfig)
			validate.Structure(st())
			ctx := fmt.Sprintf("%s configured with %s", f, text)
			consume(t, ctx, st, []byte("a,1\nb,2\n"))
			body.WriteBody(st(), &bytes.Buffer{}, []dsio.Entry{{Value: []interface{}{"a", int64(1)}}})
			t.Op(3)
			t.Trace()
		}
	})

	// schemas
	types := []string{"", `"array"`, `"object"`, `"string"`, `"bogus"`, `[]`, `["array"]`, `["array","null"]`, `[1]`, `{}`, `null`, `1`}
	leaf := []string{`null`, `[]`, `[null]`, `[1]`, `[{}]`, `[{"title":1}]`, `[{"title":"a","type":"integer"}]`, `[{"title":"a","type":[]}]`, `[{"type":[1]}]`, `[{"type":["string","null"]}]`, `[{"type":{}}]`, `[[]]`, `{}`, `{"type":"string"}`, `{"type":"array"}`, `"a"`, `true`, `[{"type":"null"},{"title":"b"},{"type":"object"}]`, `{"a":1}`}
	itemsOf := func(c *kit.C) string {
		switch c.Choose(4) {
		case 0:
			return ""
		case 1:
			return `,"items":` + kit.Pick(c, leaf)
		case 2:
			return `,"items":{"type":` + kit.Pick(c, []string{`"array"`, `"object"`, `["array"]`, `1`}) + `,"items":` + kit.Pick(c, leaf) + `}`
		}
		return `,"items":{"items":` + kit.Pick(c, leaf) + `,"type":"array"},"additionalItems":` + kit.Pick(c, []string{`true`, `{}`, `1`, `null`})
	}
	bodies := map[string][]byte{"json": []byte(`[[1,"a"],["b"],2,{"a":1}]`), "json {}": []byte(`{"a":1,"b":[1]}`), "ndjson": []byte("[1]\n{}\n\"a\"\n"), "csv": []byte("1,a\n2\n\n3,b,c\n"), "cbor": []byte("\x82\x81\x01\xa0"), "cbor {}": []byte("\xa1\x61a\x81\x01")}
	var order []string
	for k := range bodies {
		order = append(order, k)
	}
	sort.Strings(order)
	extras := []string{"", `,"required":1`, `,"required":["a"]`, `,"properties":{"a":1}`, `,"properties":1`, `,"properties":{"a":{"type":"integer"}}`, `,"enum":1`, `,"anyOf":1`, `,"anyOf":[{}]`, `,"pattern":"("`, `,"format":1`, `,"minLength":"a"`, `,"maxItems":-1`, `,"const":null`, `,"not":1`, `,"if":{},"then":1`, `,"definitions":{"a":1}`, `,"$id":1`, `,"$schema":1`, `,"additionalProperties":1`, `,"patternProperties":{"(":{}}`, `,"contains":1`, `,"dependencies":{"a":1}`, `,"title":1`, `,"multipleOf":0`, `,"$ref":1`, `,"$ref":"#/items"`, `,"$ref":"#/definitions/a","definitions":{"a":{"type":"integer"}}`, `,"definitions":{"a":{"items":{"$ref":"#/definitions/a"}}},"items":{"$ref":"#/definitions/a"}`, `,"items":{"$ref":"#"}`, `,"$ref":"nowhere"`, `,"$recursiveRef":"#"`, `,"$defs":{"a":null}`, `,"items":null`, `,"properties":{"a":null}`, `,"minItems":"a"`, `,"uniqueItems":1`, `,"propertyNames":1`, `,"$anchor":1`}
	r.Explore("schemas", func(c *kit.C) func(t *kit.T) {
		typ := kit.Pick(c, types)
		if typ != "" {
			typ = `,"type":` + typ
		}
		text := "{" + strings.TrimPrefix(typ+itemsOf(c)+extras[c.Choose(r.T0(6, len(extras)))], ",") + "}"
		return func(t *kit.T) { schema(t, text, order, bodies) }
	})
	r.Explore("schema keywords", func(c *kit.C) func(t *kit.T) {
		text := `{"type":` + kit.Pick(c, []string{`"array"`, `"object"`}) + kit.Pick(c, extras) + `}`
		if c.Bool() {
			text = `{"type":"array","items":{"type":"array","items":[{"type":"integer"` + kit.Pick(c, extras) + `}]}}`
		}
		return func(t *kit.T) { schema(t, text, order, bodies) }
	})

	// schemas that come back to themselves without getting further in the body
	// are tried in a process of their own
	r.Explore("schemas that go round", func(c *kit.C) func(t *kit.T) {
		text := `{"type":"array",` + kit.Pick(c, []string{
			`"$ref":"#"`, `"allOf":[{"$ref":"#"}]`, `"anyOf":[{"$ref":"#"}]`, `"oneOf":[{"$ref":"#"}]`, `"not":{"$ref":"#"}`, `"if":{"$ref":"#"}`, `"if":true,"then":{"$ref":"#"}`,
			`"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/a"}}`,
			`"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/b"},"b":{"allOf":[{"$ref":"#/definitions/a"}]}}`,
			`"items":{"$ref":"#/items"}`, `"$ref":"#/definitions/a","definitions":{"a":{"items":{"$ref":"#"}}}`, `"$recursiveRef":"#"`,
		}) + `}`
		data := kit.Pick(c, []string{`[]`, `[1]`, `[[[]]]`})
		return func(t *kit.T) {
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "C16_SCHEMA="+text, "C16_BODY="+data)
			out, err := cmd.CombinedOutput()
			t.Op(1)
			if err != nil {
				o := string(out)
				cycle := strings.Contains(o, "stack overflow") && strings.Contains(o, "jsonschema.(*Ref).ValidateKeyword")
				if len(o) > 1500 {
					o = o[:1500]
				}
				if cycle {
					t.FailKey("ref-cycle", "validating %s with schema %s: %v\n%s", data, text, err, o)
				}
				t.Failf("validating %s with schema %s: %v\n%s", data, text, err, o)
			}
			t.Trace()
		}
	})

	// other texts
	scripts := []string{"{{", "}}", "ds", ".", "range", "end", " ", "bodyEntries", "allBodyEntries", "1", "-1", `"a"`, "filesize", "isType", "(", ")", "title", ".Body", "if", "$", "|", "block", "template", "<script>", "index"}
	r.Explore("viz scripts", func(c *kit.C) func(t *kit.T) {
		s := ""
		for i, n := 0, c.Range(0, r.T0(3, 4)); i < n; i++ {
			s += kit.Pick(c, scripts)
		}
		if c.Bool() {
			s = "{{ " + s + " }}"
		}
		return func(t *kit.T) {
			ds := opened(body.St("json", "", body.Arr(), nil), []byte(`[1,["a"],{"b":2}]`))
			ds.Viz = &dataset.Viz{Format: "html"}
			ds.Viz.SetScriptFile(qfs.NewMemfileBytes("v.html", []byte(s)))
			within(t, s, 64<<20, func() { dsviz.Render(ds) })
			t.Op(1)
			t.Trace()
		}
	})
	r.Explore("viz calls", func(c *kit.C) func(t *kit.T) {
		arg := []string{"1", "-1", "0", "2", "9223372036854775807", "-9223372036854775808", "1.5", `"a"`, "nil", ".", "ds", "true"}
		s := "{{ " + kit.Pick(c, []string{"bodyEntries", "allBodyEntries", "filesize", "isType", "title", "ds"})
		for i, n := 0, c.Range(0, 3); i < n; i++ {
			s += " " + kit.Pick(c, arg)
		}
		s += " }}"
		return func(t *kit.T) {
			ds := opened(body.St("json", "", body.Arr(), nil), []byte(`[1,["a"],{"b":2}]`))
			ds.Viz = &dataset.Viz{Format: "html"}
			ds.Viz.SetScriptFile(qfs.NewMemfileBytes("v.html", []byte(s)))
			within(t, s, 64<<20, func() { dsviz.Render(ds) })
			t.Op(1)
			t.Trace()
		}
	})
	r.Explore("texts", func(c *kit.C) func(t *kit.T) {
		s := ""
		for i, n := 0, c.Range(0, r.T0(4, 5)); i < n; i++ {
			s += kit.Pick(c, []string{"-", "1", ".", "e", "{", "}", "[", "]", `"`, "t", "\n", ":", " ", "\xff", "/", "\r", "+", "\x00"})
		}
		return func(t *kit.T) {
			b := []byte(s)
			t.Op(30)
			vals.ParseType(b)
			vals.ParseString(b)
			vals.ParseNumber(b)
			vals.ParseInteger(b)
			vals.ParseBoolean(b)
			vals.JSONArrayOrObject(b)
			vals.ParseJSON(b)
			vals.IsInteger(b)
			vals.IsBoolean(b)
			vals.IsFloat(b)
			vals.UnmarshalJSON(b)
			vals.TypeFromString(s)
			for _, typ := range []vals.Type{vals.TypeString, vals.TypeInteger, vals.TypeNumber, vals.TypeBoolean, vals.TypeNull, vals.TypeArray, vals.TypeObject, vals.TypeUnknown, vals.Type(200)} {
				vals.CompareTypeBytes(b, []byte("1"), typ)
				vals.CompareTypeBytes([]byte("a"), b, typ)
				typ.Parse(b)
				_ = typ.String()
				json.Marshal(typ)
			}
			var typ vals.Type
			typ.UnmarshalJSON(b)
			steps, _ := stepfile.Read(bytes.NewReader(b))
			stepfile.Write(steps, ioutil.Discard)
			validate.CheckCsvRowLengths(bytes.NewReader(b))
			validate.ValidName(s)
			dataset.ParseDataFormatString(s)
			detect.FormatFromFilename(s)
			detect.FromFile("/nonexistent/" + strings.ReplaceAll(s, "/", ""))
			compression.ParseFormat(s)
			dataset.AccuralDuration(s)
			dataset.ComponentTypePrefix(dataset.KindCommit, s)
			var k dataset.Kind
			k.UnmarshalJSON(b)
			var df dataset.DataFormat
			df.UnmarshalJSON(b)
			dataset.HashBytes(b)
			io.Copy(ioutil.Discard, replacecr.Reader(bytes.NewReader(b)))
			dsdiff.DiffJSON(b, []byte(`{"a":1}`), "x")
			dsdiff.DiffJSON([]byte(`[1]`), b, "x")
			for _, name := range []string{"gzip", "zstd", s} {
				rd, err := compression.Decompressor(name, bytes.NewReader(b))
				if err == nil && rd != nil {
					io.Copy(ioutil.Discard, rd)
					rd.Close()
				}
			}
			t.Trace()
		}
	})

	// depth and repetition
	pats := []struct{ name, format, open, mid, close string }{
		{"arrays", "json", "[", "", "]"}, {"objects", "json", `{"a":`, "1", "}"}, {"mixed", "json", `[{"a":`, "1", "}]"}, {"lines", "ndjson", "[", "", "]"},
		{"arrays", "cbor", "\x81", "\x01", ""}, {"endless arrays", "cbor", "\x9f", "", "\xff"}, {"maps", "cbor", "\xa1\x61a", "\x01", ""}, {"endless maps", "cbor", "\xbf\x61a", "\x01", "\xff"}, {"tags", "cbor", "\xc1", "\x01", ""},
		{"quotes", "csv", `"`, "", `"`}, {"commas", "csv", ",", "\n", ","}, {"lines", "csv", "\n", "", "\n"}, {"returns", "csv", "\r", "", "a\r"}, {"cells of brackets", "csv", `[`, "", `]`},
		{"spaces", "json", " ", "[]", " "}, {"commas", "json", ",", "", ","}, {"escapes", "json", `\`, "", `\`}, {"numbers", "json", "[1", "", "1"}, {"zeros", "json", "0", "", "0"}, {"strings", "json", `["`, "", `"]`},
		{"break", "cbor", "\xff", "", ""}, {"text in pieces", "cbor", "\x7f\x61a", "", ""}, {"long heads", "cbor", "\x9b\x00\x00\x00\x00\x00\x00\x00\x01", "", ""},
	}
	r.Explore("depth and repetition", func(c *kit.C) func(t *kit.T) {
		p := kit.Pick(c, pats)
		n := kit.Pick(c, []int{1, 2, 100, 101, 999, 4096, 9998, 9999, 10000, 10001, 100000, 1000000}[:r.T0(11, 12)])
		closed := c.Bool()
		obj := c.Bool()
		cn := consumers[c.Choose(len(consumers))]
		return func(t *kit.T) {
			s := strings.Repeat(p.open, n) + p.mid
			if closed {
				s += strings.Repeat(p.close, n)
			}
			sch := body.Arr
			if obj {
				sch = body.Obj
			}
			if p.format == "csv" {
				sch = one
			}
			ctx := fmt.Sprintf("%d %s of %s, closed %v, object %v: %s", n, p.name, p.format, closed, obj, cn.name)
			within(t, ctx, 512<<20+20000*len(s), func() { cn.f(t, ctx, st(p.format, "", sch, nil), []byte(s)) })
			t.Op(1)
			t.Trace()
		}
	})
	r.Explore("depth of documents", func(c *kit.C) func(t *kit.T) {
		d := kit.Pick(c, docs())
		n := kit.Pick(c, []int{100, 9990, 10001, 100000})
		key := kit.Pick(c, append([]string{"items", "schema", "body", "config", "x"}, d.keys...))
		obj := c.Bool()
		return func(t *kit.T) {
			open, shut := "[", "]"
			if obj {
				open, shut = fmt.Sprintf("{%q:", key), "}"
			}
			text := fmt.Sprintf("{%q:%s1%s}", key, strings.Repeat(open, n), strings.Repeat(shut, n))
			within(t, d.name, 1<<30, func() { decode(t, d, []byte(text)) })
			t.Trace()
		}
	})
}

func parse(text string) (m map[string]interface{}) {
	json.Unmarshal([]byte(text), &m)
	return m
}

func schema(t *kit.T, text string, order []string, bodies map[string][]byte) {
	var probe map[string]interface{}
	if err := json.Unmarshal([]byte(text), &probe); err != nil {
		t.Failf("%s: %v", text, err)
	}
	fresh := func() map[string]interface{} {
		var m map[string]interface{}
		json.Unmarshal([]byte(text), &m)
		return m
	}
	cols, _, err := tabular.ColumnsFromJSONSchema(fresh())
	if err == nil {
		cols.Titles()
		cols.ValidMachineTitles()
	}
	validate.Schema(fresh())
	for _, k := range order {
		f := strings.Fields(k)[0]
		s := st(f, "", fresh, nil)
		dsio.GetTopLevelType(s())
		validate.Structure(s())
		consume(t, fmt.Sprintf("%s with schema %s", k, text), s, bodies[k])
		for _, es := range [][]dsio.Entry{nil, {{Value: []interface{}{"a", int64(1)}}, {Value: "x"}, {Key: "k", Value: nil}}} {
			body.WriteBody(s(), &bytes.Buffer{}, es)
		}
		t.Op(4)
	}
	s := st("xlsx", "", fresh, nil)()
	body.WriteBody(s, &bytes.Buffer{}, []dsio.Entry{{Value: []interface{}{"a", int64(1)}}})
	if g, err := generate.NewTabularGenerator(st("csv", "", fresh, nil)(), generate.AssignSeed); err == nil {
		for i := 0; i < 3; i++ {
			g.ReadEntry()
		}
	}
	use(t, &dataset.Structure{Format: "csv", Schema: fresh()})
	t.Trace()
}
