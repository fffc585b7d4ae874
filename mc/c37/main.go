// C37: looking at something does not change it.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C37", Level: "model_checking",
		Rule:   "every subset of fields of every component (sizes within the bound, and all), alone and in a dataset with open files, under every sequence of two looking operations; every structure of an alphabet of formats, schemas and format options under every sequence of two; every short list of entries given to every writer and accumulator, its values overwritten by the caller at every point",
		Bounds: "subsets of up to 2 fields (thorough 3), sequences of 2 operations, alone and with one field or all of them changed between, 2 or 3 entries of nested values",
		Body:   run})
}

// snap describes everything reachable, unexported fields included. Files are
// told apart by their address; an unexported map that is not there and an empty
// one are the same.
func snap(v interface{}) string {
	var b strings.Builder
	walk(&b, reflect.ValueOf(v), false)
	return b.String()
}

var fileType = reflect.TypeOf((*qfs.File)(nil)).Elem()
var timeType = reflect.TypeOf(time.Time{})

func walk(b *strings.Builder, v reflect.Value, private bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == fileType {
		if v.IsNil() {
			b.WriteString("nofile")
		} else {
			fmt.Fprintf(b, "file%x", v.Elem().Pointer())
		}
		return
	}
	if v.Type() == timeType {
		if v.CanInterface() {
			b.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		walk(b, v.Elem(), private)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			b.WriteString(f.Name)
			b.WriteString(":")
			walk(b, v.Field(i), f.PkgPath != "")
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Map:
		if v.IsNil() && !private {
			b.WriteString("nilmap")
			return
		}
		m := map[string]reflect.Value{}
		var ks []string
		for _, k := range v.MapKeys() {
			s := fmt.Sprintf("%q", k.String())
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		b.WriteString("map[")
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString(":")
			walk(b, m[k], private)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nilslice")
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			walk(b, v.Index(i), private)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "f%v", v.Float())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(b, "%s%x", v.Kind(), v.Pointer())
	default:
		panic("snap: " + v.Kind().String())
	}
}

// an op looks at x, with a fixed other thing where it needs two, and says what
// it saw.
type op struct {
	name string
	f    func(x, other interface{}) string
}

func show(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return snap(v)
}

type object interface {
	json.Marshaler
	MarshalJSONObject() ([]byte, error)
	IsEmpty() bool
}

var anyOps = []op{
	{"json", func(x, _ interface{}) string { b, err := json.Marshal(x); return show(b, err) }},
	{"indented json", func(x, _ interface{}) string { b, err := json.MarshalIndent(x, "", " "); return show(b, err) }},
	{"json hash", func(x, _ interface{}) string { h, err := dataset.JSONHash(x.(json.Marshaler)); return show(h, err) }},
	{"is empty", func(x, _ interface{}) string {
		return fmt.Sprint(x.(interface{ IsEmpty() bool }).IsEmpty())
	}},
}

var componentOps = append(anyOps,
	op{"json object", func(x, _ interface{}) string { b, err := x.(object).MarshalJSONObject(); return show(b, err) }},
	op{"assign from", func(x, other interface{}) string {
		switch c := x.(type) {
		case *dataset.Commit:
			n := &dataset.Commit{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Meta:
			n := &dataset.Meta{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Structure:
			n := &dataset.Structure{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Stats:
			n := &dataset.Stats{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Transform:
			n := &dataset.Transform{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Readme:
			n := &dataset.Readme{}
			n.Assign(c, nil, c)
			return snap(n)
		case *dataset.Viz:
			n := &dataset.Viz{}
			n.Assign(c, nil, c)
			return snap(n)
		}
		panic("assign")
	}},
)

var kindOps = map[string][]op{
	"commit": {
		{"validate", func(x, _ interface{}) string { return fmt.Sprint(validate.Commit(x.(*dataset.Commit))) }},
		{"compare", func(x, o interface{}) string {
			return fmt.Sprint(dstest.CompareCommits(x.(*dataset.Commit), o.(*dataset.Commit)) == "", dstest.CompareCommits(o.(*dataset.Commit), x.(*dataset.Commit), dstest.OptDropTransientValues(0)) == "")
		}},
	},
	"meta": {
		{"map", func(x, _ interface{}) string {
			n := 0
			for range x.(*dataset.Meta).Meta() {
				n++
			}
			return fmt.Sprint(n)
		}},
		{"diff", func(x, o interface{}) string { return diff(dsdiff.DiffMeta(x.(*dataset.Meta), o.(*dataset.Meta))) }},
		{"diff of the other", func(x, o interface{}) string {
			return diff(dsdiff.DiffMeta(o.(*dataset.Meta), x.(*dataset.Meta)))
		}},
		{"compare", func(x, o interface{}) string {
			return fmt.Sprint(dstest.CompareMetas(x.(*dataset.Meta), o.(*dataset.Meta)) == "", dstest.CompareMetas(o.(*dataset.Meta), x.(*dataset.Meta), dstest.OptDropTransientValues(0)) == "")
		}},
	},
	"structure": {
		{"diff", func(x, o interface{}) string {
			return diff(dsdiff.DiffStructure(x.(*dataset.Structure), o.(*dataset.Structure)))
		}},
		{"diff of the other", func(x, o interface{}) string {
			return diff(dsdiff.DiffStructure(o.(*dataset.Structure), x.(*dataset.Structure)))
		}},
		{"compare", func(x, o interface{}) string {
			return fmt.Sprint(dstest.CompareStructures(x.(*dataset.Structure), o.(*dataset.Structure)) == "", dstest.CompareStructures(o.(*dataset.Structure), x.(*dataset.Structure), dstest.OptDropTransientValues(0)) == "")
		}},
	},
	"transform": {
		{"diff", func(x, o interface{}) string {
			return diff(dsdiff.DiffTransform(x.(*dataset.Transform), o.(*dataset.Transform)))
		}},
		{"diff of the other", func(x, o interface{}) string {
			return diff(dsdiff.DiffTransform(o.(*dataset.Transform), x.(*dataset.Transform)))
		}},
		{"shallow compare", func(x, o interface{}) string {
			return fmt.Sprint(x.(*dataset.Transform).ShallowCompare(o.(*dataset.Transform)), o.(*dataset.Transform).ShallowCompare(x.(*dataset.Transform)))
		}},
		{"step file", func(x, o interface{}) string {
			b := &bytes.Buffer{}
			err := stepfile.Write(x.(*dataset.Transform).Steps, b)
			return show(b.Bytes(), err)
		}},
		{"script file", func(x, o interface{}) string { return fmt.Sprint(x.(*dataset.Transform).ScriptFile() == nil) }},
	},
	"readme": {
		{"shallow compare", func(x, o interface{}) string {
			return fmt.Sprint(x.(*dataset.Readme).ShallowCompare(o.(*dataset.Readme)), o.(*dataset.Readme).ShallowCompare(x.(*dataset.Readme)))
		}},
		{"files", func(x, o interface{}) string {
			return fmt.Sprint(x.(*dataset.Readme).ScriptFile() == nil, x.(*dataset.Readme).RenderedFile() == nil)
		}},
	},
	"viz": {
		{"diff", func(x, o interface{}) string { return diff(dsdiff.DiffViz(x.(*dataset.Viz), o.(*dataset.Viz))) }},
		{"diff of the other", func(x, o interface{}) string { return diff(dsdiff.DiffViz(o.(*dataset.Viz), x.(*dataset.Viz))) }},
		{"shallow compare", func(x, o interface{}) string {
			return fmt.Sprint(x.(*dataset.Viz).ShallowCompare(o.(*dataset.Viz)), o.(*dataset.Viz).ShallowCompare(x.(*dataset.Viz)))
		}},
		{"files", func(x, o interface{}) string {
			return fmt.Sprint(x.(*dataset.Viz).ScriptFile() == nil, x.(*dataset.Viz).RenderedFile() == nil)
		}},
	},
	"stats": {},
}

func diff(d *dsdiff.SubDiff, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprint(d.Modified(), len(d.Deltas()))
}

func datasetDiff(a, b *dataset.Dataset) string {
	m, err := dsdiff.DiffDatasets(a, b, nil)
	if err != nil {
		return "error: " + err.Error()
	}
	var l []string
	for k, d := range m {
		l = append(l, k+":"+diff(d, nil))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

var datasetOps = append(anyOps,
	op{"path map", func(x, _ interface{}) string { return snap(x.(*dataset.Dataset).PathMap()) }},
	op{"path map without some", func(x, _ interface{}) string { return snap(x.(*dataset.Dataset).PathMap("meta", "bodyFile")) }},
	op{"signing bytes", func(x, _ interface{}) string { return string(x.(*dataset.Dataset).SigningBytes()) }},
	op{"signable bytes", func(x, _ interface{}) string {
		if x.(*dataset.Dataset).Commit == nil || x.(*dataset.Dataset).Structure == nil {
			return "" // not asked of such a dataset
		}
		b, err := x.(*dataset.Dataset).SignableBytes()
		return show(b, err)
	}},
	op{"validate", func(x, _ interface{}) string { return fmt.Sprint(validate.Dataset(x.(*dataset.Dataset))) }},
	op{"compare", func(x, o interface{}) string {
		return fmt.Sprint(dstest.CompareDatasets(x.(*dataset.Dataset), o.(*dataset.Dataset)) == "", dstest.CompareDatasets(o.(*dataset.Dataset), x.(*dataset.Dataset)) == "")
	}},
	op{"compare without transients", func(x, o interface{}) string {
		return fmt.Sprint(dstest.CompareDatasets(x.(*dataset.Dataset), o.(*dataset.Dataset), dstest.OptDropTransientValues(0)) == "", dstest.CompareDatasets(o.(*dataset.Dataset), x.(*dataset.Dataset), dstest.OptDropTransientValues(0)) == "")
	}},
	op{"checksum", func(x, _ interface{}) string { return dstest.DatasetChecksum(x.(*dataset.Dataset)) }},
	op{"diff", func(x, o interface{}) string { return datasetDiff(x.(*dataset.Dataset), o.(*dataset.Dataset)) }},
	op{"diff of the other", func(x, o interface{}) string { return datasetDiff(o.(*dataset.Dataset), x.(*dataset.Dataset)) }},
	op{"diff of data", func(x, o interface{}) string {
		return diff(dsdiff.DiffData(x.(*dataset.Dataset), o.(*dataset.Dataset)))
	}},
	op{"assign from", func(x, _ interface{}) string {
		n := &dataset.Dataset{}
		n.Assign(x.(*dataset.Dataset), nil, x.(*dataset.Dataset))
		return snap(n)
	}},
	op{"body file", func(x, _ interface{}) string { return fmt.Sprint(x.(*dataset.Dataset).BodyFile() == nil) }},
)

func st(f func(s *dataset.Structure) string) func(x, o interface{}) string {
	return func(x, _ interface{}) string { return f(x.(*dataset.Structure)) }
}

var tableText = map[string]string{"csv": "c0,c1\n1,a\n2,b\n", "json": `[[1,"a"],[2,"b"]]`, "ndjson": "[1,\"a\"]\n[2,\"b\"]\n", "cbor": "\x82\x82\x01\x61a\x82\x02\x61b"}

func entriesOf(rd dsio.EntryReader, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	es, err := body.Drain(rd, 10)
	rd.Close()
	return fmt.Sprint(body.ShowEntries(es), err)
}

var structureOps = []op{
	{"json", func(x, _ interface{}) string { b, err := json.Marshal(x); return show(b, err) }},
	{"hash", st(func(s *dataset.Structure) string { h, err := s.Hash(); return show(h, err) })},
	{"abstract", st(func(s *dataset.Structure) string { return snap(s.Abstract()) })},
	{"json schema", st(func(s *dataset.Structure) string {
		sch, err := s.JSONSchema()
		if err != nil {
			return "error: " + err.Error()
		}
		return show(json.Marshal(sch))
	})},
	{"names", st(func(s *dataset.Structure) string {
		return fmt.Sprint(s.DataFormat(), s.BodyFilename(), s.AddFileFormatExtensions("x"), s.RequiresTabularSchema(), dsio.HasHeaderRow(s))
	})},
	{"top level type", st(func(s *dataset.Structure) string { return show(dsio.GetTopLevelType(s)) })},
	{"columns", st(func(s *dataset.Structure) string {
		cols, problems, err := tabular.ColumnsFromJSONSchema(s.Schema)
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprint(snap(cols), problems, cols.Titles(), cols.ValidMachineTitles())
	})},
	{"options", st(func(s *dataset.Structure) string {
		cfg, err := dataset.ParseFormatConfigMap(s.DataFormat(), s.FormatConfig)
		if err != nil {
			return "error: " + err.Error()
		}
		return snap(cfg.Map())
	})},
	{"validate", st(func(s *dataset.Structure) string {
		return fmt.Sprint(validate.Structure(s), validate.Schema(s.Schema))
	})},
	{"read", st(func(s *dataset.Structure) string {
		return entriesOf(dsio.NewEntryReader(s, strings.NewReader(tableText[s.Format])))
	})},
	{"write", st(func(s *dataset.Structure) string {
		b := &bytes.Buffer{}
		err := body.WriteBody(s, b, []dsio.Entry{{Index: 0, Key: "k", Value: []interface{}{int64(1), "a"}}, {Index: 1, Key: "l", Value: []interface{}{int64(2), "b"}}})
		if s.Format == "xlsx" {
			return fmt.Sprint(err)
		}
		return show(b.Bytes(), err)
	})},
	{"buffer", st(func(s *dataset.Structure) string {
		buf, err := dsio.NewEntryBuffer(s)
		if err != nil {
			return "error: " + err.Error()
		}
		err = buf.WriteEntry(dsio.Entry{Key: "k", Value: []interface{}{int64(1), "a"}})
		return fmt.Sprint(err, buf.Close(), buf.Structure() == s)
	})},
	{"validate a body", st(func(s *dataset.Structure) string {
		rd, err := dsio.NewEntryReader(s, strings.NewReader(tableText[s.Format]))
		if err != nil {
			return "error: " + err.Error()
		}
		defer rd.Close()
		errs, err := validate.EntryReader(rd)
		var l []string
		for _, e := range errs {
			l = append(l, e.Error())
		}
		sort.Strings(l)
		return fmt.Sprint(l, err)
	})},
	{"statistics", st(func(s *dataset.Structure) string {
		a := dsstats.NewAccumulator(s)
		var l []string
		for i := 0; i < 3; i++ {
			l = append(l, fmt.Sprint(a.WriteEntry(dsio.Entry{Index: i, Key: fmt.Sprint(i), Value: []interface{}{int64(i), "a"}})))
		}
		l = append(l, fmt.Sprint(a.Close()))
		return fmt.Sprint(l, snap(dsstats.ToMap(a)))
	})},
	{"generate", st(func(s *dataset.Structure) string {
		g, err := generate.NewTabularGenerator(s)
		if err != nil {
			return "error: " + err.Error()
		}
		e, err := g.ReadEntry()
		g.Close()
		return fmt.Sprint(err, e.Index)
	})},
	{"convert", st(func(s *dataset.Structure) string {
		b, err := dsio.ConvertFile(qfs.NewMemfileBytes("body."+s.Format, []byte(tableText[s.Format])), s, s, 1, 1, false)
		if s.Format == "xlsx" {
			return fmt.Sprint(err)
		}
		return show(b, err)
	})},
	{"detect a dataset", st(func(s *dataset.Structure) string {
		// detection may set what is missing
		if s.Format == "" || s.Schema == nil || s.FormatConfig == nil {
			return ""
		}
		ds := &dataset.Dataset{Structure: s}
		ds.SetBodyFile(qfs.NewMemfileBytes("body."+s.Format, []byte(tableText[s.Format])))
		return fmt.Sprint(detect.Structure(ds))
	})},
}

// check runs the operations one after the other.
func check(t *kit.T, ctx string, mk func() interface{}, other interface{}, ops []op) {
	x := mk()
	before, otherBefore := snap(x), snap(other)
	for i, o := range ops {
		saw := o.f(x, other)
		t.Op(1)
		if s := snap(x); s != before {
			t.Failf("%s: %s changes it\nbefore %s\nafter  %s", ctx, o.name, before, s)
		}
		if s := snap(other); s != otherBefore {
			t.Failf("%s: %s changes what it is compared with\nbefore %s\nafter  %s", ctx, o.name, otherBefore, s)
		}
		if i > 0 {
			// what it sees doesn't depend on what looked before
			y := mk()
			if again := normal(o.f(y, other)); again != normal(saw) {
				t.Failf("%s: %s after %s sees\n%s\nand without it\n%s", ctx, o.name, ops[i-1].name, saw, again)
			}
		}
		t.Trace()
		t.State(ctx, o.name, saw)
	}
}

// normal leaves out the addresses of files
func normal(s string) string {
	for {
		i := strings.Index(s, "file0x")
		if i < 0 {
			return s
		}
		s = s[:i]
	}
}

func subsets(n, max int) (l [][]int) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		l = append(l, append([]int{}, cur...))
		if len(cur) == max {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return
}

func run(r *kit.Run) {
	kinds := []*comp.Kind{&comp.Commit, &comp.Meta, &comp.Structure, &comp.Stats, &comp.Transform, &comp.Readme, &comp.Viz}
	withFiles := func(c interface{}) {
		f := func(n string) qfs.File { return files[n] }
		switch x := c.(type) {
		case *dataset.Transform:
			x.SetScriptFile(f("script"))
		case *dataset.Readme:
			x.SetScriptFile(f("script"))
			x.SetRenderedFile(f("rendered"))
		case *dataset.Viz:
			x.SetScriptFile(f("script"))
			x.SetRenderedFile(f("rendered"))
		case *dataset.Dataset:
			x.SetBodyFile(f("body"))
		}
	}
	pick := func(c *kit.C, k *comp.Kind, ops []op) (comp.A, op, op) {
		max := r.T0(2, 3)
		if k.Name == "meta" || k.Name == "dataset" {
			max = 2
		}
		subs := subsets(len(k.Fields), max)
		a := k.Uniform(0)
		i := c.Choose(len(subs) + 2)
		first := kit.Pick(c, ops)
		if i >= len(subs) {
			return k.Uniform(i - len(subs) + 1), first, kit.Pick(c, ops)
		}
		second := first
		if len(subs[i]) < 2 || r.Thorough {
			second = kit.Pick(c, ops)
		}
		v := 1 + c.Choose(2)
		for _, f := range subs[i] {
			a[f] = v
			if v > len(k.Fields[f].Vals) {
				a[f] = 1
			}
		}
		return a, first, second
	}
	r.Explore("components", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, kinds)
		ops := append(append([]op{}, componentOps...), kindOps[k.Name]...)
		a, first, second := pick(c, k, ops)
		open := c.Bool()
		return func(t *kit.T) {
			mk := func() interface{} {
				x := k.Build(a)
				if open {
					withFiles(x)
				}
				return x
			}
			check(t, fmt.Sprintf("%s %s, files open %v", k.Name, k.String(a), open), mk, k.Build(k.Uniform(1)), []op{first, second})
		}
	})
	r.Explore("datasets", func(c *kit.C) func(t *kit.T) {
		k := &comp.Dataset
		a, first, second := pick(c, k, datasetOps)
		open := c.Bool()
		return func(t *kit.T) {
			mk := func() interface{} {
				x := k.Build(a).(*dataset.Dataset)
				if open {
					withFiles(x)
					if x.Transform != nil {
						withFiles(x.Transform)
					}
					if x.Readme != nil {
						withFiles(x.Readme)
					}
					if x.Viz != nil {
						withFiles(x.Viz)
					}
				}
				return x
			}
			check(t, fmt.Sprintf("dataset %s, files open %v", k.String(a), open), mk, k.Build(k.Uniform(1)), []op{first, second})
		}
	})

	schemas := []string{
		`null`, `{}`, `{"type":"array"}`, `{"type":"object"}`, `{"type":"string"}`, `{"type":["array"]}`,
		`{"type":"array","items":{"type":"array"}}`,
		`{"type":"array","items":{"type":"array","items":[]}}`,
		`{"type":"array","items":{"type":"array","items":[{"title":"a","type":"integer"},{"title":"b","type":["string","null"],"maxLength":1}]}}`,
		`{"type":"array","items":{"type":"array","items":[{"type":"integer"},{}]}}`,
		`{"type":"array","items":{"type":"array","items":[{"title":"a","type":"bad"},{"title":"a"}]}}`,
		`{"type":"array","items":{"type":"object","properties":{"b":{"type":"string"},"a":{"type":"number"}}}}`,
		`{"type":"object","additionalProperties":{"type":"array","items":[{"title":"a","type":"integer"},{"title":"b","type":"string"}]}}`,
		`{"type":"array","items":false,"x":{"y":[1,{"z":null}]}}`,
	}
	configs := []string{`null`, `{}`, `{"headerRow":true}`, `{"headerRow":true,"lazyQuotes":true,"separator":";","variadicFields":true}`, `{"headerRow":3}`, `{"pretty":true}`, `{"sheetName":"s"}`, `{"unknown":{"a":[1]}}`}
	r.Explore("structures", func(c *kit.C) func(t *kit.T) {
		format := kit.Pick(c, []string{"csv", "json", "ndjson", "cbor", "xlsx", "", "bmp"})
		compression := kit.Pick(c, []string{"", "gzip", "zst", "nope"})
		schema, cfg := kit.Pick(c, schemas), kit.Pick(c, configs)
		first, second := kit.Pick(c, structureOps), kit.Pick(c, structureOps)
		if !r.Thorough && compression != "" && cfg != configs[0] && cfg != configs[3] {
			return nil
		}
		return func(t *kit.T) {
			mk := func() interface{} {
				s := &dataset.Structure{Format: format, Compression: compression, Checksum: "c", Depth: 2, Entries: 2, Length: 9, Strict: true, Path: "/p", Qri: "st:0"}
				json.Unmarshal([]byte(schema), &s.Schema)
				json.Unmarshal([]byte(cfg), &s.FormatConfig)
				return s
			}
			check(t, fmt.Sprintf("structure %s %q schema %s options %s", format, compression, schema, cfg), mk, nil, []op{first, second})
		}
	})

	between(r, kinds, schemas, configs)
	written(r)
}

var files = map[string]qfs.File{
	"body":     qfs.NewMemfileBytes("body.csv", []byte("a\n")),
	"script":   qfs.NewMemfileBytes("script.star", []byte("x")),
	"rendered": qfs.NewMemfileBytes("index.html", []byte("<p>")),
}

// written: values given to a writer are left alone, and are the caller's again
// once the write has returned.
func written(r *kit.Run) {
	table := func() []interface{} {
		return []interface{}{
			[]interface{}{int64(1), "a"}, []interface{}{int64(2), "b"}, []interface{}{nil, "é"}, []interface{}{int64(-1), ""},
		}
	}
	deep := func() []interface{} {
		return []interface{}{
			nil, "s", []byte("bytes"), []interface{}{}, map[string]interface{}{},
			[]interface{}{int64(1), []interface{}{"x", map[string]interface{}{"b": 1.5, "a": nil}}},
			map[string]interface{}{"z": []interface{}{true}, "a": map[string]interface{}{"k": "v", "j": int64(2)}},
			map[string]interface{}{"b": []byte{1, 2}},
		}
	}
	type target struct {
		name string
		// keeps: holds on to the values until it is closed
		keeps bool
		vals  func() []interface{}
		mk    func() (dsio.EntryWriter, func() string, error)
	}
	var targets []target
	for _, f := range []string{"json", "ndjson", "cbor", "csv", "xlsx"} {
		for _, cm := range []string{"", "gzip", "zst"} {
			for _, obj := range []bool{false, true} {
				f, cm, obj := f, cm, obj
				tabular := f == "csv" || f == "xlsx"
				if obj && (tabular || f == "ndjson") || f == "xlsx" && cm != "" {
					continue
				}
				tg := target{name: fmt.Sprintf("%s writer %s (object %v)", f, cm, obj), vals: deep, keeps: f == "cbor"}
				if tabular {
					tg.vals = table
				}
				tg.mk = func() (dsio.EntryWriter, func() string, error) {
					b := &bytes.Buffer{}
					s := body.St(f, cm, body.Arr(), nil)
					if obj {
						s.Schema = body.Obj()
					}
					if tabular {
						s.Schema = body.Table("integer", "string")
					}
					w, err := dsio.NewEntryWriter(s, b)
					return w, func() string {
						if f == "xlsx" {
							return entriesOf(dsio.NewEntryReader(s, bytes.NewReader(b.Bytes())))
						}
						return b.String()
					}, err
				}
				targets = append(targets, tg)
			}
		}
	}
	for _, obj := range []bool{false, true} {
		obj := obj
		targets = append(targets, target{fmt.Sprintf("statistics (object %v)", obj), false, func() []interface{} {
			return append(deep(), table()...)
		}, func() (dsio.EntryWriter, func() string, error) {
			s := body.St("json", "", body.Arr(), nil)
			if obj {
				s.Schema = body.Obj()
			}
			a := dsstats.NewAccumulator(s)
			return a, func() string { return snap(dsstats.ToMap(a)) }, nil
		}}, target{fmt.Sprintf("entry buffer (object %v)", obj), false, deep, func() (dsio.EntryWriter, func() string, error) {
			s := body.St("json", "", body.Arr(), nil)
			if obj {
				s.Schema = body.Obj()
			}
			b, err := dsio.NewEntryBuffer(s)
			return b, func() string { return string(b.Bytes()) }, err
		}})
	}
	r.Explore("values written", func(c *kit.C) func(t *kit.T) {
		tg := kit.Pick(c, targets)
		n := c.Range(1, 3)
		var pick []int
		for i := 0; i < n; i++ {
			pick = append(pick, c.Choose(len(tg.vals())))
		}
		// overwrite after the write of entry `when`; n: only after closing
		when := n
		if !tg.keeps {
			when = c.Choose(n + 1)
		}
		return func(t *kit.T) {
			record := func(overwrite bool) (string, string) {
				w, result, err := tg.mk()
				if err != nil {
					t.Failf("%s: %s", tg.name, err)
				}
				var es []dsio.Entry
				for i, p := range pick {
					es = append(es, dsio.Entry{Index: i, Key: fmt.Sprintf("k%d", i), Value: tg.vals()[p]})
				}
				var errs []string
				ctx := tg.name + " given " + body.ShowEntries(es)
				for i := range es {
					before := snap(es[i])
					errs = append(errs, fmt.Sprint(w.WriteEntry(es[i])))
					t.Op(1)
					if s := snap(es[i]); s != before {
						t.Failf("%s: writing entry %d changes it to %s", ctx, i, s)
					}
					if overwrite && when == i {
						for j := 0; j <= i; j++ {
							scrub(es[j].Value)
						}
					}
				}
				errs = append(errs, fmt.Sprint(w.Close()))
				t.Op(1)
				out := result()
				if overwrite && when == n {
					for j := range es {
						scrub(es[j].Value)
					}
				}
				if again := result(); again != out {
					t.Failf("%s: what was recorded changes with the values: %s, then %s", ctx, out, again)
				}
				return fmt.Sprint(errs), out
			}
			e1, out1 := record(false)
			e2, out2 := record(true)
			if e1 != e2 || out1 != out2 {
				t.Failf("%s: values %v overwritten after entry %d: %s %q, otherwise %s %q", tg.name, pick, when, e2, out2, e1, out1)
			}
			t.Trace()
			t.State(tg.name, out1)
		}
	})

	// dynamic values are looked at, not changed
	r.Explore("values looked at", func(c *kit.C) func(t *kit.T) {
		a := kit.Pick(c, append(deep(), table()...))
		how := c.Choose(6)
		wrap := c.Choose(3)
		return func(t *kit.T) {
			v := body.Clone(a)
			switch wrap {
			case 1:
				v = []interface{}{v, v}
			case 2:
				v = map[string]interface{}{"w": v}
			}
			before := snap(v)
			var saw string
			switch how {
			case 0:
				x, err := vals.ConvertDecoded(v)
				if err == nil {
					saw = fmt.Sprint(vals.Equal(x, x), x.Type())
				}
			case 1:
				saw = show(detect.TabularSchemaFromTabularData(v))
			case 2:
				rd, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), v)
				if err == nil {
					dsio.ReadAll(rd)
					rd.Close()
				}
				saw = fmt.Sprint(err)
			case 3:
				ds := &dataset.Dataset{Body: v}
				saw = show(json.Marshal(ds))
			case 4:
				for _, ty := range []vals.Type{vals.TypeArray, vals.TypeObject, vals.TypeString} {
					b, err := ty.ValueToBytes(v)
					saw += fmt.Sprint(string(b), err)
				}
			case 5:
				(&dataset.Meta{}).Set("custom", v)
				m := &dataset.Meta{}
				m.SetArbitrary("custom", v)
				saw = show(json.Marshal(m))
			}
			t.Op(1)
			if s := snap(v); s != before {
				t.Failf("way %d of looking at %s leaves %s", how, before, s)
			}
			t.Trace()
			t.State(how, saw)
		}
	})
}

// scrub overwrites everything inside a value.
func scrub(v interface{}) {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			scrub(x[i])
			x[i] = "overwritten"
		}
	case map[string]interface{}:
		for k, e := range x {
			scrub(e)
			delete(x, k)
		}
		x["overwritten"] = "overwritten"
	case []byte:
		for i := range x {
			x[i] = 'X'
		}
	}
}
