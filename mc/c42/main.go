// C42: what is made of a body doesn't depend on how the body is stored.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C42", Level: "model_checking",
		Rule:   "every body over the value alphabets stored in every format, layout and compression that can hold it, and brought there by every chain of conversions; statistics, validation errors, preview, rendering, pages, detected kind and further conversions of each compared with those of plain JSON",
		Bounds: "lists and keyed bodies of up to 2 of 26 values (3 of 10), tables of up to 2 rows of 2 columns of 4 types; 5 to 8 ways of storing each, times 3 compressions; chains of up to 2 conversions (thorough 3)",
		Assume: []string{"that the JSON body holds the values is what C08 and C10 check"},
		Body:   run})
}

type store struct {
	format, comp string
	cfg          map[string]interface{}
}

func (s store) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %v %s", s.format, s.cfg, s.comp))
}

func (s store) st(schema string) *dataset.Structure {
	var sch map[string]interface{}
	if err := json.Unmarshal([]byte(schema), &sch); err != nil {
		panic(schema)
	}
	cfg := map[string]interface{}{}
	for k, v := range s.cfg {
		cfg[k] = v
	}
	if len(cfg) == 0 {
		cfg = nil
	}
	return body.St(s.format, s.comp, sch, cfg)
}

var comps = []string{"", "gzip", "zstd"}

// stores are the ways of storing a shape of body
func stores(shape string) (l []store) {
	add := func(format string, cfg map[string]interface{}) {
		for _, c := range comps {
			if format == "xlsx" && c != "" {
				continue
			}
			l = append(l, store{format, c, cfg})
		}
	}
	add("json", nil)
	add("cbor", nil)
	if shape != "map" {
		add("ndjson", nil)
	}
	if shape == "table" {
		add("csv", nil)
		add("csv", map[string]interface{}{"headerRow": true})
		add("csv", map[string]interface{}{"separator": ";", "lazyQuotes": true})
		add("xlsx", nil)
	}
	add("json", map[string]interface{}{"pretty": true})
	return l
}

func encode(t *kit.T, st *dataset.Structure, es []dsio.Entry) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(st, buf, body.CloneEntries(es)); err != nil {
		t.Failf("writing %s as %s: %v", body.ShowEntries(es), st.Format, err)
	}
	return buf.Bytes()
}

func file(data []byte) qfs.File { return qfs.NewMemfileBytes("/body", data) }

func dset(st *dataset.Structure, data []byte) *dataset.Dataset {
	ds := &dataset.Dataset{Name: "n", Structure: st}
	ds.SetBodyFile(file(data))
	return ds
}

// asJSON tells values apart but not the types of equal numbers: not every
// format has whole numbers
func asJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func text(t *kit.T, st *dataset.Structure, data []byte) string {
	es, err := body.ReadBody(st, bytes.NewReader(data), 1<<20)
	if err != nil {
		return "not a body: " + err.Error()
	}
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("%d/%q=%s\n", e.Index, e.Key, asJSON(e.Value))
	}
	return s
}

const list = "{{ range $k, $v := allBodyEntries }}{{ $k }}={{ $v }};{{ end }}|{{ range $k, $v := bodyEntries 1 1 }}{{ $v }};{{ end }}"

// made is everything that is made of a body, by name
func made(t *kit.T, s store, schema string, data []byte, table bool) (names []string, vals map[string]string) {
	vals = map[string]string{}
	put := func(name string, v string, err error) {
		if err != nil {
			v = "error" // errors name places in the stored bytes
		}
		names = append(names, name)
		vals[name] = v
		t.Op(1)
	}
	{
		sts, err := dsstats.Calculate(dset(s.st(schema), data))
		var b []byte
		if err == nil {
			b, err = json.Marshal(sts.Stats)
		}
		put("statistics", string(b), err)
	}
	{
		rd, err := dsio.NewEntryReader(s.st(schema), bytes.NewReader(data))
		var l []string
		if err == nil {
			errs, e := validate.EntryReader(rd)
			err = e
			for _, x := range errs {
				l = append(l, fmt.Sprintf("%s: %s (%s)", x.PropertyPath, x.Message, body.Show(x.InvalidValue)))
			}
			rd.Close()
		}
		sort.Strings(l)
		put("validation errors", strings.Join(l, "\n"), err)
	}
	{
		p, err := preview.Create(context.Background(), dset(s.st(schema), data))
		var b []byte
		if err == nil {
			b, err = json.Marshal(p.Body)
		}
		put("preview", string(b), err)
	}
	{
		ds := dset(s.st(schema), data)
		ds.Viz = &dataset.Viz{Format: "html"}
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("/t.html", []byte(list)))
		f, err := dsviz.Render(ds)
		var b []byte
		if err == nil {
			b, err = ioutil.ReadAll(f)
		}
		put("rendering", string(b), err)
	}
	for _, o := range []store{{"json", "", nil}, {"cbor", "", nil}} {
		conv := func(name string, limit, offset int, all bool) {
			got, err := dsio.ConvertFile(file(data), s.st(schema), o.st(schema), limit, offset, all)
			v := string(got)
			if err == nil && o.format == "cbor" {
				v = text(t, o.st(schema), got)
			}
			put(name+o.String(), v, err)
		}
		conv("conversion to ", 0, 0, true)
		conv("page as ", 1, 1, false)
	}
	if !table {
		f, _ := dataset.ParseDataFormatString(s.format)
		c, _ := compression.ParseFormat(s.comp)
		st, _, err := detect.FromReader(f, c, bytes.NewReader(data))
		v := ""
		if err == nil {
			v = fmt.Sprint(st.Schema["type"])
		}
		put("detected kind", v, err)
	}
	{
		rd, err := dsio.NewEntryReader(s.st(schema), bytes.NewReader(data))
		v := ""
		if err == nil {
			var x interface{}
			x, err = dsio.ReadAll(rd)
			v = asJSON(x)
			rd.Close()
		}
		put("whole body", v, err)
	}
	return
}

func compare(t *kit.T, es []dsio.Entry, how, schema string, ref, got map[string]string, names []string) {
	for _, n := range names {
		if ref[n] != got[n] {
			t.Failf("body %s of schema %s: the %s of %s is\n  %.600q, of plain JSON\n  %.600q", body.ShowEntries(es), schema, n, how, got[n], ref[n])
		}
	}
}

var schemas = map[string][]string{
	"list": {`{"type":"array"}`, `{"type":"array","items":{"type":["string","integer"],"maxLength":1,"minimum":0}}`, `{"type":"array","items":{"type":["object","array","number"],"required":["k"],"minItems":1}}`},
	"map":  {`{"type":"object"}`, `{"type":"object","additionalProperties":{"type":["string","integer"],"maxLength":1,"minimum":0}}`, `{"type":"object","required":["zz"],"properties":{"a":{"type":"number"}}}`},
}

func run(r *kit.Run) {
	big := int64(1)<<53 + 1
	values := []interface{}{nil, "", "a", int64(1), 1.5, true, []interface{}{"x", int64(2)}, map[string]interface{}{"k": int64(1)}, int64(-300), "two words <é>\n\"",
		false, int64(0), big, -big, int64(9223372036854775807), int64(-9223372036854775808), 1e300, -0.25, 1e-7, "1", "null", "\x00\u2028", []interface{}{}, map[string]interface{}{},
		map[string]interface{}{"": nil, "b": []interface{}{map[string]interface{}{"c": 0.5}}}, []interface{}{[]interface{}{nil}, big}}
	keys := []string{"a", "b", "é/~"}
	one := func(es []dsio.Entry, shape, schema string, table bool) func(t *kit.T) {
		return func(t *kit.T) {
			l := stores(shape)
			plain := encode(t, l[0].st(schema), es)
			names, ref := made(t, l[0], schema, plain, table)
			for _, s := range l {
				data := encode(t, s.st(schema), es)
				_, got := made(t, s, schema, data, table)
				compare(t, es, "the body as "+s.String(), schema, ref, got, names)
				t.Trace()
			}
			t.State(shape, schema, ref["whole body"])
		}
	}
	gen := func(c *kit.C, shape string, max int, vs []interface{}) (es []dsio.Entry) {
		for i, n := 0, c.Range(0, max); i < n; i++ {
			e := dsio.Entry{Index: i, Value: kit.Pick(c, vs)}
			if shape == "map" {
				e.Key = keys[i]
			}
			es = append(es, e)
		}
		return
	}
	r.Explore("lists", func(c *kit.C) func(t *kit.T) {
		sch := kit.Pick(c, schemas["list"])
		return one(gen(c, "list", 2, values), "list", sch, false)
	})
	r.Explore("keyed", func(c *kit.C) func(t *kit.T) {
		sch := kit.Pick(c, schemas["map"])
		return one(gen(c, "map", 2, values), "map", sch, false)
	})
	r.Explore("three", func(c *kit.C) func(t *kit.T) {
		shape := kit.Pick(c, []string{"list", "map"})
		vs := values[:r.T0(7, 11)]
		es := gen(c, shape, 3, vs)
		if len(es) < 3 {
			return nil
		}
		return one(es, shape, schemas[shape][0], false)
	})

	cols := map[string][]interface{}{
		"string":  {"", "a", "1", "two, \"words\"; <é>", "line\nbreak", "true"},
		"integer": {int64(0), int64(-7), big},
		"number":  {0.5, -1e300, 1e-7},
		"boolean": {true, false},
	}
	types := []string{"string", "integer", "number", "boolean"}
	limits := []string{``, `,"maxLength":1,"minimum":0,"enum":["a","",0,0.5,true]`}
	tschema := func(ts []string, limit string) string {
		var l []string
		for i, x := range ts {
			l = append(l, fmt.Sprintf(`{"title":"c%d","type":"%s"%s}`, i, x, limit))
		}
		return `{"type":"array","items":{"type":"array","items":[` + strings.Join(l, ",") + `]}}`
	}
	rows := func(c *kit.C, n int) ([]dsio.Entry, string) {
		var ts []string
		for i, m := 0, c.Range(1, 2); i < m; i++ {
			ts = append(ts, kit.Pick(c, types))
		}
		var es []dsio.Entry
		for i, m := 0, c.Range(0, n); i < m; i++ {
			var row []interface{}
			for _, x := range ts {
				vs := cols[x]
				if i > 0 {
					vs = vs[:2]
				}
				row = append(row, kit.Pick(c, vs))
			}
			es = append(es, dsio.Entry{Index: i, Value: row})
		}
		ls := limits
		if len(es) > 1 {
			ls = ls[1:]
		}
		return es, tschema(ts, kit.Pick(c, ls))
	}
	r.Explore("tables", func(c *kit.C) func(t *kit.T) {
		es, sch := rows(c, r.T0(1, 2))
		return one(es, "table", sch, true)
	})
	r.Explore("tables of two rows", func(c *kit.C) func(t *kit.T) {
		ty := kit.Pick(c, types)
		var es []dsio.Entry
		for i := 0; i < 2; i++ {
			es = append(es, dsio.Entry{Index: i, Value: []interface{}{kit.Pick(c, cols[ty])}})
		}
		return one(es, "table", tschema([]string{ty}, kit.Pick(c, limits)), true)
	})

	// bodies longer than previews and batches
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		shape := kit.Pick(c, []string{"list", "map", "table"})
		n := kit.Pick(c, []int{99, 100, 101, 255, 256, 1000, 5001})
		if n > 1000 && !r.Thorough {
			return nil
		}
		return func(t *kit.T) {
			var es []dsio.Entry
			for i := 0; i < n; i++ {
				e := dsio.Entry{Index: i, Value: []interface{}{fmt.Sprintf("v%d", i%7), int64(i * i), float64(i) + 0.5, i%3 == 0}}
				if shape != "table" && i%2 == 1 {
					e.Value = []interface{}{nil, int64(i), fmt.Sprint(i), map[string]interface{}{"k": int64(i)}}[i/2%4]
				}
				if shape == "map" {
					e.Key = fmt.Sprintf("%05d", i)
				}
				es = append(es, e)
			}
			sch := tschema(types, "")
			if shape != "table" {
				sch = schemas[shape][1]
			}
			one(es, shape, sch, shape == "table")(t)
		}
	})

	// chains of conversions
	r.Explore("chains", func(c *kit.C) func(t *kit.T) {
		shape := kit.Pick(c, []string{"list", "map", "table"})
		l := stores(shape)
		var chain []store
		for i, n := 0, c.Range(1, r.T0(2, 3)); i < n; i++ {
			chain = append(chain, kit.Pick(c, l))
		}
		var es []dsio.Entry
		sch := tschema(types, "")
		switch which := c.Choose(3); {
		case shape == "table":
			for i := 0; i < 3*which; i++ {
				es = append(es, dsio.Entry{Index: i, Value: []interface{}{cols["string"][i], cols["integer"][i%3], cols["number"][i%3], i%2 == 0}})
			}
		default:
			sch = schemas[shape][0]
			for i := 13 * (which / 2); i < 13*which; i++ {
				e := dsio.Entry{Index: len(es), Value: values[i]}
				if shape == "map" {
					e.Key = fmt.Sprintf("k%02d", i)
				}
				es = append(es, e)
			}
		}
		return func(t *kit.T) {
			plain := encode(t, l[0].st(sch), es)
			names, ref := made(t, l[0], sch, plain, shape == "table")
			data, in, how := plain, l[0], "plain JSON"
			for _, s := range chain {
				next, err := dsio.ConvertFile(file(data), in.st(sch), s.st(sch), 0, 0, true)
				how += ", converted to " + s.String()
				if err != nil {
					t.Failf("body %s: %s: %v", body.ShowEntries(es), how, err)
				}
				t.Op(1)
				if direct := encode(t, s.st(sch), es); text(t, s.st(sch), direct) != text(t, s.st(sch), next) {
					t.Failf("body %s: %s gives\n  %.400q, written directly it is\n  %.400q", body.ShowEntries(es), how, next, direct)
				}
				data, in = next, s
			}
			_, got := made(t, in, sch, data, shape == "table")
			compare(t, es, how, sch, ref, got, names)
			t.Trace()
			t.State(how, ref["whole body"])
		}
	})
}
