// C43: what is derived from a body can be stored with it and read back.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C43", Level: "model_checking",
		Rule:   "every body over alphabets of cells, JSON values and CBOR items (not-a-number, infinities, figures at and beyond the ends of every numeric type, texts that look like them, invalid UTF-8) in every format is taken through detection, reading, statistics, validation and preview; each result is encoded in a dataset, decoded, and used again in place of what was derived",
		Bounds: "CSV and XLSX: one column of 2 of 25 cells under 10 column types, of 3 of 14 cells detected, two columns of 2 rows of 6 cells; JSON, NDJSON: up to 2 of 24 values (3 of 12), lists, rows and objects; CBOR: up to 2 of 27 items (3 of 14)",
		Body:   run})
}

// expressible says whether v is of the kinds JSON has a way to write, and exact whether what it writes is v again
func expressible(v interface{}) (ok, exact bool) {
	switch x := v.(type) {
	case nil, bool, int, int64, uint64:
		return true, true
	case string:
		return true, utf8.ValidString(x)
	case float64:
		return !math.IsNaN(x) && !math.IsInf(x, 0), true
	case []interface{}:
		ok, exact = x != nil, true
		for _, e := range x {
			o, ex := expressible(e)
			ok, exact = ok && o, exact && ex
		}
		return ok, exact
	case map[string]interface{}:
		ok, exact = x != nil, true
		for k, e := range x {
			o, ex := expressible(e)
			ok, exact = ok && o, exact && ex && utf8.ValidString(k)
		}
		return ok, exact
	}
	return false, false
}

func file(name string, data []byte) qfs.File { return qfs.NewMemfileBytes(name, data) }

func jsonOf(v interface{}) (string, error) {
	b, err := json.Marshal(v)
	return string(b), err
}

// again encodes a value that was decoded from b
func again(b string) (string, error) {
	dec := json.NewDecoder(strings.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return "", err
	}
	return jsonOf(v)
}

// derive takes the body through everything. name gives its format, st what is known of it.
func derive(t *kit.T, name string, data []byte, st *dataset.Structure) {
	show := func() string { return fmt.Sprintf("%s %q", name, clip(data)) }
	ds := &dataset.Dataset{Name: "d", Commit: &dataset.Commit{Title: "t"}, Structure: st}
	ds.SetBodyFile(file(name, data))
	t.Op(1)
	if err := detect.Structure(ds); err != nil {
		return // nothing to derive from a body that isn't understood
	}
	stJSON, err := jsonOf(ds.Structure)
	if err != nil {
		t.Failf("%s: the detected structure cannot be encoded: %v", show(), err)
		return
	}
	es, err := body.ReadBody(ds.Structure, bytes.NewReader(data), 1000)
	if err != nil {
		return
	}
	t.State(stJSON, body.ShowEntries(es))
	t.Trace()
	cbor := ds.Structure.Format == "cbor"
	all, exact := true, true
	for _, e := range es {
		ok, ex := expressible(e.Value)
		all, exact = all && ok, exact && ex && utf8.ValidString(e.Key)
	}
	if !all && !cbor {
		t.Failf("%s, read with %s: %s has values no other format can hold", show(), stJSON, body.ShowEntries(es))
		return
	}

	// statistics
	ds.SetBodyFile(file(name, data))
	ds.Stats, err = dsstats.Calculate(ds)
	if err != nil {
		t.Failf("%s: it reads as %s, its statistics fail: %v", show(), body.ShowEntries(es), err)
		return
	}
	stats, err := jsonOf(ds.Stats.Stats)
	if err != nil {
		t.Failf("%s: it reads as %s, its statistics cannot be encoded: %v", show(), body.ShowEntries(es), err)
		return
	}

	// validation
	errsOf := func(st *dataset.Structure) (string, bool) {
		r, err := dsio.NewEntryReader(st, bytes.NewReader(data))
		if err != nil {
			t.Failf("%s: it cannot be opened: %v", show(), err)
			return "", false
		}
		defer r.Close()
		errs, err := validate.EntryReader(r)
		if err != nil {
			if !cbor || all {
				t.Failf("%s: it reads as %s, validating it fails: %v", show(), body.ShowEntries(es), err)
			}
			return "refused", !cbor || all
		}
		s, err := jsonOf(errs)
		if err != nil {
			t.Failf("%s: the validation errors cannot be encoded: %v", show(), err)
		}
		return s, true
	}
	errs, _ := errsOf(ds.Structure)
	if err := validate.Structure(ds.Structure); err != nil && st == nil {
		t.Failf("%s: the detected structure %s is not valid: %v", show(), stJSON, err)
	}

	// the dataset that holds it all
	text, err := jsonOf(ds)
	if err != nil {
		t.Failf("%s: a dataset with its structure and statistics cannot be encoded: %v", show(), err)
		return
	}
	back := &dataset.Dataset{}
	if err := json.Unmarshal([]byte(text), back); err != nil {
		t.Failf("%s: the dataset %s made of it cannot be decoded: %v", show(), text, err)
		return
	}
	if s, err := jsonOf(back); err != nil || !same(text, s) {
		t.Failf("%s: the dataset %s made of it is decoded and encoded as %s, %v", show(), text, s, err)
	}
	if h1, err := dataset.JSONHash(ds); err == nil {
		if h2, err := dataset.JSONHash(back); err != nil || h1 != h2 && canonical(text) {
			t.Failf("%s: the dataset %s has another hash once decoded, %v", show(), text, err)
		}
	} else {
		t.Failf("%s: a dataset with its structure and statistics cannot be hashed: %v", show(), err)
	}
	if d, err := dsdiff.DiffStructure(ds.Structure, back.Structure); err != nil || len(d.Deltas()) != 0 {
		t.Failf("%s: comparing the structure %s with itself decoded: %v, %v", show(), stJSON, d, err)
	}
	t.Op(5)

	// what was decoded in place of what was derived
	es2, err := body.ReadBody(back.Structure, bytes.NewReader(data), 1000)
	if err != nil || body.ShowEntries(es) != body.ShowEntries(es2) {
		t.Failf("%s: read with %s it is %s, with the same once decoded %s, %v", show(), stJSON, body.ShowEntries(es), body.ShowEntries(es2), err)
	}
	if s, ok := errsOf(back.Structure); ok && s != errs {
		t.Failf("%s: validation gives %s, with the decoded structure %s", show(), errs, s)
	}
	back.SetBodyFile(file(name, data))
	if err := detect.Structure(back); err != nil {
		t.Failf("%s: detection with the decoded structure: %v", show(), err)
	}
	if s, err := jsonOf(back.Structure); err != nil || s != stJSON {
		t.Failf("%s: detection changed the decoded structure %s to %s, %v", show(), stJSON, s, err)
	}
	if s2, err := dsstats.Calculate(back); err != nil {
		t.Failf("%s: statistics with the decoded structure: %v", show(), err)
	} else if s, err := jsonOf(s2.Stats); err != nil || s != stats {
		t.Failf("%s: statistics are %s, with the decoded structure %s, %v", show(), stats, s, err)
	}

	// preview
	back.SetBodyFile(file(name, data))
	p, err := preview.Create(context.Background(), back)
	if err != nil {
		if all {
			t.Failf("%s: it reads as %s, a preview fails: %v", show(), body.ShowEntries(es), err)
		}
		return
	}
	if !all {
		return
	}
	ptext, err := jsonOf(p)
	if err != nil {
		t.Failf("%s: its preview cannot be encoded: %v", show(), err)
		return
	}
	pb := &dataset.Dataset{}
	if err := json.Unmarshal([]byte(ptext), pb); err != nil {
		t.Failf("%s: its preview %s cannot be decoded: %v", show(), ptext, err)
		return
	}
	if s, err := jsonOf(pb); err != nil || !same(ptext, s) {
		t.Failf("%s: its preview %s is decoded and encoded as %s, %v", show(), ptext, s, err)
	}
	var doc struct {
		Body json.RawMessage `json:"body"`
	}
	if err := json.Unmarshal([]byte(ptext), &doc); err != nil {
		t.Failf("%v", err)
	}
	if got, err := jsonOf(value(es, back.Structure)); err != nil || exact && !same(got, string(doc.Body)) {
		t.Failf("%s: it reads as %s, the body of the encoded preview is %s", show(), got, doc.Body)
	}
	t.Op(5)
}

// same says whether two texts decode to the same value. Numbers decode as floats
func same(a, b string) bool {
	var x, y interface{}
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

// canonical: the text is written the way it's written again once decoded, which large whole numbers aren't
func canonical(s string) bool {
	a, err := again(s)
	var v interface{}
	if err != nil || json.Unmarshal([]byte(s), &v) != nil {
		return false
	}
	b, err := jsonOf(v)
	return err == nil && a == b
}

func value(es []dsio.Entry, st *dataset.Structure) interface{} {
	if st.Schema["type"] == "object" {
		m := map[string]interface{}{}
		for _, e := range es {
			m[e.Key] = e.Value
		}
		return m
	}
	l := []interface{}{}
	for _, e := range es {
		l = append(l, e.Value)
	}
	return l
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

var cells = []string{"1.5", "NaN", "Inf", "-Inf", "+inf", "infinity", "nan", "1e308", "-1e308", "1e999", "", "x", "null", "true",
	"-NaN", "+Infinity", "0x1p4", "\xff", "é\u2028", "2", "9223372036854775808", "[1e308]", "[1e999]", `{"a":1e308}`, "1_0"}

func typed(types []interface{}) map[string]interface{} {
	items := make([]interface{}, len(types))
	for i, ty := range types {
		items[i] = map[string]interface{}{"title": string(rune('a' + i)), "type": ty}
	}
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
}

func quote(s string) string {
	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
}

// table gives the bytes of a table of cells
func table(t *kit.T, format string, rows [][]string, header bool) []byte {
	if format == "csv" {
		s := ""
		if header {
			for i := range rows[0] {
				if i > 0 {
					s += ","
				}
				s += string(rune('a' + i))
			}
			s += "\n"
		}
		for _, r := range rows {
			for i, c := range r {
				if i > 0 {
					s += ","
				}
				s += quote(c)
			}
			s += "\n"
		}
		return []byte(s)
	}
	ty := make([]interface{}, len(rows[0]))
	for i := range ty {
		ty[i] = "string"
	}
	buf := &bytes.Buffer{}
	es := make([]dsio.Entry, len(rows))
	for i, r := range rows {
		v := make([]interface{}, len(r))
		for j, c := range r {
			v[j] = c
		}
		es[i] = dsio.Entry{Index: i, Value: v}
	}
	if err := body.WriteBody(body.St("xlsx", "", typed(ty), nil), buf, es); err != nil {
		return nil
	}
	return buf.Bytes()
}

var types = []interface{}{"number", "integer", "string", "boolean", "array", "object", "null", []interface{}{"number", "null"}, []interface{}{"integer", "number"}, []interface{}{"string", "null"}}

func known(format string, types ...interface{}) *dataset.Structure {
	var cfg map[string]interface{}
	if format == "csv" {
		cfg = map[string]interface{}{"lazyQuotes": true}
	} else {
		cfg = map[string]interface{}{"sheetName": "Sheet1"}
	}
	return body.St(format, "", typed(types), cfg)
}

func pack(t *kit.T, comp string, data []byte) []byte {
	if comp == "" {
		return data
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(comp, buf)
	if err != nil {
		t.Failf("%v", err)
		return nil
	}
	w.Write(data)
	w.Close()
	return buf.Bytes()
}

func run(r *kit.Run) {
	r.Explore("cells of every type", func(c *kit.C) func(*kit.T) {
		ty := types[c.Choose(len(types))]
		format := kit.Pick(c, []string{"csv", "xlsx"})
		n := len(cells)
		if format == "xlsx" {
			n = r.T0(12, n)
		}
		rows := [][]string{{cells[c.Choose(n)]}, {cells[c.Choose(n)]}}
		return func(t *kit.T) {
			if data := table(t, format, rows, false); data != nil {
				derive(t, "b."+format, data, known(format, ty))
			}
		}
	})
	r.Explore("tables detected", func(c *kit.C) func(*kit.T) {
		rows := make([][]string, c.Range(1, 3))
		k := r.T0(14, len(cells))
		if len(rows) < 3 {
			k = len(cells)
		}
		header := c.Bool()
		for i := range rows {
			rows[i] = []string{cells[c.Choose(k)]}
		}
		return func(t *kit.T) {
			derive(t, "b.csv", table(t, "csv", rows, header), nil)
		}
	})
	r.Explore("two columns", func(c *kit.C) func(*kit.T) {
		header := c.Bool()
		k := r.T0(6, 9)
		rows := [][]string{{"", ""}, {"", ""}}
		for i := range rows {
			for j := range rows[i] {
				rows[i][j] = cells[c.Choose(k)]
			}
		}
		comp := kit.Pick(c, []string{"", "gzip"})
		return func(t *kit.T) {
			name := "b.csv"
			if comp != "" {
				name = "b.csv.gz"
			}
			derive(t, name, pack(t, comp, table(t, "csv", rows, header)), nil)
		}
	})
	jsons := []string{"1e308", "-1e308", "1.7976931348623157e308", "5e-324", "0", "18446744073709551615", "9223372036854775808", "1e999", `"NaN"`, "null", "[1e308,1e308]", `{"a":1e308}`,
		"-0", "-0.0", "9223372036854775807", "-9223372036854775809", "123456789012345678901234567890", `"\ud800"`, `"é\u2028"`, `""`, "true", "[]", "{}", `[[1],{"b":null}]`}
	r.Explore("JSON values", func(c *kit.C) func(*kit.T) {
		format := kit.Pick(c, []string{"json", "ndjson"})
		shape := kit.Pick(c, []string{"list", "rows", "records", "object"})
		if format == "ndjson" && shape == "object" {
			return nil
		}
		l := make([]string, c.Range(0, 3))
		k := len(jsons)
		if len(l) == 3 {
			k = r.T0(12, k)
		}
		for i := range l {
			l[i] = jsons[c.Choose(k)]
		}
		preset := c.Bool()
		return func(t *kit.T) {
			for i := range l {
				switch shape {
				case "rows":
					l[i] = "[" + l[i] + "]"
				case "records":
					l[i] = `{"v":` + l[i] + "}"
				case "object":
					l[i] = fmt.Sprintf(`"k%d":%s`, i, l[i])
				}
			}
			s := "[" + strings.Join(l, ",") + "]"
			if shape == "object" {
				s = "{" + strings.Join(l, ",") + "}"
			}
			sch := body.Arr()
			if shape == "object" {
				sch = body.Obj()
			}
			if format == "ndjson" {
				s = strings.Join(l, "\n") + "\n"
			}
			var st *dataset.Structure
			if preset {
				st = body.St(format, "", sch, nil)
			}
			derive(t, "b."+format, []byte(s), st)
		}
	})
	items := []string{"\xf9\x7e\x00", "\xf9\x7c\x00", "\xf9\xfc\x00", "\xfb\x7f\xef\xff\xff\xff\xff\xff\xff", "\xfb\xff\xef\xff\xff\xff\xff\xff\xff", "\x01", "\x1b\xff\xff\xff\xff\xff\xff\xff\xff", "\x20", "\x41\xff", "\x61\xff", "\x61a", "\xf6", "\x82\xf9\x7e\x00\x01", "\xa1\x61v\xf9\x7c\x00",
		"\xfa\x7f\x80\x00\x00", "\xfb\x7f\xf8\x00\x00\x00\x00\x00\x00", "\x3b\x7f\xff\xff\xff\xff\xff\xff\xff", "\xf9\x80\x00", "\xf4", "\xf5", "\xf7", "\x80", "\xa0", "\x40", "\x60", "\xa1\x61\xff\x01", "\xc1\x00"}
	r.Explore("CBOR items", func(c *kit.C) func(*kit.T) {
		shape := kit.Pick(c, []string{"list", "rows", "object"})
		l := make([]string, c.Range(0, 3))
		k := len(items)
		if len(l) == 3 {
			k = r.T0(14, k)
		}
		for i := range l {
			l[i] = items[c.Choose(k)]
		}
		preset := c.Bool()
		return func(t *kit.T) {
			s := string([]byte{byte(0x80 + len(l))})
			sch := body.Arr()
			if shape == "object" {
				s, sch = string([]byte{byte(0xa0 + len(l))}), body.Obj()
			}
			for i := range l {
				switch shape {
				case "rows":
					s += "\x81"
				case "object":
					s += "\x61" + string(rune('a'+i))
				}
				s += l[i]
			}
			var st *dataset.Structure
			if preset {
				st = body.St("cbor", "", sch, nil)
			}
			derive(t, "b.cbor", []byte(s), st)
		}
	})
}
