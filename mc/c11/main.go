// C11: CSV bodies survive writing and reading with typed columns.
package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C11", Level: "model_checking",
		Rule:   "every table over the cell alphabets, written row by row under every header, separator, quoting, field count and compression setting and read back with the same structure; cell values, column types and titles are combined exhaustively within the bounds",
		Bounds: "cell texts of up to 3 characters (4 thorough) over a 10 character alphabet in three table shapes and 24 settings; pairs of cells of up to 2 characters; every type against every value; tables up to 6000 rows; cells up to 300 KB with a line break at each buffer boundary",
		Body:   run})
}

type cfg struct {
	sep                    string
	header, lazy, variadic bool
	comp                   string
	buffer                 bool
}

func (c cfg) opts() map[string]interface{} {
	m := map[string]interface{}{}
	if c.sep != "" {
		m["separator"] = c.sep
	}
	if c.header {
		m["headerRow"] = true
	}
	if c.lazy {
		m["lazyQuotes"] = true
	}
	if c.variadic {
		m["variadicFields"] = true
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

func table(titles []string, types []string) map[string]interface{} {
	items := make([]interface{}, len(types))
	for i := range types {
		m := map[string]interface{}{"type": types[i]}
		if titles != nil {
			m["title"] = titles[i]
		}
		items[i] = m
	}
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
}

func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func lf(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// want is what a cell holding v has to come back as in a column of a type.
func want(v interface{}, typ string) interface{} {
	s := lf(text(v))
	switch typ {
	case "null":
		if s == "" || s == "null" {
			return nil
		}
	case "integer":
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	case "number":
		if n, err := strconv.ParseFloat(s, 64); err == nil {
			return n
		}
	case "boolean":
		if b, err := strconv.ParseBool(s); err == nil {
			return b
		}
	case "array", "object":
		if x, ok := body.JSON(s); ok {
			if _, ok := x.([]interface{}); ok && typ == "array" {
				return x
			}
			if _, ok := x.(map[string]interface{}); ok && typ == "object" {
				return x
			}
		}
	}
	return s
}

func typedCell(typ string, v interface{}) bool {
	switch v.(type) {
	case int64:
		return typ == "integer"
	case float64:
		return typ == "number"
	case bool:
		return typ == "boolean"
	case []interface{}:
		return typ == "array"
	case map[string]interface{}:
		return typ == "object"
	case nil:
		return typ == "null"
	case string:
		return true
	}
	return false
}

func check(t *kit.T, c cfg, titles, types []string, rows [][]interface{}) {
	st := body.St("csv", c.comp, table(titles, types), c.opts())
	ctx := func() string {
		s := fmt.Sprintf("%+v titles=%q types=%v rows=%s", c, titles, types, body.Show(toI(rows)))
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		return s
	}
	var raw []byte
	var got []dsio.Entry
	var err error
	if c.buffer {
		b, e := dsio.NewEntryBuffer(st)
		if e != nil {
			t.Failf("%s: entry buffer: %v", ctx(), e)
		}
		for i, row := range rows {
			if err := b.WriteEntry(dsio.Entry{Index: i, Value: body.Clone(row)}); err != nil {
				t.Failf("%s: writing row %d: %v", ctx(), i, err)
			}
		}
		if err := b.Close(); err != nil {
			t.Failf("%s: close: %v", ctx(), err)
		}
		raw = append(raw, b.Bytes()...)
		got, err = body.Drain(b, len(rows)+3)
	} else {
		buf := &bytes.Buffer{}
		es := make([]dsio.Entry, len(rows))
		for i := range rows {
			es[i] = dsio.Entry{Index: i, Value: body.Clone(rows[i])}
		}
		if err := body.WriteBody(st, buf, es); err != nil {
			t.Failf("%s: writing: %v", ctx(), err)
		}
		raw = append(raw, buf.Bytes()...)
		got, err = body.ReadBody(st, buf, len(rows)+3)
	}
	t.Op(2*len(rows) + 2)
	t.Trace()
	show := func() []byte {
		if len(raw) > 200 {
			return raw[:200]
		}
		return raw
	}
	if err != nil {
		t.Failf("%s: reading %q back, after %d rows: %v", ctx(), show(), len(got), err)
	}
	if len(got) != len(rows) {
		t.Failf("%s: wrote %d rows, read %d: %s\n bytes %q", ctx(), len(rows), len(got), body.ShowEntries(got), show())
	}
	for i, e := range got {
		row, ok := e.Value.([]interface{})
		if !ok || len(row) != len(rows[i]) {
			t.Failf("%s: row %d is %s; bytes %q", ctx(), i, body.Show(e.Value), show())
		}
		for j := range row {
			typ := "string"
			if len(rows[i]) <= len(types) {
				typ = types[j]
			}
			w := want(rows[i][j], typ)
			eq := body.Eq(w, row[j])
			if typedCell(typ, row[j]) == false || !sameKind(w, row[j]) {
				eq = false
			}
			if !eq {
				t.Failf("%s: row %d cell %d came back as %s, want %s; bytes %q", ctx(), i, j, body.Show(row[j]), body.Show(w), show())
			}
		}
	}
	// the document itself: a header row exactly when configured, then the rows
	if c.comp == "" && (c.sep == "" || len(c.sep) == 1) {
		cr := csv.NewReader(bytes.NewReader(raw))
		cr.FieldsPerRecord = -1
		if c.sep != "" {
			cr.Comma = rune(c.sep[0])
		}
		recs, err := cr.ReadAll()
		if err != nil {
			t.Failf("%s: %q is not a CSV document: %v", ctx(), show(), err)
		}
		n := len(rows)
		if c.header {
			n++
			exp := titles
			if titles == nil {
				exp = make([]string, len(types))
				for i := range exp {
					exp[i] = fmt.Sprintf("col_%d", i)
				}
			}
			if len(recs) == 0 || len(recs[0]) != len(exp) {
				t.Failf("%s: no header in %q", ctx(), show())
			}
			for i := range exp {
				if lf(exp[i]) != lf(recs[0][i]) {
					t.Failf("%s: header in %q, want %q", ctx(), show(), exp)
				}
			}
		}
		if len(recs) != n {
			t.Failf("%s: %q has %d records, want %d", ctx(), show(), len(recs), n)
		}
	}
	t.State(raw)
}

func sameKind(a, b interface{}) bool {
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

func toI(rows [][]interface{}) []interface{} {
	out := make([]interface{}, len(rows))
	for i := range rows {
		out[i] = rows[i]
	}
	return out
}

func str(c *kit.C, alpha []string, max int) string {
	n := c.Range(0, max)
	s := ""
	for i := 0; i < n; i++ {
		s += alpha[c.Choose(len(alpha))]
	}
	return s
}

var values = []interface{}{
	nil, true, false, int64(0), int64(-7), int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<53 + 1, 12,
	0.5, -2.25, 3.0, 1e300, 5e-324, 0.1, 1e21, 123456789.125, -0.0000001,
	"", "a", "12", "1.5", "-0.25", "true", "t", "T", "F", "1", "0", "+5", " 5", "5 ", "1e3", "[1]", "{}", "[1,", "{\"a\":1} x", "\"q\"", "9223372036854775808", "é😀",
	[]interface{}{"z", 7.5}, map[string]interface{}{"m": true}, []interface{}{int64(math.MinInt64), []interface{}{int64(1)<<53 + 1}}, map[string]interface{}{"n": int64(math.MaxInt64)}, "[9007199254740993,-9007199254740993,9223372036854775808,1e17]",
	[]interface{}{}, []interface{}{1.0, "a,b\"\n", nil, []interface{}{true}}, map[string]interface{}{}, map[string]interface{}{"k,\"": 1.5, "n": nil, "o": map[string]interface{}{"x": []interface{}{}}},
}

var types = []string{"string", "integer", "number", "boolean", "array", "object", "null", "date"}

func run(r *kit.Run) {
	seps := []string{"", ";", "\t", "|", " ", "é"}
	alpha := func(sep string) []string {
		if sep == "" {
			sep = ","
		}
		return []string{"a", sep, "\"", "\n", "\r", " ", "#", "\\.", "é", "'"}
	}
	settings := func(c *kit.C) cfg {
		f := cfg{sep: kit.Pick(c, seps)}
		f.header, f.lazy = c.Bool(), c.Bool()
		return f
	}
	r.Explore("texts", func(c *kit.C) func(t *kit.T) {
		f := settings(c)
		shape := c.Choose(3)
		s := str(c, alpha(f.sep), r.T0(3, 4))
		return func(t *kit.T) {
			switch shape {
			case 0:
				check(t, f, []string{"t"}, []string{"string"}, [][]interface{}{{s}})
			case 1:
				check(t, f, []string{"t", "u"}, []string{"string", "string"}, [][]interface{}{{s, "x"}})
			case 2:
				check(t, f, []string{"t"}, []string{"string"}, [][]interface{}{{s}, {"x"}, {s}})
			}
		}
	})
	r.Explore("pairs of texts", func(c *kit.C) func(t *kit.T) {
		f := settings(c)
		a := alpha(f.sep)[:5]
		s1, s2 := str(c, a, 2), str(c, a, 2)
		tall := c.Bool()
		return func(t *kit.T) {
			if tall {
				check(t, f, []string{"t"}, []string{"string"}, [][]interface{}{{s1}, {s2}})
			} else {
				check(t, f, []string{"t", "u"}, []string{"string", "string"}, [][]interface{}{{s1, s2}})
			}
		}
	})
	r.Explore("typed cells", func(c *kit.C) func(t *kit.T) {
		f := cfg{sep: kit.Pick(c, []string{"", ";"}), header: c.Bool(), lazy: c.Bool(), buffer: c.Bool()}
		t1, t2 := kit.Pick(c, types), kit.Pick(c, types)
		v1, v2 := kit.Pick(c, values), values[0]
		i := c.Choose(len(values))
		v2 = values[i]
		if !r.Thorough && t2 != "string" && t2 != t1 {
			return nil
		}
		return func(t *kit.T) {
			check(t, f, []string{"t", "u"}, []string{t1, t2}, [][]interface{}{{v1, v2}, {v2, v1}})
		}
	})
	r.Explore("compressed typed cells", func(c *kit.C) func(t *kit.T) {
		f := cfg{sep: kit.Pick(c, []string{"", "é"}), header: c.Bool(), comp: kit.Pick(c, []string{"gzip", "gz", "zst", "zstd"}), buffer: c.Bool()}
		t1 := kit.Pick(c, types)
		v1 := kit.Pick(c, values)
		n := c.Range(0, 2)
		return func(t *kit.T) {
			rows := make([][]interface{}, n)
			for i := range rows {
				rows[i] = []interface{}{v1, "x"}
			}
			check(t, f, []string{"t", "u"}, []string{t1, "string"}, rows)
		}
	})
	titles := []string{"", "a", "a,b", "\"", "\n", "\r", " ", "1", "é", "#", "c0"}
	r.Explore("titles", func(c *kit.C) func(t *kit.T) {
		f := settings(c)
		n := c.Range(0, 2)
		ts := make([]string, n)
		for i := range ts {
			ts[i] = kit.Pick(c, titles)
		}
		if n == 0 {
			ts = nil
		}
		rows := c.Range(0, 2)
		return func(t *kit.T) {
			k := n
			if n == 0 {
				k = 2
			}
			tp := make([]string, k)
			row := make([]interface{}, k)
			for i := range tp {
				tp[i] = []string{"string", "integer"}[i]
				row[i] = []interface{}{"s", int64(4)}[i]
			}
			rs := make([][]interface{}, rows)
			for i := range rs {
				rs[i] = row
			}
			check(t, f, ts, tp, rs)
		}
	})
	r.Explore("rows of any width when variadic", func(c *kit.C) func(t *kit.T) {
		f := settings(c)
		f.variadic = true
		n := c.Range(1, r.T0(3, 4))
		rows := make([][]interface{}, n)
		for i := range rows {
			w := c.Range(1, 3)
			rows[i] = []interface{}{int64(i), "s", true}[:w]
		}
		return func(t *kit.T) {
			check(t, f, []string{"t", "u"}, []string{"integer", "string"}, rows)
		}
	})
	r.Explore("rows of differing width otherwise", func(c *kit.C) func(t *kit.T) {
		header := c.Bool()
		n := c.Range(1, 4)
		ws := make([]int, n)
		for i := range ws {
			ws[i] = c.Range(1, 3)
		}
		return func(t *kit.T) {
			cfg := map[string]interface{}{}
			doc := ""
			exp := ws[0]
			if header {
				doc = "t,u\n"
				cfg["headerRow"] = true
				exp = 2
			}
			bad := -1
			for i, w := range ws {
				doc += strings.Repeat("1,", w-1) + "1\n"
				if w != exp && bad < 0 {
					bad = i
				}
			}
			st := body.St("csv", "", table([]string{"t", "u"}, []string{"integer", "integer"}), cfg)
			got, err := body.ReadBody(st, strings.NewReader(doc), n+2)
			t.Op(n)
			t.Trace()
			if bad < 0 && (err != nil || len(got) != n) || bad >= 0 && (err == nil || len(got) != bad) {
				t.Failf("%q (header %v): first row of another width is %d, read %d rows, error %v", doc, header, bad, len(got), err)
			}
			t.State(doc)
		}
	})
	// quotes that don't stand around a whole cell are a mistake, unless lazy
	// quotes are configured
	r.Explore("stray quotes", func(c *kit.C) func(t *kit.T) {
		lazy, variadic, header := c.Bool(), c.Bool(), c.Bool()
		type cell struct {
			text, val string
			stray     bool
		}
		cells := []cell{{"x", "x", false}, {`"x"`, "x", false}, {`"x""y"`, `x"y`, false}, {`""`, "", false}, {`x"y`, `x"y`, true}, {`x"`, `x"`, true}, {`x "y" z`, `x "y" z`, true}, {`"x"y"`, `x"y`, true}, {` "x"`, ` "x"`, true}}
		n := c.Range(1, r.T0(2, 3))
		rows := make([][2]cell, n)
		for i := range rows {
			rows[i] = [2]cell{kit.Pick(c, cells), kit.Pick(c, cells)}
		}
		return func(t *kit.T) {
			opts := map[string]interface{}{}
			doc := ""
			if header {
				opts["headerRow"] = true
				doc = "t,u\n"
			}
			if lazy {
				opts["lazyQuotes"] = true
			}
			if variadic {
				opts["variadicFields"] = true
			}
			bad := -1
			var want []dsio.Entry
			for i, row := range rows {
				doc += row[0].text + "," + row[1].text + "\n"
				if (row[0].stray || row[1].stray) && bad < 0 && !lazy {
					bad = i
				}
				if bad < 0 {
					want = append(want, dsio.Entry{Value: []interface{}{row[0].val, row[1].val}})
				}
			}
			got, err := body.ReadBody(body.St("csv", "", table([]string{"t", "u"}, []string{"string", "string"}), opts), strings.NewReader(doc), n+2)
			t.Op(n)
			t.Trace()
			if (err != nil) != (bad >= 0) || !body.EqEntries(want, got, false, body.Eq) {
				t.Failf("%q (options %v) is read as %s, error %v, should be %s, error: %v", doc, opts, body.ShowEntries(got), err, body.ShowEntries(want), bad >= 0)
			}
			t.State(doc)
		}
	})
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		f := cfg{header: c.Bool(), comp: kit.Pick(c, []string{"", "gzip", "zst"}), buffer: c.Bool()}
		n := kit.Pick(c, []int{999, 1000, 2000, 2001, 5000, 6000})
		return func(t *kit.T) {
			rows := make([][]interface{}, n)
			for i := range rows {
				rows[i] = []interface{}{int64(i), fmt.Sprintf("row %d\"\n,%d", i, i*i), float64(i) / 8, i%3 == 0, []interface{}{float64(i)}, map[string]interface{}{"i": float64(i)}}
			}
			check(t, f, []string{"a", "b", "c", "d", "e", "f"}, []string{"integer", "string", "number", "boolean", "array", "object"}, rows)
		}
	})
	r.Explore("cells across buffer boundaries", func(c *kit.C) func(t *kit.T) {
		f := cfg{comp: kit.Pick(c, []string{"", "zst"})}
		at := kit.Pick(c, []int{4096, 8192, 65536, 256 * 1024}) - 4 + c.Choose(8)
		brk := kit.Pick(c, []string{"\n", "\r", "\r\n", "\"", "é", ",", "\r\r\n\n"})
		quoted := c.Bool()
		return func(t *kit.T) {
			s := strings.Repeat("x", at-1) + brk + "tail"
			if !quoted {
				check(t, f, []string{"t", "u"}, []string{"string", "string"}, [][]interface{}{{strings.Repeat("x", at-1), "b"}, {"c", s}})
				return
			}
			check(t, f, []string{"t", "u"}, []string{"string", "string"}, [][]interface{}{{s, "b"}, {"c", s}})
		}
	})
	r.Explore("line ends of documents from elsewhere", func(c *kit.C) func(t *kit.T) {
		header := c.Bool()
		last := c.Bool()
		n := c.Range(1, 4)
		ends := make([]string, n)
		for i := range ends {
			ends[i] = kit.Pick(c, []string{"\n", "\r", "\r\n"})
		}
		return func(t *kit.T) {
			doc := ""
			cfg := map[string]interface{}{}
			if header {
				doc = "t,u" + ends[0]
				cfg["headerRow"] = true
			}
			for i, e := range ends {
				doc += fmt.Sprintf("%d,\"q\"", i)
				if i < n-1 || last {
					doc += e
				}
			}
			st := body.St("csv", "", table([]string{"t", "u"}, []string{"integer", "string"}), cfg)
			got, err := body.ReadBody(st, strings.NewReader(doc), n+2)
			t.Op(n)
			t.Trace()
			if err != nil || len(got) != n {
				t.Failf("%q: read %s, error %v", doc, body.ShowEntries(got), err)
			}
			for i := range got {
				if !body.EqTyped(got[i].Value, []interface{}{int64(i), "q"}) {
					t.Failf("%q: row %d is %s", doc, i, body.Show(got[i].Value))
				}
			}
			t.State(doc)
		}
	})
	bad := []interface{}{"s", 1, nil, map[string]interface{}{"a": 1}, []string{"a"}, []interface{}{uint8(1)}, []interface{}{"a", complex(1, 1)}, []interface{}{[]byte("x")}, []interface{}{[]interface{}{math.NaN()}}, []interface{}{int32(4)}}
	r.Explore("entries a CSV document cannot hold are refused", func(c *kit.C) func(t *kit.T) {
		v := bad[c.Choose(len(bad))]
		return func(t *kit.T) {
			st := body.St("csv", "", table(nil, []string{"string", "string"}), nil)
			w, err := dsio.NewEntryWriter(st, io.Discard)
			if err != nil {
				t.Failf("%v", err)
			}
			err = w.WriteEntry(dsio.Entry{Value: v})
			t.Op(1)
			if err == nil {
				buf := &bytes.Buffer{}
				_ = body.WriteBody(st, buf, []dsio.Entry{{Value: v}})
				t.Failf("writing %#v gave no error and %q", v, buf.String())
			}
		}
	})
}

var _ = compression.SupportedFormats
