// C21: CSV schema inference names every column once and types it soundly.
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/tabular"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C21", Level: "model_checking",
		Rule:   "inference run on every table of the enumerated shapes and cells and compared with an independent account of header, column titles, cell types and uneven rows; the body then read with the inferred schema",
		Bounds: "tables of up to 3 rows by 2 columns, or 2 by 3, over 14 cells, any widths (thorough 4 rows); tables of 1 to 5000 rows whose types change at every row near the sampling limit; 1 to 300 columns; headers of up to 4 parts (thorough 5) of 19",
		Assume: []string{"titles of header cells holding other symbols than those listed are only required to be present and the same every time"},
		Body:   run})
}

// cell types as a reader of the documentation would have them
var cells = []struct{ text, typ string }{
	{"a", "string"}, {"1", "integer"}, {"", "string"}, {"2.5", "number"}, {"true", "boolean"}, {"null", "null"}, {"{}", "object"}, {"[1]", "array"}, {"-7", "integer"}, {" 7", "integer"}, {"1e3", "number"}, {"-", "string"}, {"2020_01", "string"}, {"0x1p4", "string"},
}

var typeOf = map[string]string{}

func init() {
	for _, c := range cells {
		typeOf[c.text] = c.typ
	}
}

func header(rec []string) bool {
	for _, c := range rec {
		switch strings.TrimSpace(c) {
		case "", "1", "2.5", "true", "false", "-7", "7", "1e3":
			return false
		}
	}
	return true
}

func encode(recs [][]string) []byte {
	buf := &bytes.Buffer{}
	for _, rec := range recs {
		if len(rec) == 1 && rec[0] == "" {
			buf.WriteString("\"\"\n")
			continue
		}
		w := csv.NewWriter(buf)
		w.Write(rec)
		w.Flush()
	}
	return buf.Bytes()
}

type col struct{ title, typ string }

func columns(t *kit.T, ctx string, sch map[string]interface{}) (cols []col) {
	items, _ := sch["items"].(map[string]interface{})
	l, ok := items["items"].([]interface{})
	if sch["type"] != "array" || items["type"] != "array" || !ok || len(sch) != 2 || len(items) != 2 {
		t.Failf("%s: schema %v", ctx, sch)
	}
	for _, v := range l {
		m, _ := v.(map[string]interface{})
		var c col
		c.title, _ = m["title"].(string)
		c.typ, _ = m["type"].(string)
		cols = append(cols, c)
	}
	return cols
}

func infer(t *kit.T, ctx string, data []byte, chunk int) (*dataset.Structure, []col) {
	t.Op(1)
	st, _, err := detect.FromReader(dataset.CSVDataFormat, compression.FmtNone, body.NewSource(data, chunk, false))
	if err != nil {
		t.Failf("%s: %v", ctx, err)
	}
	return st, columns(t, ctx, st.Schema)
}

// verify compares an inferred schema with the records it was made from.
func verify(t *kit.T, ctx string, st *dataset.Structure, cols []col, recs [][]string) {
	hd := header(recs[0])
	for _, c := range recs[0] {
		// numbers to some, names to others
		if c == "2020_01" || c == "0x1p4" {
			hd = hd && st.FormatConfig["headerRow"] == true
		}
	}
	if (st.FormatConfig["headerRow"] == true) != hd {
		t.Failf("%s: config %v; the first row can be a header: %v", ctx, st.FormatConfig, hd)
	}
	if len(cols) != len(recs[0]) {
		t.Failf("%s: %d columns, the first row has %d", ctx, len(cols), len(recs[0]))
	}
	sample := recs
	if hd {
		sample = recs[1:]
	}
	uneven := false
	counts := make([]map[string]int, len(cols))
	for i := range counts {
		counts[i] = map[string]int{}
	}
	for _, rec := range sample {
		if len(rec) != len(cols) {
			uneven = true
			continue
		}
		for i, c := range rec {
			typ, ok := typeOf[c]
			if !ok {
				typ = "string"
			}
			counts[i][typ]++
		}
	}
	if (st.FormatConfig["variadicFields"] == true) != uneven {
		t.Failf("%s: config %v; rows of uneven length: %v", ctx, st.FormatConfig, uneven)
	}
	for i, c := range cols {
		most := 0
		for _, n := range counts[i] {
			if n > most {
				most = n
			}
		}
		if c.typ == "" && most > 0 || c.typ != "" && (most == 0 || counts[i][c.typ] != most) {
			t.Failf("%s: column %d has type %q; its cells are %v", ctx, i, c.typ, counts[i])
		}
		if c.title == "" {
			t.Failf("%s: column %d has no title", ctx, i)
		}
		if hd && (recs[0][i] == "a" || recs[0][i] == "null") && c.title != recs[0][i] {
			t.Failf("%s: column %d is named %q", ctx, i, c.title)
		}
		if !hd {
			for j := 0; j < i; j++ {
				if cols[j].title == c.title {
					t.Failf("%s: columns %d and %d are both named %q", ctx, j, i, c.title)
				}
			}
		}
	}
}

func run(r *kit.Run) {
	table := func(c *kit.C, rows, width int) [][]string {
		var recs [][]string
		for i, n := 0, c.Range(1, rows); i < n; i++ {
			var rec []string
			for j, m := 0, c.Range(1, width); j < m; j++ {
				rec = append(rec, kit.Pick(c, cells).text)
			}
			recs = append(recs, rec)
		}
		return recs
	}
	check := func(recs [][]string) func(t *kit.T) {
		return func(t *kit.T) {
			data := encode(recs)
			ctx := fmt.Sprintf("table %q", recs)
			st, cols := infer(t, ctx, data, 0)
			verify(t, ctx, st, cols, recs)
			again, _ := infer(t, ctx, data, 3)
			if !reflect.DeepEqual(st, again) {
				t.Failf("%s: first %v, then %v", ctx, st, again)
			}
			es, err := body.ReadBody(st, bytes.NewReader(data), 100)
			n := len(recs)
			if st.FormatConfig["headerRow"] == true {
				n--
			}
			if err != nil || len(es) != n {
				t.Failf("%s: read with %v as %s, error %v", ctx, st, body.ShowEntries(es), err)
			}
			t.Trace()
		}
	}
	r.Explore("narrow tables", func(c *kit.C) func(t *kit.T) { return check(table(c, r.T0(4, 5), 1)) })
	r.Explore("tables", func(c *kit.C) func(t *kit.T) {
		var recs [][]string
		n := c.Range(1, 3)
		for i := 0; i < n; i++ {
			var rec []string
			m := c.Range(1, 2)
			for j := 0; j < m; j++ {
				k := len(cells)
				if n == 3 && !r.Thorough {
					k = 6
				}
				rec = append(rec, cells[c.Choose(k)].text)
			}
			recs = append(recs, rec)
		}
		return check(recs)
	})
	r.Explore("wide tables", func(c *kit.C) func(t *kit.T) {
		var recs [][]string
		for i := 0; i < 2; i++ {
			var rec []string
			for j, m := 0, c.Range(1, 3); j < m; j++ {
				rec = append(rec, cells[c.Choose(r.T0(7, len(cells)))].text)
			}
			recs = append(recs, rec)
		}
		return check(recs)
	})
	r.Explore("columns", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{1, 2, 9, 10, 25, 26, 27, 51, 52, 53, 99, 100, 255, 256, 300})
		hd := c.Bool()
		return func(t *kit.T) {
			a, b := make([]string, n), make([]string, n)
			for i := range a {
				a[i], b[i] = "1", cells[i%len(cells)].text
				if hd {
					a[i] = "a"
				}
			}
			check([][]string{a, b, b})(t)
		}
	})

	// types around the number of rows that are looked at
	r.Explore("many rows", func(c *kit.C) func(t *kit.T) {
		turn := kit.Pick(c, []int{1, 2, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2500})
		total := kit.Pick(c, []int{1, 1998, 1999, 2000, 2001, 2002, 2003, 3000, 5000})
		hd := c.Bool()
		uneven := c.Bool()
		return func(t *kit.T) {
			buf := &bytes.Buffer{}
			if hd {
				buf.WriteString("head,other\n")
			}
			for i := 0; i < total; i++ {
				switch {
				case i < turn:
					buf.WriteString("1,x\n")
				case uneven && i == turn:
					buf.WriteString("1\n")
				default:
					buf.WriteString("text,null\n")
				}
			}
			ctx := fmt.Sprintf("%d rows turning at %d, header %v, uneven %v", total, turn, hd, uneven)
			st, cols := infer(t, ctx, buf.Bytes(), 0)
			// at least 2000 rows count, and not many more
			want := func(sample int) string {
				ints, texts := turn, sample-turn
				if uneven && sample > turn {
					texts--
				}
				if texts > ints {
					return "string"
				} else if texts == ints {
					return ""
				}
				return "integer"
			}
			lo, hi := total, total
			if lo > 2000 {
				lo = 2000
			}
			if hi > 2010 {
				hi = 2010
			}
			x, y := want(lo), want(hi)
			if len(cols) != 2 || x != "" && x == y && cols[0].typ != x || cols[0].typ != "integer" && cols[0].typ != "string" {
				t.Failf("%s: columns %v, expected %q or %q", ctx, cols, x, y)
			}
			if v := st.FormatConfig["variadicFields"] == true; v && !(uneven && turn < total) || !v && uneven && turn < lo-1 {
				t.Failf("%s: config %v", ctx, st.FormatConfig)
			}
			if (st.FormatConfig["headerRow"] == true) != hd {
				t.Failf("%s: config %v", ctx, st.FormatConfig)
			}
			if !uneven || turn >= total || turn < 1990 {
				es, err := body.ReadBody(st, bytes.NewReader(buf.Bytes()), total+1)
				if err != nil || len(es) != total {
					t.Failf("%s: read %d entries, error %v", ctx, len(es), err)
				}
			}
			t.Trace()
		}
	})

	// numbers are data, however they are padded
	r.Explore("numbers in the first row", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []string{"5", "-5", "1.5", "0", "1e3", "-0.25", "007", "12345678901234567890", ".5"})
		pre, post := kit.Pick(c, []string{"", " ", "\t", "  "}), kit.Pick(c, []string{"", " ", "\t", "  "})
		width := c.Range(1, 3)
		at := c.Choose(width)
		chunk := kit.Pick(c, []int{0, 1})
		return func(t *kit.T) {
			row, next := make([]string, width), make([]string, width)
			for i := range row {
				row[i], next[i] = "a", "b"
			}
			row[at] = pre + n + post
			ctx := fmt.Sprintf("rows %q, %q", row, next)
			data := encode([][]string{row, next})
			st, cols := infer(t, ctx, data, chunk)
			if st.FormatConfig["headerRow"] == true {
				t.Failf("%s: the first row is taken for a header: %q", ctx, cols)
			}
			es, err := body.ReadBody(st, bytes.NewReader(data), 10)
			if err != nil || len(es) != 2 {
				t.Failf("%s: read as %s, error %v", ctx, body.ShowEntries(es), err)
			}
			t.Trace()
		}
	})

	// titles
	parts := []string{"a", "Two", "WORDS", "x1", " ", "_", "-", "9", "(", "<", "=", ">", "$", "#", ".", "%", "é", "/", strings.Repeat("long", 8)}
	plain := 8 // of these, the parts without symbols
	r.Explore("titles", func(c *kit.C) func(t *kit.T) {
		s, sym, letter, first := "", false, false, false
		for i, n := 0, c.Range(1, r.T0(4, 5)); i < n; i++ {
			k := c.Choose(len(parts))
			sym = sym || k >= plain
			letter = letter || k < 4
			first = first || i == 0 && k < 4
			s += parts[k]
		}
		return func(t *kit.T) {
			data := encode([][]string{{s, "other"}, {"1", "2"}})
			ctx := fmt.Sprintf("header %q", s)
			st, cols := infer(t, ctx, data, 0)
			if st.FormatConfig["headerRow"] != true {
				if letter {
					t.Failf("%s is not taken for a header", ctx)
				}
				t.Trace()
				return
			}
			if len(cols) != 2 || cols[0].title == "" || cols[1].title != "other" {
				t.Failf("%s: columns %q", ctx, cols)
			}
			if !sym && first {
				tc, problems, err := tabular.ColumnsFromJSONSchema(st.Schema)
				if err != nil || len(problems) > 0 {
					t.Failf("%s: schema %v: %v %v", ctx, st.Schema, problems, err)
				}
				if err := tc.ValidMachineTitles(); err != nil && tc[0].Title != tc[1].Title {
					t.Failf("%s: %v", ctx, err)
				}
			}
			for i := 0; i < 4; i++ {
				if _, more := infer(t, ctx, data, 0); !reflect.DeepEqual(more, cols) {
					t.Failf("%s: columns %q at first, then %q", ctx, cols, more)
				}
			}
			t.Trace()
		}
	})
	r.Explore("comparison symbols", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, []string{"<", ">", "=", "!", "~", "^", ""}), kit.Pick(c, []string{"<", ">", "="})
		mid := kit.Pick(c, []string{"", ".", `\`, "(", "'"})
		tail := kit.Pick(c, []string{"", "=", "<>", "US$"})
		return func(t *kit.T) {
			s := "p" + a + mid + b + tail + "q"
			data := encode([][]string{{s}, {"1"}})
			_, cols := infer(t, s, data, 0)
			if cols[0].title == "" {
				t.Failf("header %q: no title", s)
			}
			// the library that makes names goes through its symbols in random order
			for i := 0; i < 120; i++ {
				if _, more := infer(t, s, data, 0); !reflect.DeepEqual(more, cols) {
					t.Failf("header %q: named %q at first, then %q", s, cols[0].title, more[0].title)
				}
			}
			t.Trace()
		}
	})
	names := map[string]string{"Animal": "animal", "camelCase": "camel_case", "two words": "two_words", "snake_case": "snake_case", "kebab-case": "kebab_case", "ID": "id", "x1": "x1", "2nd place": "nd_place", "  padded": "padded", "per%": "perpct", "a/b": "aperb", "Größe": "größe"}
	r.Case("names", func(t *kit.T) {
		for in, want := range names {
			if _, cols := infer(t, in, encode([][]string{{in}, {"1"}}), 0); cols[0].title != want {
				t.Failf("header %q is named %q instead of %q", in, cols[0].title, want)
			}
		}
		t.Trace()
	})

	r.Explore("faults", func(c *kit.C) func(t *kit.T) {
		hd, chunk := c.Bool(), c.Choose(2)
		return func(t *kit.T) {
			recs := [][]string{{"1", "x"}, {"2", "y"}, {"3"}, {"4", "a \"b\"\nc"}}
			if hd {
				recs[0][0] = "head"
			}
			data := encode(recs)
			t.Dyn(-1, func(c *kit.C) {
				src := body.NewSource(data, chunk, false)
				src.Fail = c.Choose(len(data) + 1)
				t.Op(1)
				st, _, err := detect.FromReader(dataset.CSVDataFormat, compression.FmtNone, src)
				if err == nil || st != nil && st.Schema != nil {
					t.Failf("reading failed at byte %d of %d: %v, error %v", src.Fail, len(data), st, err)
				}
				t.Trace()
			})
		}
	})
	r.Explore("no rows", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, []string{"", "\n", "\n\n", "\r\n", "\r"})
		return func(t *kit.T) {
			t.Op(1)
			st, _, err := detect.FromReader(dataset.CSVDataFormat, compression.FmtNone, strings.NewReader(s))
			if err == nil {
				t.Failf("content %q: %v and no error", s, st)
			}
			if err != io.EOF && err.Error() == "" {
				t.Failf("content %q: %v", s, err)
			}
			t.Trace()
		}
	})

	// schemas of tables of values
	vals := []struct {
		v   interface{}
		typ string
	}{{"a", "string"}, {"", "string"}, {1, "number"}, {int64(2), "number"}, {uint8(3), "number"}, {int8(3), "number"}, {int16(3), "number"}, {int32(3), "number"}, {uint(3), "number"}, {uint16(3), "number"}, {uint32(3), "number"}, {uint64(3), "number"}, {1.5, "number"}, {float32(1), "number"}, {true, "boolean"}, {nil, "null"}}
	r.Explore("tables of values", func(c *kit.C) func(t *kit.T) {
		var row []interface{}
		var types []string
		for i, n := 0, c.Range(0, 4); i < n; i++ {
			v := kit.Pick(c, vals)
			row, types = append(row, v.v), append(types, v.typ)
		}
		if row == nil {
			row = []interface{}{}
		}
		more := c.Choose(3)
		return func(t *kit.T) {
			t.Op(1)
			src := []interface{}{row}
			if more > 0 {
				src = append(src, []interface{}{"other"})
			}
			if more > 1 {
				src = append(src, map[string]interface{}{})
			}
			ctx := fmt.Sprintf("values %v", src)
			sch, err := detect.TabularSchemaFromTabularData(src)
			if err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			cols := columns(t, ctx, sch)
			if len(cols) != len(row) {
				t.Failf("%s: columns %v", ctx, cols)
			}
			for i, cl := range cols {
				if cl.typ != types[i] || cl.title == "" {
					t.Failf("%s: column %d is %v", ctx, i, cl)
				}
				for j := 0; j < i; j++ {
					if cols[j].title == cl.title {
						t.Failf("%s: columns %v", ctx, cols)
					}
				}
			}
			tc, _, err := tabular.ColumnsFromJSONSchema(sch)
			if err != nil || len(tc) != len(row) || tc.ValidMachineTitles() != nil {
				t.Failf("%s: schema %v cannot be used: %v", ctx, sch, err)
			}
			es := []dsio.Entry{{Value: row}}
			buf := &bytes.Buffer{}
			st := body.St("json", "", sch, nil)
			if err := body.WriteBody(st, buf, es); err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			t.Trace()
		}
	})
	r.Explore("not tables", func(c *kit.C) func(t *kit.T) {
		v := kit.Pick(c, []interface{}{[]interface{}{}, []interface{}{1}, []interface{}{"a", []interface{}{}}, []interface{}{nil}, []interface{}{map[string]interface{}{}}, nil, "a", 1, map[string]interface{}{}, map[string]interface{}{"a": []interface{}{}}})
		return func(t *kit.T) {
			t.Op(1)
			sch, err := detect.TabularSchemaFromTabularData(v)
			if !errors.Is(err, detect.ErrInvalidTabularData) || sch != nil {
				t.Failf("%v: %v, error %v", v, sch, err)
			}
			t.Trace()
		}
	})
}
