// C12: XLSX bodies survive writing and reading.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/360EntSecGroup-Skylar/excelize"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C12", Level: "model_checking",
		Rule:   "every table over the cell and shape alphabets under every sheet name, written through an XLSX writer and read back with the same structure, the sheet also opened directly and compared cell by cell by its address; every column index against a successor function on labels",
		Bounds: "1..3 rows of 1..3 cells, every pair of a column type and a value, texts of up to 2 characters (3 thorough) of an 11 character alphabet; up to 800 (16384 thorough) columns and 3000 rows; column labels 0..16383, the whole range of a spreadsheet",
		Assume: []string{"the excelize library writes and parses spreadsheets correctly"},
		Body:   run})
}

func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func want(v interface{}, typ string) interface{} {
	s := text(v)
	switch typ {
	case "null":
		if s == "" || s == "null" {
			return nil
		}
	case "integer":
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	case "number":
		if n, err := strconv.ParseFloat(s, 64); err == nil {
			return n
		}
	case "boolean":
		if b, err := strconv.ParseBool(s); err == nil {
			return b
		}
	case "array", "object":
		if x, ok := body.JSON(s); ok {
			if _, ok := x.([]interface{}); ok && typ == "array" {
				return x
			}
			if _, ok := x.(map[string]interface{}); ok && typ == "object" {
				return x
			}
		}
	}
	return s
}

// label is the successor function of column labels, independent of the code under test.
func next(l string) string {
	b := []byte(l)
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] < 'Z' {
			b[i]++
			return string(b)
		}
		b[i] = 'A'
	}
	return "A" + string(b)
}

var labels = func() []string {
	out := []string{"A"}
	for len(out) < 16384 {
		out = append(out, next(out[len(out)-1]))
	}
	return out
}()

func check(t *kit.T, sheet string, types []string, rows [][]interface{}) {
	var cfg map[string]interface{}
	if sheet != "" {
		cfg = map[string]interface{}{"sheetName": sheet}
	}
	st := body.St("xlsx", "", body.Table(types...), cfg)
	es := make([]dsio.Entry, len(rows))
	for i := range rows {
		es[i] = dsio.Entry{Index: i, Value: body.Clone(rows[i])}
	}
	ctx := func() string {
		s := fmt.Sprintf("sheet %q types %v rows %s", sheet, types, body.ShowEntries(es))
		if len(s) > 700 {
			s = s[:700] + "…"
		}
		return s
	}
	buf := &bytes.Buffer{}
	if err := body.WriteBody(st, buf, es); err != nil {
		t.Failf("%s: writing: %v", ctx(), err)
	}
	raw := append([]byte{}, buf.Bytes()...)
	got, err := body.ReadBody(st, buf, len(rows)+3)
	t.Op(2*len(rows) + 2)
	t.Trace()
	if err != nil {
		t.Failf("%s: reading back after %d rows: %v", ctx(), len(got), err)
	}
	if len(got) != len(rows) {
		t.Failf("%s: wrote %d rows and read %d", ctx(), len(rows), len(got))
	}
	for i, e := range got {
		if e.Index != i {
			t.Failf("%s: row %d has index %d", ctx(), i, e.Index)
		}
		row, ok := e.Value.([]interface{})
		if !ok || len(row) != len(rows[i]) {
			t.Failf("%s: row %d came back as %s", ctx(), i, body.Show(e.Value))
		}
		for j := range row {
			typ := "string"
			if len(row) <= len(types) {
				typ = types[j]
			}
			w := want(rows[i][j], typ)
			if !body.Eq(w, row[j]) || fmt.Sprintf("%T", w) != fmt.Sprintf("%T", row[j]) {
				t.Failf("%s: row %d cell %d came back as %s, want %s", ctx(), i, j, body.Show(row[j]), body.Show(w))
			}
		}
	}
	// the spreadsheet itself, by address
	f, err := excelize.OpenReader(bytes.NewReader(raw))
	if err != nil {
		t.Failf("%s: not a spreadsheet: %v", ctx(), err)
	}
	name := sheet
	if name == "" {
		name = "Sheet1"
	}
	step := 1
	if len(rows)*len(rows[0:min(1, len(rows))]) > 200 {
		step = len(rows) / 50
	}
	for i := 0; i < len(rows); i += step {
		for j, v := range rows[i] {
			if len(rows[i]) > 200 && j%97 != 0 && j < len(rows[i])-2 && j != 675 && j != 676 && j != 701 && j != 702 {
				continue
			}
			if g := f.GetCellValue(name, labels[j]+strconv.Itoa(i+1)); g != text(v) {
				t.Failf("%s: cell %s%d holds %q, want %q", ctx(), labels[j], i+1, g, text(v))
			}
		}
	}
	t.State(sheet, rows)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var values = []interface{}{
	nil, true, false, int64(0), int64(-7), int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<53 + 1, 12,
	0.5, -2.25, 3.0, 1e300, 5e-324, 0.1, 1e21,
	"", "a", "12", "1.5", "true", "t", "1", "[1]", "{}", "[1,", "=1+1", "00", "é😀", " lead", "trail ", "a\nb", "<&>\"'",
	[]interface{}{"z", 7.5}, map[string]interface{}{"m": true}, []interface{}{int64(math.MinInt64), []interface{}{int64(1)<<53 + 1}}, map[string]interface{}{"n": int64(math.MaxInt64)}, "[9007199254740993,-9007199254740993,9223372036854775808,1e17]",
	[]interface{}{}, []interface{}{1.0, "a,b\"\n", nil, []interface{}{true}}, map[string]interface{}{}, map[string]interface{}{"k,\"": 1.5, "n": nil},
}

var types = []string{"string", "integer", "number", "boolean", "array", "object", "null"}

func run(r *kit.Run) {
	r.Explore("column labels", func(c *kit.C) func(t *kit.T) {
		base := c.Choose(64) * 256
		return func(t *kit.T) {
			for i := base; i < base+256; i++ {
				if g := dsio.ColIndexToLetters(i); g != labels[i] {
					t.Failf("column %d is labelled %q, want %q", i, g, labels[i])
				}
				t.Op(1)
				t.State(labels[i])
			}
			t.Trace()
		}
	})
	r.Explore("typed cells", func(c *kit.C) func(t *kit.T) {
		t1 := kit.Pick(c, types)
		v1 := values[c.Choose(len(values))]
		v2 := v1
		t2 := t1
		if r.Thorough {
			t2 = kit.Pick(c, types)
			v2 = values[c.Choose(len(values))]
		}
		return func(t *kit.T) {
			check(t, "", []string{t1, "string", t2}, [][]interface{}{{v1, "x", v2}, {v2, "y", v1}})
		}
	})
	alpha := []string{"a", "é", " ", "\n", "\t", "\r", "<", "&", "\"", "=", "_x0041_"}
	r.Explore("texts", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(2, 3))
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, alpha)
		}
		return func(t *kit.T) { check(t, "", []string{"string", "string"}, [][]interface{}{{s, "x"}, {"y", s}}) }
	})
	cells := []interface{}{nil, "", "a", int64(3)}
	r.Explore("shapes", func(c *kit.C) func(t *kit.T) {
		// rows of any widths, cells empty or not
		n := c.Range(0, r.T0(2, 3))
		rows := make([][]interface{}, n)
		for i := range rows {
			w := c.Range(1, 3)
			rows[i] = make([]interface{}, w)
			for j := range rows[i] {
				rows[i][j] = cells[c.Choose(len(cells))]
			}
		}
		types := kit.Pick(c, [][]string{{"string", "integer"}, {"integer", "integer", "boolean"}, {"null", "number"}, {"integer"}})
		return func(t *kit.T) { check(t, "", types, rows) }
	})
	r.Explore("sheet names", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, []string{"", "Sheet1", "Sheet2", "Data", "my sheet", "a'b", "é", "x&<>\"y", "sheet1", "SHEET1", " Sheet1", "Sheet1 ", "S", "2020-01-01", "Sheet11"})
		n := c.Range(0, 2)
		return func(t *kit.T) {
			rows := make([][]interface{}, n)
			for i := range rows {
				rows[i] = []interface{}{int64(i), "s"}
			}
			check(t, s, []string{"integer", "string"}, rows)
		}
	})
	widths := []int{25, 26, 27, 28, 51, 52, 53, 78, 79, 255, 256, 257, 675, 676, 677, 678, 701, 702, 703, 704, 728, 729, 730, 800}
	if r.Thorough {
		widths = append(widths, 1378, 1379, 1380, 2000, 5000, 16383, 16384)
	}
	r.Explore("widths", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, widths)
		return func(t *kit.T) {
			tp := make([]string, n)
			row, row2 := make([]interface{}, n), make([]interface{}, n)
			for i := range tp {
				tp[i] = []string{"integer", "string"}[i%2]
				row[i], row2[i] = int64(i), int64(-i)
				if i%2 == 1 {
					row[i], row2[i] = fmt.Sprintf("c%d", i), ""
				}
			}
			check(t, "", tp, [][]interface{}{row, row2, row})
		}
	})
	r.Explore("heights", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{9, 10, 11, 99, 100, 101, 999, 1000, 1001, 3000})
		return func(t *kit.T) {
			rows := make([][]interface{}, n)
			for i := range rows {
				rows[i] = []interface{}{int64(i), fmt.Sprintf("row %d", i), float64(i) / 8, i%3 == 0}
			}
			check(t, "", []string{"integer", "string", "number", "boolean"}, rows)
		}
	})
	r.Explore("long cells are kept or refused", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{255, 256, 4096, 32766, 32767, 32768, 65536})
		unit := kit.Pick(c, []string{"x", "é", "\"<"})
		nested := c.Bool()
		return func(t *kit.T) {
			s := strings.Repeat(unit, n/len(unit)+1)[:n]
			s = strings.ToValidUTF8(s, "")
			var v interface{} = s
			typ := "string"
			if nested {
				v, typ = []interface{}{s}, "array"
			}
			st := body.St("xlsx", "", body.Table(typ), nil)
			buf := &bytes.Buffer{}
			err := body.WriteBody(st, buf, []dsio.Entry{{Value: []interface{}{body.Clone(v)}}})
			t.Op(1)
			t.Trace()
			if err != nil {
				if len(text(v)) <= 32767 {
					t.Failf("a cell of %d bytes is refused: %v", len(text(v)), err)
				}
				return
			}
			got, err := body.ReadBody(st, buf, 2)
			if err != nil || len(got) != 1 || !body.Eq(got[0].Value, []interface{}{v}) {
				t.Failf("a cell of %d bytes (%s) is not read back: %d rows, error %v", len(text(v)), typ, len(got), err)
			}
		}
	})
	r.Explore("entries a sheet cannot hold are refused", func(c *kit.C) func(t *kit.T) {
		v := kit.Pick(c, []interface{}{"s", 1, nil, map[string]interface{}{"a": 1}, []interface{}{complex(1, 1)}, []interface{}{[]interface{}{math.NaN()}}})
		return func(t *kit.T) {
			buf := &bytes.Buffer{}
			st := body.St("xlsx", "", body.Table("string"), nil)
			if err := body.WriteBody(st, buf, []dsio.Entry{{Value: v}}); err == nil {
				t.Failf("writing %#v gave no error", v)
			}
			t.Op(1)
		}
	})
	r.Explore("compression is refused", func(c *kit.C) func(t *kit.T) {
		comp := kit.Pick(c, []string{"gzip", "zst", "gz"})
		return func(t *kit.T) {
			st := body.St("xlsx", comp, body.Table("string"), nil)
			if _, err := dsio.NewEntryWriter(st, &bytes.Buffer{}); err == nil {
				t.Failf("writer with compression %s", comp)
			}
			if _, err := dsio.NewEntryReader(st, bytes.NewReader(nil)); err == nil {
				t.Failf("reader with compression %s", comp)
			}
			t.Op(2)
		}
	})
}
