// C22: validation reports exactly the invalid entries.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C22", Level: "model_checking",
		Rule:   "every body over the entry alphabet under every schema of the family is validated on the real code, through every format that can hold it, and the set of entries named by the reported paths compared with the set a direct evaluation of the schema gives; long bodies put every pattern of invalid entries around every batch boundary; every table of row lengths is checked for length",
		Bounds: "14 entry schemas by bodies of up to 3 (thorough 4) of 14 values, array and object; column schemas by tables of up to 3 rows; bodies of 4999..15001 entries with up to 3 invalid entries at positions around 0, 5000, 10000 and the end; row lengths 1..3 for up to 5 rows",
		Body:   run})
}

// a schema of an entry with its direct evaluation
type rule struct {
	sch string
	ok  func(v interface{}) bool
}

func typ(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case int:
		return "integer"
	case float64:
		if x == float64(int64(x)) {
			return "integer"
		}
		return "number"
	case []interface{}:
		return "array"
	}
	return "object"
}

func num(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func is(names ...string) func(v interface{}) bool {
	return func(v interface{}) bool {
		for _, n := range names {
			if t := typ(v); t == n || n == "number" && t == "integer" {
				return true
			}
		}
		return false
	}
}

var rules = []rule{
	{`true`, func(v interface{}) bool { return true }},
	{`false`, func(v interface{}) bool { return false }},
	{`{}`, func(v interface{}) bool { return true }},
	{`{"type":"string"}`, is("string")},
	{`{"type":"integer"}`, is("integer")},
	{`{"type":"number"}`, is("number")},
	{`{"type":"boolean"}`, is("boolean")},
	{`{"type":"null"}`, is("null")},
	{`{"type":["string","null"]}`, is("string", "null")},
	{`{"type":"array"}`, is("array")},
	{`{"minimum":2}`, func(v interface{}) bool { n, ok := num(v); return !ok || n >= 2 }},
	{`{"maxLength":1}`, func(v interface{}) bool { s, ok := v.(string); return !ok || len(s) <= 1 }},
	{`{"enum":["a",null,2]}`, func(v interface{}) bool { return v == "a" || v == nil || body.Eq(v, 2) }},
	{`{"type":"object","required":["k"],"properties":{"k":{"type":"string"}}}`, func(v interface{}) bool {
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		k, has := m["k"]
		_, str := k.(string)
		return has && str
	}},
	{`{"type":"array","items":{"type":"integer"}}`, func(v interface{}) bool {
		a, ok := v.([]interface{})
		for _, e := range a {
			ok = ok && is("integer")(e)
		}
		return ok
	}},
}

var values = []interface{}{nil, true, "", "a", "ab", 0, 2, -1, 2.5, []interface{}{}, []interface{}{1, 2}, []interface{}{1, "x"}, map[string]interface{}{}, map[string]interface{}{"k": "v"}, map[string]interface{}{"k": 1}}

func parse(s string) (m map[string]interface{}) {
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		panic(s)
	}
	return
}

// named gives the entries the errors name
func named(t *kit.T, st *dataset.Structure, data []byte) (map[string]bool, []string) {
	t.Op(1)
	rd, err := dsio.NewEntryReader(st, bytes.NewReader(data))
	if err != nil {
		t.Failf("body %s: %v", clip(data), err)
	}
	errs, err := validate.EntryReader(rd)
	if err != nil {
		t.Failf("body %s of schema %s: %v", clip(data), body.Show(st.Schema), err)
	}
	got := map[string]bool{}
	var paths []string
	for _, e := range errs {
		paths = append(paths, e.PropertyPath)
		parts := strings.Split(e.PropertyPath, "/")
		if len(parts) < 2 || parts[0] != "" {
			t.Failf("body %s: error with path %q", clip(data), e.PropertyPath)
		}
		got[strings.ReplaceAll(strings.ReplaceAll(parts[1], "~1", "/"), "~0", "~")] = true
	}
	return got, paths
}

func clip(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%d bytes %s…", len(b), b[:80])
	}
	return string(b)
}

func keys(m map[string]bool) string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > 12 {
		return fmt.Sprintf("%d entries, %q …", len(l), l[:12])
	}
	return fmt.Sprintf("%q", l)
}

func same(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func encode(t *kit.T, st *dataset.Structure, es []dsio.Entry) []byte {
	var buf bytes.Buffer
	if err := body.WriteBody(st, &buf, es); err != nil {
		t.Failf("writing %s: %v", body.ShowEntries(es), err)
	}
	return buf.Bytes()
}

func compare(t *kit.T, st *dataset.Structure, data []byte, want map[string]bool) {
	before := body.Show(st.Schema)
	got, paths := named(t, st, data)
	if !same(got, want) {
		if len(paths) > 12 {
			paths = paths[:12]
		}
		t.Failf("%s body %s of schema %s: errors at %q, the invalid entries are %s", st.Format, clip(data), before, paths, keys(want))
	}
	if body.Show(st.Schema) != before {
		t.Failf("validation changed the schema %s to %s", before, body.Show(st.Schema))
	}
}

func run(r *kit.Run) {
	max := r.T0(3, 4)
	r.Explore("arrays", func(c *kit.C) func(t *kit.T) {
		ru := kit.Pick(c, rules)
		n := c.Range(0, max)
		var es []dsio.Entry
		want := map[string]bool{}
		for i := 0; i < n; i++ {
			v := kit.Pick(c, values)
			es = append(es, dsio.Entry{Index: i, Value: v})
			if !ru.ok(v) {
				want[strconv.Itoa(i)] = true
			}
		}
		f := "json"
		if n <= 2 {
			f = kit.Pick(c, []string{"json", "ndjson", "cbor"})
		}
		return func(t *kit.T) {
			st := &dataset.Structure{Format: f, Schema: parse(`{"type":"array","items":` + ru.sch + `}`)}
			compare(t, st, encode(t, st, body.CloneEntries(es)), want)
			t.Trace()
		}
	})
	obKeys := []string{"a", "b/c", "d~", "0", "é", ""}
	r.Explore("objects", func(c *kit.C) func(t *kit.T) {
		ru, rest := kit.Pick(c, rules), kit.Pick(c, rules[:6])
		n := c.Range(0, 2)
		var es []dsio.Entry
		want := map[string]bool{}
		for i := 0; i < n; i++ {
			k := obKeys[(c.Choose(len(obKeys) - 1))]
			if i > 0 && k == es[0].Key {
				return nil
			}
			vs := values
			if i > 0 && !r.Thorough {
				vs = []interface{}{values[0], values[3], values[7], values[13]}
			}
			v := kit.Pick(c, vs)
			es = append(es, dsio.Entry{Key: k, Value: v})
			ok := rest.ok(v)
			if k == "a" || k == "b/c" {
				ok = ru.ok(v)
			}
			if !ok {
				want[k] = true
			}
		}
		return func(t *kit.T) {
			st := &dataset.Structure{Format: "json", Schema: parse(`{"type":"object","properties":{"a":` + ru.sch + `,"b/c":` + ru.sch + `},"additionalProperties":` + rest.sch + `}`)}
			data := encode(t, st, body.CloneEntries(es))
			if rest.sch == "false" {
				// the schema library names only one of the keys that are not allowed
				got, _ := named(t, st, data)
				for k := range got {
					if !want[k] {
						t.Failf("object body %s: error at %q", data, k)
					}
				}
				if (len(got) > 0) != (len(want) > 0) {
					t.Failf("object body %s: errors at %s, the invalid entries are %s", data, keys(got), keys(want))
				}
			} else {
				compare(t, st, data, want)
			}
			t.Trace()
		}
	})
	// whole-body rules of short bodies
	r.Explore("whole body", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, 4)
		k := c.Choose(5)
		lim := c.Range(0, 4)
		return func(t *kit.T) {
			kw := []string{`"minItems":%d`, `"maxItems":%d`, `"minProperties":%d`, `"maxProperties":%d`, `"required":["k%d"]`}[k]
			bad := []bool{n < lim, n > lim, n < lim, n > lim, lim >= n}[k]
			top := "array"
			if k > 1 {
				top = "object"
			}
			var es []dsio.Entry
			for i := 0; i < n; i++ {
				es = append(es, dsio.Entry{Index: i, Key: fmt.Sprintf("k%d", i), Value: i})
				if k < 2 {
					es[i].Key = ""
				}
			}
			st := &dataset.Structure{Format: "json", Schema: parse(fmt.Sprintf(`{"type":%q,`+kw+`}`, top, lim))}
			want := map[string]bool{}
			if bad {
				want[""] = true
			}
			compare(t, st, encode(t, st, es), want)
			t.Trace()
		}
	})
	// tables
	cols := []struct {
		typ, extra string
		cells      []interface{}
		bad        []bool
	}{
		{"string", "", []interface{}{"a", "", "5"}, []bool{false, false, false}},
		{"integer", "", []interface{}{5, "x", "1.5"}, []bool{false, true, true}},
		{"number", `,"maximum":3`, []interface{}{1.5, 7, "x"}, []bool{false, true, true}},
		{"boolean", "", []interface{}{true, "yes", "2"}, []bool{false, true, true}},
	}
	r.Explore("tables", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, cols), kit.Pick(c, cols)
		f := kit.Pick(c, []string{"csv", "json", "csv+header"})
		n := c.Range(0, r.T0(2, 3))
		var es []dsio.Entry
		want := map[string]bool{}
		for i := 0; i < n; i++ {
			x, y := c.Choose(3), c.Choose(3)
			es = append(es, dsio.Entry{Index: i, Value: []interface{}{a.cells[x], b.cells[y]}})
			if a.bad[x] || b.bad[y] {
				want[strconv.Itoa(i)] = true
			}
		}
		return func(t *kit.T) {
			st := &dataset.Structure{Format: strings.TrimSuffix(f, "+header"), Schema: parse(fmt.Sprintf(`{"type":"array","items":{"type":"array","items":[{"title":"x","type":%q%s},{"title":"y","type":%q%s}]}}`, a.typ, a.extra, b.typ, b.extra))}
			if f == "csv+header" {
				st.FormatConfig = map[string]interface{}{"headerRow": true}
			}
			compare(t, st, encode(t, st, body.CloneEntries(es)), want)
			t.Trace()
		}
	})
	// long bodies
	lens := []int{4999, 5000, 5001, 10000, 10001}
	if r.Thorough {
		lens = append(lens, 2, 5002, 9999, 10002, 15000, 15001, 20001)
	}
	spots := func(n int) (l []int) {
		for _, b := range []int{0, 1, 4998, 4999, 5000, 5001, 9998, 9999, 10000, 10001, 15000, n - 2, n - 1} {
			if b >= 0 && b < n {
				dup := false
				for _, x := range l {
					dup = dup || x == b
				}
				if !dup {
					l = append(l, b)
				}
			}
		}
		return
	}
	r.Explore("long bodies", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, lens)
		sp := spots(n)
		kind := c.Choose(4) // 3: an object whose keys are numbers
		bad := map[int]bool{}
		last := -1
		for k, m := 0, c.Choose(3); k < m; k++ {
			i := c.Choose(len(sp))
			if i <= last {
				return nil
			}
			last = i
			bad[sp[i]] = true
		}
		return func(t *kit.T) {
			var b bytes.Buffer
			want := map[string]bool{}
			st := &dataset.Structure{Format: "json", Schema: parse(`{"type":"array","items":{"type":"string"}}`)}
			open, end := "[", "]"
			if kind == 1 || kind == 3 {
				st.Schema = parse(`{"type":"object","additionalProperties":{"type":"string"}}`)
				open, end = "{", "}"
			}
			if kind == 2 {
				st = &dataset.Structure{Format: "csv", Schema: body.Table("string", "integer")}
				open, end = "", ""
			}
			b.WriteString(open)
			for i := 0; i < n; i++ {
				if i > 0 && kind != 2 {
					b.WriteByte(',')
				}
				v := `"x"`
				if bad[i] {
					v = "1"
				}
				switch kind {
				case 0:
					b.WriteString(v)
				case 1:
					fmt.Fprintf(&b, `"k%d":%s`, i, v)
				case 3:
					fmt.Fprintf(&b, `"%d":%s`, i, v)
				default:
					cell := "7"
					if bad[i] {
						cell = "oops"
					}
					b.WriteString("a," + cell + "\n")
				}
				if bad[i] {
					k := strconv.Itoa(i)
					if kind == 1 {
						k = "k" + k
					}
					want[k] = true
				}
			}
			b.WriteString(end)
			compare(t, st, b.Bytes(), want)
			t.Trace()
		}
	})
	// keywords about the body as a whole, of bodies longer than a batch
	r.Explore("whole body, long", func(c *kit.C) func(t *kit.T) {
		k := c.Choose(3)
		n := kit.Pick(c, []int{5000, 5001, 10001})
		return func(t *kit.T) {
			sch := []string{`{"type":"array","minItems":5000}`, `{"type":"array","items":[{"type":"string"},{"type":"integer"}],"additionalItems":{"type":"integer"}}`, `{"type":"object","required":["k0"]}`}[k]
			var b bytes.Buffer
			b.WriteString([]string{"[", "[", "{"}[k])
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				switch {
				case k == 2:
					fmt.Fprintf(&b, `"k%d":1`, i)
				case k == 1 && i == 0:
					b.WriteString(`"s"`)
				default:
					b.WriteString("1")
				}
			}
			b.WriteString([]string{"]", "]", "}"}[k])
			got, _ := named(t, &dataset.Structure{Format: "json", Schema: parse(sch)}, b.Bytes())
			if len(got) > 0 {
				if n > 5000 {
					t.FailKey("whole-body-batches", "valid body of %d entries under schema %s: errors at %s", n, sch, keys(got))
				}
				t.Failf("valid body of %d entries under schema %s: errors at %s", n, sch, keys(got))
			}
			t.Trace()
		}
	})

	// keywords that hold what they should not. jsonschema parses these schemas
	// and panics when it gets to use the keyword
	junk := []string{`"x"`, `3`, `-1`, `1.5`, `[]`, `{}`, `true`, `null`, `["x"]`, `[3]`, `{"k":3}`, `{"k":"x"}`, `"("`, `{"(":{}}`}
	words := []string{"type", "enum", "const", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "format",
		"minItems", "maxItems", "uniqueItems", "contains", "items", "additionalItems", "required", "properties", "patternProperties", "additionalProperties", "propertyNames",
		"minProperties", "maxProperties", "dependencies", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "title", "default", "examples"}
	r.Explore("invalid schemas", func(c *kit.C) func(t *kit.T) {
		w, j := kit.Pick(c, words), kit.Pick(c, junk)
		place := c.Choose(3)
		docs := []string{`[]`, `[1,"ab",[1,2],{"k":1},null]`}
		sch := `{"type":"array",` + fmt.Sprintf("%q:%s", w, j) + `}`
		switch place {
		case 1:
			sch = `{"type":"array","items":{` + fmt.Sprintf("%q:%s", w, j) + `}}`
		case 2:
			sch = `{"type":"object","additionalProperties":{` + fmt.Sprintf("%q:%s", w, j) + `}}`
			docs = []string{`{}`, `{"a":1,"b":"ab","c":[1,2],"d":{"k":1},"e":null}`}
		}
		if place == 0 && w == "type" {
			return nil
		}
		doc := kit.Pick(c, docs)
		return func(t *kit.T) {
			t.Op(2)
			st := &dataset.Structure{Format: "json", Schema: parse(sch)}
			jsch, err := st.JSONSchema()
			if err != nil {
				t.Trace()
				return // C30
			}
			var v interface{}
			json.Unmarshal([]byte(doc), &v)
			want := map[string]bool{}
			broken := func() (broken bool) {
				defer func() { broken = recover() != nil }()
				for _, e := range *jsch.Validate(context.Background(), v).Errs {
					want[e.PropertyPath] = true
				}
				return
			}()
			rd, err := dsio.NewEntryReader(st, strings.NewReader(doc))
			if err != nil {
				t.Failf("body %s of schema %s: %v", doc, sch, err)
			}
			errs, err := validate.EntryReader(rd)
			if broken != (err != nil) {
				t.Failf("body %s of schema %s: the schema can't be applied: %v, validating gives errors %v and %v", doc, sch, broken, errs, err)
			}
			got := map[string]bool{}
			for _, e := range errs {
				got[e.PropertyPath] = true
			}
			if !broken && !same(got, want) {
				t.Failf("body %s of schema %s: errors at %s, want %s", doc, sch, keys(got), keys(want))
			}
			t.Trace()
			t.State(sch, broken, len(errs) > 0)
		}
	})

	// CSV row lengths
	cells := []string{"a", `"b,c"`, `"d` + "\n" + `e"`, "", `" f"`}
	r.Explore("row lengths", func(c *kit.C) func(t *kit.T) {
		n := c.Range(1, r.T0(4, 5))
		var rows []string
		bad := false
		first := 0
		for i := 0; i < n; i++ {
			w := c.Range(1, 3)
			var row []string
			for j := 0; j < w; j++ {
				cell := cells[(i+2*j)%len(cells)]
				if i < 2 && j == 0 {
					cell = kit.Pick(c, cells)
				}
				if w == 1 && cell == "" {
					cell = `""`
				}
				row = append(row, cell)
			}
			if i == 0 {
				first = w
			}
			bad = bad || w != first
			rows = append(rows, strings.Join(row, ","))
		}
		end := kit.Pick(c, []string{"\n", "\r\n"})
		nl := c.Bool()
		chunk := kit.Pick(c, []int{0, 1})
		return func(t *kit.T) {
			t.Op(1)
			s := strings.Join(rows, end)
			if nl {
				s += end
			}
			err := validate.CheckCsvRowLengths(body.NewSource([]byte(s), chunk, false))
			if bad != (err != nil) {
				t.Failf("CSV %q: row lengths differ %v, error %v", s, bad, err)
			}
			src := body.NewSource([]byte(s), chunk, false)
			src.Fail = len(s) / 2
			if err := validate.CheckCsvRowLengths(src); err == nil {
				t.Failf("CSV %q failing after %d bytes is accepted", s, src.Fail)
			}
			t.Trace()
		}
	})
	r.Explore("row lengths, long", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{1000, 5000, 5001, 20000})
		at := kit.Pick(c, []int{-1, 1, 999, 4999, 5000, 19999})
		w := kit.Pick(c, []int{1, 3})
		if at >= n {
			return nil
		}
		return func(t *kit.T) {
			t.Op(1)
			var b strings.Builder
			for i := 0; i < n; i++ {
				if i == at {
					b.WriteString(strings.Repeat("y,", w-1) + "y\n")
				} else {
					b.WriteString("a,b\n")
				}
			}
			err := validate.CheckCsvRowLengths(strings.NewReader(b.String()))
			if (at >= 0) != (err != nil) {
				t.Failf("CSV of %d rows, row %d of length %d among rows of 2: error %v", n, at, w, err)
			}
			t.Trace()
		}
	})
}
