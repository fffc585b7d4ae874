// C30: tabular column definitions are extracted faithfully from schemas.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/qri-io/dataset/tabular"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C30", Level: "model_checking",
		Rule:   "every schema shape (kinds of value at the top level type, items and items.items) and every column definition over choices of title, type, description and further keywords is extracted and compared with a direct reading of the schema; every column list round trips through JSON; every title list is judged by the rule",
		Bounds: "8 top level types by 8 items by 8 items.items; one column over 5 titles by 11 types by 5 descriptions by 4 sets of keywords, up to 3 columns; titles of up to 3 characters over 9 symbols, pairs and triples of titles; 0..300 columns",
		Body:   run})
}

func clone(m map[string]interface{}) map[string]interface{} {
	return body.Clone(m).(map[string]interface{})
}

type want struct {
	title  string
	types  []string
	desc   string
	val    map[string]interface{}
	issues int
}

func expect(i int, v interface{}) want {
	w := want{title: fmt.Sprintf("col_%d", i), types: []string{"string"}}
	m, ok := v.(map[string]interface{})
	if !ok {
		w.issues = 1
		return w
	}
	if s, ok := m["title"].(string); ok {
		w.title = s
	} else {
		w.issues++
	}
	ty, has := m["type"]
	switch x := ty.(type) {
	case string:
		w.types = []string{x}
	case []interface{}:
		var l []string
		for _, e := range x {
			if s, ok := e.(string); ok {
				l = append(l, s)
			}
		}
		if l != nil {
			w.types = l
		} else {
			has = false
		}
	}
	if !has {
		w.issues++
	}
	if s, ok := m["description"].(string); ok {
		w.desc = s
	}
	for k, v := range m {
		if k != "title" && k != "type" && k != "description" {
			if w.val == nil {
				w.val = map[string]interface{}{}
			}
			w.val[k] = v
		}
	}
	return w
}

func checkCols(t *kit.T, sch map[string]interface{}, items []interface{}) {
	before := body.Show(sch)
	cols, problems, err := tabular.ColumnsFromJSONSchema(sch)
	t.Op(1)
	if err != nil {
		t.Failf("schema %s: %v", before, err)
		return
	}
	if after := body.Show(sch); after != before {
		t.Failf("extraction changed the schema from %s to %s", before, after)
		return
	}
	if len(cols) != len(items) {
		t.Failf("schema %s gives %d columns", before, len(cols))
		return
	}
	issues := 0
	for i, it := range items {
		w := expect(i, it)
		issues += w.issues
		c := cols[i]
		if c.Title != w.title || c.Type == nil || !reflect.DeepEqual([]string(*c.Type), w.types) || c.Description != w.desc || !reflect.DeepEqual(c.Validation, w.val) {
			t.Failf("column %d of %s is %+v of type %v, not %+v", i, before, c, c.Type, w)
			return
		}
		for _, ty := range []string{"string", "integer", "", "null", "object"} {
			has := false
			for _, x := range w.types {
				has = has || x == ty
			}
			if c.Type.HasType(ty) != has {
				t.Failf("column of types %v has type %q: %v", w.types, ty, !has)
				return
			}
		}
		if cols.Titles()[i] != w.title {
			t.Failf("titles %q, not %q at %d", cols.Titles(), w.title, i)
			return
		}
	}
	if len(cols.Titles()) != len(items) {
		t.Failf("%d titles of %d columns", len(cols.Titles()), len(items))
	}
	if issues != len(problems) {
		t.Failf("schema %s has %d problems, reported %q", before, issues, problems)
		return
	}
	data, err := json.Marshal(cols)
	if err != nil {
		t.Failf("columns of %s cannot be encoded: %v", before, err)
		return
	}
	var back tabular.Columns
	if err := json.Unmarshal(data, &back); err != nil {
		t.Failf("columns %s cannot be decoded: %v", data, err)
		return
	}
	again, err := json.Marshal(back)
	if err != nil || string(again) != string(data) || len(back) != len(cols) {
		t.Failf("columns %s decoded and encoded give %s, error %v", data, again, err)
		return
	}
	for i := range cols {
		if back[i].Title != cols[i].Title || !reflect.DeepEqual(*back[i].Type, *cols[i].Type) || back[i].Description != cols[i].Description || !body.Eq(map2(back[i].Validation), map2(cols[i].Validation)) {
			t.Failf("column %d of %s decoded is %+v of type %v", i, data, back[i], *back[i].Type)
			return
		}
	}
	t.Trace()
	t.State(string(data))
}

func map2(m map[string]interface{}) interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return m
}

func table(items []interface{}) map[string]interface{} {
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
}

var absent = struct{}{}

var titles = []interface{}{absent, "a", "", "col_0", 5.0}
var types = []interface{}{absent, "string", "integer", "", []interface{}{"integer"}, []interface{}{"number", "null"}, []interface{}{}, []interface{}{1.0, "x"}, []interface{}{nil}, 7.0, nil}
var descs = []interface{}{absent, "d", false, "a", ""}
var extras = []map[string]interface{}{nil, {"min": 0.0, "max": 5.0}, {"enum": []interface{}{"a", nil}}, {"Title": "x", "items": map[string]interface{}{"type": "array"}}, {"properties": map[string]interface{}{}, "enum": []interface{}{}, "default": nil, "format": "", "minimum": 0.0, "readOnly": false}}

func column(c *kit.C) interface{} {
	k := c.Choose(3)
	if k == 1 {
		return kit.Pick(c, []interface{}{false, "s", nil, []interface{}{}, 3.0})
	}
	m := map[string]interface{}{}
	if k == 2 {
		return m
	}
	if v := kit.Pick(c, titles); v != absent {
		m["title"] = v
	}
	if v := types[c.Choose(len(types))]; !reflect.DeepEqual(v, absent) {
		m["type"] = v
	}
	if v := kit.Pick(c, descs); v != absent {
		m["description"] = v
	}
	for k, v := range kit.Pick(c, extras) {
		m[k] = v
	}
	return m
}

func run(r *kit.Run) {
	r.Explore("schema shapes", func(c *kit.C) func(*kit.T) {
		tops := []interface{}{absent, "array", "object", "string", "", nil, 3.0, []interface{}{"array"}, "Array"}
		items := []interface{}{absent, nil, "x", []interface{}{}, false, map[string]interface{}{}, map[string]interface{}{"type": "array"}, map[string]interface{}{"type": "object"}, map[string]interface{}{"type": "string"}}
		inner := []interface{}{absent, nil, "x", map[string]interface{}{}, false, []interface{}{}, []interface{}{map[string]interface{}{"title": "a", "type": "string"}}, []interface{}{false, nil}}
		top, it, in := tops[c.Choose(len(tops))], items[c.Choose(len(items))], inner[c.Choose(len(inner))]
		return func(t *kit.T) {
			sch := map[string]interface{}{"title": "irrelevant"}
			isAbsent := func(v interface{}) bool { return v != nil && reflect.TypeOf(v) == reflect.TypeOf(absent) }
			if !isAbsent(top) {
				sch["type"] = top
			}
			ok := top == "array"
			if !isAbsent(it) {
				if m, isMap := it.(map[string]interface{}); isMap {
					m = clone(m)
					if !isAbsent(in) {
						m["items"] = in
					}
					sch["items"] = m
					_, isArr := in.([]interface{})
					ok = ok && isArr
				} else {
					sch["items"] = it
					ok = false
				}
			} else {
				ok = false
			}
			if ok {
				checkCols(t, sch, in.([]interface{}))
				return
			}
			cols, _, err := tabular.ColumnsFromJSONSchema(sch)
			t.Op(1)
			if err == nil || cols != nil {
				t.Failf("schema %s is not one of a table, extraction gives %v, error %v", body.Show(sch), cols, err)
				return
			}
			if top != "object" && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
				t.Failf("schema %s: error %v is not the error of schemas without a table", body.Show(sch), err)
			}
			t.Trace()
			t.State(body.Show(sch))
		}
	})
	r.Case("nil schema", func(t *kit.T) {
		if cols, _, err := tabular.ColumnsFromJSONSchema(nil); err == nil {
			t.Failf("no schema gives columns %v", cols)
		}
		if cols, _, err := tabular.ColumnsFromJSONSchema(tabular.BaseTabularSchema); err != nil || len(cols) != 0 {
			t.Failf("the base schema gives columns %v, error %v", cols, err)
		}
		t.Op(2)
	})
	r.Explore("one column", func(c *kit.C) func(*kit.T) {
		items := []interface{}{column(c)}
		pad := c.Range(0, 2)
		return func(t *kit.T) {
			for i := 0; i < pad; i++ {
				items = append([]interface{}{map[string]interface{}{"title": "p", "type": "null"}}, items...)
			}
			checkCols(t, table(items), items)
		}
	})
	r.Explore("two columns", func(c *kit.C) func(*kit.T) {
		mk := func() interface{} {
			m := map[string]interface{}{}
			if v := kit.Pick(c, titles); v != absent {
				m["title"] = v
			}
			if v := types[c.Choose(len(types))]; !reflect.DeepEqual(v, absent) {
				m["type"] = v
			}
			for k, v := range kit.Pick(c, extras[:2]) {
				m[k] = v
			}
			return m
		}
		items := []interface{}{mk(), mk()}
		return func(t *kit.T) { checkCols(t, table(items), items) }
	})
	r.Explore("many columns", func(c *kit.C) func(*kit.T) {
		n := c.Range(0, 300)
		return func(t *kit.T) {
			items := make([]interface{}, n)
			for i := range items {
				switch i % 3 {
				case 0:
					items[i] = map[string]interface{}{"title": fmt.Sprint("t", i), "type": "integer", "position": float64(i)}
				case 1:
					items[i] = map[string]interface{}{"type": []interface{}{"string", "null"}}
				case 2:
					items[i] = true
				}
			}
			checkCols(t, table(items), items)
		}
	})
	r.Explore("lists of column types", func(c *kit.C) func(*kit.T) {
		list := make([]interface{}, c.Range(0, r.T0(4, 5)))
		for i := range list {
			list[i] = kit.Pick(c, []interface{}{"null", "string", "integer", "number", "", "x", 1.0, nil})
		}
		title := c.Bool()
		return func(t *kit.T) {
			m := map[string]interface{}{"type": list}
			if title {
				m["title"] = "t"
			}
			items := []interface{}{m, map[string]interface{}{"title": "u", "type": "integer"}}
			checkCols(t, map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}, items)
			t.Trace()
		}
	})
	r.Explore("encoding of column types", func(c *kit.C) func(*kit.T) {
		n := c.Range(0, 3)
		ct := tabular.ColType{}
		for i := 0; i < n; i++ {
			ct = append(ct, kit.Pick(c, []string{"string", "", "a\"b", "null"}))
		}
		return func(t *kit.T) {
			data, err := json.Marshal(ct)
			t.Op(2)
			if err != nil {
				t.Failf("column type %q cannot be encoded: %v", ct, err)
				return
			}
			if isStr := strings.HasPrefix(string(data), `"`); isStr != (n == 1) {
				t.Failf("column type %q is encoded as %s", ct, data)
			}
			var back tabular.ColType
			if err := json.Unmarshal(data, &back); err != nil || len(back) != n || n > 0 && !reflect.DeepEqual(back, ct) {
				t.Failf("column type %q encoded as %s decodes to %q, error %v", ct, data, back, err)
			}
			t.Trace()
			t.State(string(data))
		}
	})
	r.Explore("decoding of column types", func(c *kit.C) func(*kit.T) {
		doc := kit.Pick(c, []string{`1`, `true`, `{}`, `["a",1]`, `{"a":"b"}`, `[["a"]]`})
		return func(t *kit.T) {
			var ct tabular.ColType
			if err := json.Unmarshal([]byte(doc), &ct); err == nil {
				t.Failf("%s decodes to column type %q", doc, ct)
			}
			t.Op(1)
			t.State(doc)
		}
	})
	valid := regexp.MustCompile(`\A[a-zA-Z_$][a-zA-Z_$0-9]*\z`)
	judge := func(t *kit.T, ts []string) {
		cols := make(tabular.Columns, len(ts))
		seen := map[string]bool{}
		ok := true
		for i, s := range ts {
			cols[i].Title = s
			if !valid.MatchString(s) || seen[s] {
				ok = false
			}
			seen[s] = true
		}
		err := cols.ValidMachineTitles()
		t.Op(1)
		if (err == nil) != ok {
			t.Failf("titles %q: error %v", ts, err)
			return
		}
		if err != nil && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
			t.Failf("titles %q: error %v is of another kind", ts, err)
		}
		t.Trace()
		t.State(fmt.Sprintf("%q", ts))
	}
	syms := []string{"a", "Z", "_", "$", "0", "-", " ", "é", "\n", "["}
	r.Explore("titles", func(c *kit.C) func(*kit.T) {
		s := ""
		for n := c.Range(0, r.T0(4, 5)); n > 0; n-- {
			s += kit.Pick(c, syms)
		}
		return func(t *kit.T) { judge(t, []string{s}) }
	})
	r.Explore("lists of titles", func(c *kit.C) func(*kit.T) {
		ts := make([]string, c.Range(0, 4))
		for i := range ts {
			ts[i] = kit.Pick(c, []string{"a", "A", "b", "_", "", "1a", "a b"})
		}
		return func(t *kit.T) { judge(t, ts) }
	})
	r.Explore("long lists of titles", func(c *kit.C) func(*kit.T) {
		n := c.Range(2, 60)
		dup := c.Range(0, n-1)
		return func(t *kit.T) {
			ts := make([]string, n)
			for i := range ts {
				ts[i] = fmt.Sprint("t", i)
			}
			judge(t, ts)
			if dup > 0 {
				ts[n-1] = ts[n-1-dup]
				judge(t, ts)
			}
		}
	})
}
