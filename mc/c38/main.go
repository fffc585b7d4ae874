// C38: setting metadata by name sets exactly that field, or nothing.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C38", Level: "model_checking",
		Rule:   "every sequence of settings by name (every standard name in several spellings, names that are not standard) to values of every JSON kind, right and wrong ones, on an empty meta, a full one and one read from JSON, against a model of the fields; every right setting also against decoding the JSON document that says the same; Decode of users, licenses and citations on every map of field values",
		Bounds: "1 setting over 30 values, 2 settings over 13 values, 3 settings over 8 names and 5 values (thorough: 2 over 30, 3 over 14 names and 9 values)",
		Body:   run})
}

var strFields = map[string]string{
	"qri": "Qri", "accessurl": "AccessURL", "accrualperiodicity": "AccrualPeriodicity", "description": "Description",
	"downloadurl": "DownloadURL", "homeurl": "HomeURL", "identifier": "Identifier", "readmeurl": "ReadmeURL",
	"title": "Title", "version": "Version"}
var listFields = map[string]string{"keywords": "Keywords", "language": "Language", "theme": "Theme"}
var jsonNames = []string{"qri", "accessURL", "accrualPeriodicity", "description", "downloadURL", "homeURL", "identifier",
	"readmeURL", "title", "version", "keywords", "language", "theme", "citations", "contributors", "license"}

var values = []string{
	`"a"`, `null`, `""`, `3`, `["x","y"]`, `[1]`, `{"name":"n","url":"u","email":"e","id":"i","type":"t"}`, `{}`, `[{"name":"n","url":"u","email":"e","id":"i"},{}]`,
	// the ones below only alone, or in thorough runs
	`[{"name":"n"},3]`, `[{"name":"n"},{"name":3}]`, `{"type":"t","url":3}`, `[]`,
	`true`, `1.5`, `[null]`, `["x",null]`, `["x",3]`, `[["x"]]`, `[null,{}]`, `{"type":null,"url":"u"}`, `{"type":3}`, `{"type":"t"}`, `{"url":"u","other":[1]}`,
	`[{"id":3}]`, `[{"email":3}]`, `[{"url":3}]`, `[{"name":null}]`, `"é \n"`, `[[]]`,
}

func parse(s string) (v interface{}) {
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(s)
	}
	return
}

func str(v interface{}) (string, bool) {
	if v == nil {
		return "", true
	}
	s, ok := v.(string)
	return s, ok
}

// model applies a setting to a meta by assigning its fields, and keeps the
// custom keys beside it; false when the value is of the wrong type.
func model(m *dataset.Meta, custom map[string]interface{}, key string, val interface{}) bool {
	name := strings.TrimSpace(strings.ToLower(key))
	if f, ok := strFields[name]; ok {
		s, ok := str(val)
		if ok {
			reflect.ValueOf(m).Elem().FieldByName(f).SetString(s)
		}
		return ok
	}
	if f, ok := listFields[name]; ok {
		var l []string
		if val != nil {
			a, ok := val.([]interface{})
			if !ok {
				return false
			}
			for _, e := range a {
				s, ok := str(e)
				if !ok {
					return false
				}
				l = append(l, s)
			}
		}
		reflect.ValueOf(m).Elem().FieldByName(f).Set(reflect.ValueOf(l))
		return true
	}
	strs := func(v interface{}, names ...string) ([]string, bool) {
		o, ok := v.(map[string]interface{})
		if !ok {
			return nil, false
		}
		var l []string
		for _, n := range names {
			s, ok := str(o[n])
			if !ok {
				return nil, false
			}
			l = append(l, s)
		}
		return l, true
	}
	switch name {
	case "license":
		l, ok := strs(val, "type", "url")
		if ok {
			m.License = &dataset.License{Type: l[0], URL: l[1]}
		}
		return ok
	case "citations":
		a, ok := val.([]interface{})
		cs := []*dataset.Citation{}
		for _, e := range a {
			l, good := strs(e, "name", "url", "email")
			if !good {
				return false
			}
			cs = append(cs, &dataset.Citation{Name: l[0], URL: l[1], Email: l[2]})
		}
		if ok {
			m.Citations = cs
		}
		return ok
	case "contributors":
		a, ok := val.([]interface{})
		us := []*dataset.User{}
		for _, e := range a {
			l, good := strs(e, "id", "name", "email")
			if !good {
				return false
			}
			us = append(us, &dataset.User{ID: l[0], Fullname: l[1], Email: l[2]})
		}
		if ok {
			m.Contributors = us
		}
		return ok
	}
	custom[key] = val
	return true
}

func fields(m *dataset.Meta) string {
	return comp.Dump(*m)
}

func same(t *kit.T, ctx string, got *dataset.Meta, want *dataset.Meta, custom map[string]interface{}) {
	if g, w := fields(got), fields(want); g != w {
		t.Failf("%s: fields are\n%s\nwant\n%s", ctx, g, w)
	}
	if g := got.Meta(); len(g)+len(custom) > 0 && !reflect.DeepEqual(g, custom) {
		t.Failf("%s: custom keys are %v, want %v", ctx, g, custom)
	}
}

func full() *dataset.Meta {
	return &dataset.Meta{AccessURL: "1", AccrualPeriodicity: "2", Description: "3", DownloadURL: "4", HomeURL: "5", Identifier: "6", ReadmeURL: "7", Title: "8", Version: "9", Qri: "md:0", Path: "/p",
		Keywords: []string{"k"}, Language: []string{"l"}, Theme: []string{"t"}, License: &dataset.License{Type: "lt", URL: "lu"},
		Citations: []*dataset.Citation{{Name: "cn"}}, Contributors: []*dataset.User{{ID: "ui"}}}
}

type start struct {
	name   string
	mk     func() *dataset.Meta
	custom string
}

var starts = []start{
	{"an empty meta", func() *dataset.Meta { return &dataset.Meta{} }, `{}`},
	{"a full meta", func() *dataset.Meta {
		m := full()
		m.SetArbitrary("c", "d")
		return m
	}, `{"c":"d"}`},
	{"a meta read from JSON", func() *dataset.Meta {
		m := &dataset.Meta{}
		if err := json.Unmarshal([]byte(`{"title":"old","keywords":["old"],"license":{"type":"old"},"c":1,"e":{"f":[]}}`), m); err != nil {
			panic(err)
		}
		return m
	}, `{"c":1,"e":{"f":[]}}`},
}

var spell = []func(string) string{
	func(s string) string { return s }, strings.ToLower, strings.ToUpper, strings.Title,
	func(s string) string { return "  " + s + "\t\n" },
	func(s string) string { return " " + strings.ToUpper(s) },
}

var others = []string{"c", "custom", "C", "path", "", " ", "Café", "titles", "ti tle", "accrual_periodicity", " c"}

func names(n int) (l []string) {
	for _, k := range jsonNames {
		for _, f := range spell[:n] {
			l = append(l, f(k))
		}
	}
	return append(l, others...)
}

func play(t *kit.T, s start, keys, vals []string) {
	got := s.mk()
	want := s.mk()
	custom := parse(s.custom).(map[string]interface{})
	ctx := s.name
	for i, k := range keys {
		before := got.Meta()
		copied := fmt.Sprint(before)
		v := parse(vals[i])
		err := got.Set(k, v)
		t.Op(1)
		ok := model(want, custom, k, parse(vals[i]))
		ctx += fmt.Sprintf(", %q set to %s", k, vals[i])
		if ok != (err == nil) {
			t.Failf("%s: error is %v, should there be one: %v", ctx, err, !ok)
		}
		if !reflect.DeepEqual(v, parse(vals[i])) {
			t.Failf("%s: changes the value", ctx)
		}
		same(t, ctx, got, want, custom)
		if fmt.Sprint(before) != copied {
			t.Failf("%s: changes a map of custom keys given out before", ctx)
		}
		for k := range before {
			before[k] = "overwritten"
		}
		before["new"] = 1
		same(t, ctx+", a map of custom keys given out before changed by the caller", got, want, custom)
		t.Trace()
		t.State(s.name, k, err != nil, fields(got))
	}
}

func run(r *kit.Run) {
	r.Explore("one setting", func(c *kit.C) func(t *kit.T) {
		s, k, v := kit.Pick(c, starts), kit.Pick(c, names(len(spell))), kit.Pick(c, values)
		return func(t *kit.T) { play(t, s, []string{k}, []string{v}) }
	})
	r.Explore("two settings", func(c *kit.C) func(t *kit.T) {
		vs := values[:13]
		if r.Thorough {
			vs = values
		}
		s := kit.Pick(c, starts)
		k1, v1 := kit.Pick(c, names(1)), kit.Pick(c, vs)
		k2, v2 := kit.Pick(c, names(1)), kit.Pick(c, vs)
		return func(t *kit.T) { play(t, s, []string{k1, k2}, []string{v1, v2}) }
	})
	r.Explore("three settings", func(c *kit.C) func(t *kit.T) {
		ns := []string{"title", "TITLE", "keywords", "license", "citations", "contributors", "c", "C"}
		vs := values[:5]
		if r.Thorough {
			ns = append(ns, "version", "theme", "language", "path", "description", "e")
			vs = values[:9]
		}
		s := kit.Pick(c, starts)
		var ks, xs []string
		for i := 0; i < 3; i++ {
			ks = append(ks, kit.Pick(c, ns))
			xs = append(xs, kit.Pick(c, vs))
		}
		return func(t *kit.T) { play(t, s, ks, xs) }
	})

	// custom keys set both ways
	r.Explore("custom keys", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, starts)
		n := 1 + c.Choose(3)
		ks, vs := []string{"c", "C", "new", "", " c", "e"}, []string{`null`, `"a"`, `""`, `["x"]`, `{"f":3}`, `[]`, `0`, `false`}
		if n == 3 && !r.Thorough {
			ks, vs = ks[:3], vs[:4]
		}
		type step struct {
			arb  bool
			k, v string
		}
		var steps []step
		for i := 0; i < n; i++ {
			steps = append(steps, step{c.Bool(), kit.Pick(c, ks), kit.Pick(c, vs)})
		}
		return func(t *kit.T) {
			got, want := s.mk(), s.mk()
			custom := parse(s.custom).(map[string]interface{})
			ctx := s.name
			for _, st := range steps {
				before := got.Meta()
				copied := fmt.Sprint(before)
				var err error
				if st.arb {
					err = got.SetArbitrary(st.k, parse(st.v))
				} else {
					err = got.Set(st.k, parse(st.v))
				}
				t.Op(1)
				ctx += fmt.Sprintf(", %q set to %s (SetArbitrary: %v)", st.k, st.v, st.arb)
				if err != nil {
					t.Failf("%s: %v", ctx, err)
				}
				custom[st.k] = parse(st.v)
				same(t, ctx, got, want, custom)
				if fmt.Sprint(before) != copied {
					t.Failf("%s: changes a map of custom keys given out before", ctx)
				}
			}
			t.Trace()
			t.State(s.name, fmt.Sprint(custom))
		}
	})

	// a setting and the JSON document that says the same
	r.Explore("documents", func(c *kit.C) func(t *kit.T) {
		all := append(append([]string{}, jsonNames...), "c", "custom", "titles")
		n := 1 + c.Choose(2)
		doc := map[string]interface{}{}
		var ks []string
		for i := 0; i < n; i++ {
			k := kit.Pick(c, all)
			if _, ok := doc[k]; ok {
				return nil
			}
			v := parse(kit.Pick(c, values[:13]))
			if v == nil {
				return nil // a null in a document leaves a field as it is
			}
			ks = append(ks, k)
			doc[k] = v
		}
		return func(t *kit.T) {
			data, _ := json.Marshal(doc)
			decoded, set := &dataset.Meta{}, &dataset.Meta{}
			derr := json.Unmarshal(data, decoded)
			var serr error
			for _, k := range ks {
				if err := set.Set(k, doc[k]); err != nil {
					serr = err
				}
			}
			t.Op(1 + n)
			if (derr == nil) != (serr == nil) {
				t.Failf("decoding %s: %v; setting it by name: %v", data, derr, serr)
			}
			t.Trace()
			t.State(string(data), derr == nil)
			if derr != nil {
				return
			}
			if g, w := fields(set), fields(decoded); g != w {
				t.Failf("%s decoded is\n%s\nset by name\n%s", data, w, g)
			}
			if !reflect.DeepEqual(set.Meta(), decoded.Meta()) {
				t.Failf("%s decoded has custom keys %v, set by name %v", data, decoded.Meta(), set.Meta())
			}
		}
	})

	// users, licenses and citations
	r.Explore("decode", func(c *kit.C) func(t *kit.T) {
		which := c.Choose(3)
		ns := [][]string{{"id", "name", "email"}, {"type", "url"}, {"name", "url", "email"}}[which]
		doc := map[string]interface{}{}
		bad := false
		want := ""
		for _, n := range append(ns, "other") {
			switch c.Choose(5) {
			case 0:
				want += "|"
				continue
			case 1:
				doc[n] = "v" + n
				want += "v" + n + "|"
			case 2:
				doc[n] = nil
				want += "|"
			case 3:
				doc[n] = 3.0
				bad = bad || n != "other"
			case 4:
				doc[n] = []interface{}{"x"}
				bad = bad || n != "other"
			}
		}
		if o, ok := doc["other"]; ok {
			// the last item is not a field
			s, _ := o.(string)
			if o == nil || s != "" {
				want = strings.TrimSuffix(want, s+"|")
			}
		} else {
			want = strings.TrimSuffix(want, "|")
		}
		return func(t *kit.T) {
			before := fmt.Sprint(doc)
			var got string
			var err error
			switch which {
			case 0:
				u := &dataset.User{}
				err = u.Decode(doc)
				got = u.ID + "|" + u.Fullname + "|" + u.Email + "|"
			case 1:
				l := &dataset.License{}
				err = l.Decode(doc)
				got = l.Type + "|" + l.URL + "|"
			case 2:
				ci := &dataset.Citation{}
				err = ci.Decode(doc)
				got = ci.Name + "|" + ci.URL + "|" + ci.Email + "|"
			}
			t.Op(1)
			if bad != (err != nil) {
				t.Failf("decoding %v into the %d. kind: error %v", doc, which, err)
			}
			if err == nil && got != want {
				t.Failf("decoding %v into the %d. kind gives %s, want %s", doc, which, got, want)
			}
			if fmt.Sprint(doc) != before {
				t.Failf("decoding %v changes it", before)
			}
			t.Trace()
			t.State(which, got, bad)
		}
	})
}
