// C26: dataset comparison finds a difference exactly when there is one.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dstest"
	"vmc/body"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C26", Level: "model_checking",
		Rule:   "every ordered pair of the enumerated documents, components and datasets is compared on the real code, in both orders, and the verdict checked against the identity of the two contents; every result is summarised in every style and encoded",
		Bounds: "JSON objects over 45 values (nested to depth 3) per key and up to two keys: all pairs; about 20 variants of each of 4 components and of their test comparisons: all pairs; datasets: all pairs over {absent, A, B} for 4 components with 3 incidental settings",
		Assume: []string{"two components that carry the same path count as equal (paths are content addresses), and a meta without content beside its path counts as no meta"},
		Body:   run})
}

var styles = []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta"}

// verdict checks one diff result: modified or not, summaries and encoding
func verdict(t *kit.T, ctx string, d *dsdiff.SubDiff, err error, differ bool) {
	t.Op(1)
	if err != nil {
		t.Failf("%s: %v", ctx, err)
	}
	if d == nil {
		t.Failf("%s: no result", ctx)
	}
	if d.Modified() != differ || (len(d.Deltas()) > 0) != differ {
		t.Failf("%s: reported modified %v, %d deltas; the contents differ %v", ctx, d.Modified(), len(d.Deltas()), differ)
	}
	for _, how := range styles {
		s, err := d.SummarizeToString(how)
		if err != nil {
			t.Failf("%s: summary %q: %v", ctx, how, err)
		}
		if (s != "") != differ {
			t.Failf("%s: summary %q is %q, the contents differ %v", ctx, how, s, differ)
		}
		if how == "simple" && differ && !strings.Contains(s, fmt.Sprint(len(d.Deltas()))) {
			t.Failf("%s: summary %q of %d changes", ctx, s, len(d.Deltas()))
		}
		if differ && (how == "simple" || how == "listKeys") && strings.Contains(strings.SplitN(s, "\n", 2)[0], "change") && strings.Contains(strings.SplitN(s, "\n", 2)[0], "changes") != (len(d.Deltas()) > 1) {
			t.Failf("%s: summary %q of %d changes", ctx, s, len(d.Deltas()))
		}
	}
	if s, err := d.SummarizeToString("nonsense"); s != "" || err != nil {
		t.Failf("%s: summary of an unknown style is %q, error %v", ctx, s, err)
	}
	data, err := json.Marshal(d)
	if err != nil {
		t.Failf("%s: the result cannot be encoded: %v", ctx, err)
	}
	var l []interface{}
	if err := json.Unmarshal(data, &l); err != nil || len(l) != len(d.Deltas()) {
		t.Failf("%s: the result of %d changes is encoded as %s", ctx, len(d.Deltas()), data)
	}
}

type variant struct {
	class int
	make  func() interface{}
}

func pool(n int, f func(i int) interface{}) (l []variant) {
	for i := 0; i < n; i++ {
		i := i
		l = append(l, variant{i, func() interface{} { return f(i) }})
	}
	return
}

func mk(class int, f func() interface{}) variant { return variant{class, f} }

var long = strings.Repeat("some long text, ", 4)

func structures() []variant {
	l := []variant{mk(0, func() interface{} { return (*dataset.Structure)(nil) }), mk(0, func() interface{} { return &dataset.Structure{} })}
	fs := []func(s *dataset.Structure){
		func(s *dataset.Structure) { s.Format = "csv" },
		func(s *dataset.Structure) { s.Format = "json" },
		func(s *dataset.Structure) { s.Checksum = "a" },
		func(s *dataset.Structure) { s.Compression = "gzip" },
		func(s *dataset.Structure) { s.Depth = 1 },
		func(s *dataset.Structure) { s.Encoding = "a" },
		func(s *dataset.Structure) { s.ErrCount = 1 },
		func(s *dataset.Structure) { s.Entries = 1 },
		func(s *dataset.Structure) { s.Entries = 2 },
		func(s *dataset.Structure) { s.Length = 1 },
		func(s *dataset.Structure) { s.Strict = true },
		func(s *dataset.Structure) { s.Path = "/p" },
		func(s *dataset.Structure) { s.Schema = body.Arr() },
		func(s *dataset.Structure) { s.Schema = body.Obj() },
		func(s *dataset.Structure) { s.Schema = body.Table("string", "integer") },
		func(s *dataset.Structure) { s.Schema = body.Table("integer", "string") },
		func(s *dataset.Structure) { s.Schema = body.Table("string", "string") },
		func(s *dataset.Structure) { s.Schema = body.Table("string") },
		func(s *dataset.Structure) { s.FormatConfig = map[string]interface{}{"headerRow": true} },
		func(s *dataset.Structure) { s.FormatConfig = map[string]interface{}{"headerRow": false} },
		func(s *dataset.Structure) { s.FormatConfig = map[string]interface{}{"separator": ";"} },
	}
	for i, f := range fs {
		f := f
		l = append(l, mk(i+1, func() interface{} { s := &dataset.Structure{}; f(s); return s }))
	}
	return append(l, mk(100, func() interface{} { s := &dataset.Structure{Format: "csv"}; fs[18](s); fs[14](s); return s }))
}

func metas() []variant {
	l := []variant{mk(0, func() interface{} { return (*dataset.Meta)(nil) }), mk(0, func() interface{} { return &dataset.Meta{} })}
	fs := []func(s *dataset.Meta){
		func(s *dataset.Meta) { s.Title = "a" },
		func(s *dataset.Meta) { s.Title = "b" },
		func(s *dataset.Meta) { s.Title = long },
		func(s *dataset.Meta) { s.Title = long + "x" },
		func(s *dataset.Meta) { s.Description = "a" },
		func(s *dataset.Meta) { s.AccessURL = "a" },
		func(s *dataset.Meta) { s.AccrualPeriodicity = "a" },
		func(s *dataset.Meta) { s.DownloadURL = "a" },
		func(s *dataset.Meta) { s.HomeURL = "a" },
		func(s *dataset.Meta) { s.Identifier = "a" },
		func(s *dataset.Meta) { s.ReadmeURL = "a" },
		func(s *dataset.Meta) { s.Version = "a" },
		func(s *dataset.Meta) { s.Keywords = []string{"a", "b"} },
		func(s *dataset.Meta) { s.Keywords = []string{"b", "a"} },
		func(s *dataset.Meta) { s.Keywords = []string{"a", "a"} },
		func(s *dataset.Meta) { s.Language = []string{"a"} },
		func(s *dataset.Meta) { s.Theme = []string{"a"} },
		func(s *dataset.Meta) { s.License = &dataset.License{Type: "a"} },
		func(s *dataset.Meta) { s.License = &dataset.License{Type: "b", URL: "u"} },
		func(s *dataset.Meta) { s.Citations = []*dataset.Citation{{Name: "n"}} },
		func(s *dataset.Meta) { s.Citations = []*dataset.Citation{{Name: "n"}, {URL: "u"}} },
		func(s *dataset.Meta) { s.Contributors = []*dataset.User{{ID: "i"}} },
		func(s *dataset.Meta) { s.Contributors = []*dataset.User{{Fullname: "i"}} },
	}
	for i, f := range fs {
		f := f
		l = append(l, mk(i+1, func() interface{} { s := &dataset.Meta{}; f(s); return s }))
	}
	return append(l, mk(100, func() interface{} { return &dataset.Meta{Title: "a", Description: "a", Path: "/p"} }))
}

func customMetas() []variant {
	return []variant{
		mk(200, func() interface{} { s := &dataset.Meta{}; s.Set("custom", 1.5); return s }),
		mk(201, func() interface{} { s := &dataset.Meta{}; s.Set("custom", "x"); return s }),
		mk(202, func() interface{} { s := &dataset.Meta{Title: "a"}; s.Set("other", []interface{}{"a", nil}); return s }),
	}
}

func transforms() []variant {
	l := []variant{mk(0, func() interface{} { return (*dataset.Transform)(nil) }), mk(0, func() interface{} { return &dataset.Transform{} }),
		mk(0, func() interface{} { return &dataset.Transform{Secrets: map[string]string{"a": "b"}} })}
	fs := []func(s *dataset.Transform){
		func(s *dataset.Transform) { s.Text = "a" },
		func(s *dataset.Transform) { s.Text = "b" },
		func(s *dataset.Transform) { s.Syntax = "a" },
		func(s *dataset.Transform) { s.SyntaxVersion = "a" },
		func(s *dataset.Transform) { s.Syntaxes = map[string]string{"a": "1"} },
		func(s *dataset.Transform) { s.Syntaxes = map[string]string{"a": "2"} },
		func(s *dataset.Transform) { s.Config = map[string]interface{}{"a": "1"} },
		func(s *dataset.Transform) { s.Config = map[string]interface{}{"a": nil, "b": []interface{}{"x"}} },
		func(s *dataset.Transform) { s.Resources = map[string]*dataset.TransformResource{"a": {Path: "x"}} },
		func(s *dataset.Transform) { s.Resources = map[string]*dataset.TransformResource{"a": {Path: "y"}} },
		func(s *dataset.Transform) { s.Steps = []*dataset.TransformStep{{Name: "a"}} },
		func(s *dataset.Transform) { s.Steps = []*dataset.TransformStep{{Name: "a"}, {Name: "b", Script: "s"}} },
		func(s *dataset.Transform) { s.Steps = []*dataset.TransformStep{{Name: "b", Script: "s"}, {Name: "a"}} },
		func(s *dataset.Transform) { s.Path = "/p"; s.Syntax = "z" },
		func(s *dataset.Transform) { s.Path = "/q"; s.Syntax = "z" },
	}
	for i, f := range fs {
		f := f
		l = append(l, mk(i+1, func() interface{} { s := &dataset.Transform{}; f(s); return s }))
	}
	// script paths do not count when both sides have one
	l = append(l, mk(50, func() interface{} { return &dataset.Transform{ScriptPath: "/x", Syntax: "star"} }), mk(50, func() interface{} { return &dataset.Transform{ScriptPath: "/y", Syntax: "star"} }),
		mk(51, func() interface{} { return &dataset.Transform{ScriptPath: "/y", Syntax: "other"} }), mk(52, func() interface{} { return &dataset.Transform{Syntax: "star"} }))
	return l
}

func vizs() []variant {
	l := []variant{mk(0, func() interface{} { return (*dataset.Viz)(nil) }), mk(0, func() interface{} { return &dataset.Viz{} })}
	fs := []func(s *dataset.Viz){
		func(s *dataset.Viz) { s.Format = "html" },
		func(s *dataset.Viz) { s.Format = "x" },
		func(s *dataset.Viz) { s.Text = "a" },
		func(s *dataset.Viz) { s.Text = long },
		func(s *dataset.Viz) { s.Text = "x" + long },
		func(s *dataset.Viz) { s.ScriptPath = "/a" },
		func(s *dataset.Viz) { s.ScriptPath = "/b" },
		func(s *dataset.Viz) { s.RenderedPath = "/a" },
		func(s *dataset.Viz) { s.Format = "html"; s.Text = "a"; s.ScriptPath = "/a" },
	}
	for i, f := range fs {
		f := f
		l = append(l, mk(i+1, func() interface{} { s := &dataset.Viz{}; f(s); return s }))
	}
	return l
}

// same compares two values, not counting the empty table of custom meta fields
// that a meta makes when asked for its fields
func same(a, b interface{}) bool {
	for _, v := range []interface{}{a, b} {
		switch x := v.(type) {
		case *dataset.Meta:
			if x != nil {
				x.Meta()
			}
		case *dataset.Dataset:
			if x.Meta != nil {
				x.Meta.Meta()
			}
		}
	}
	return reflect.DeepEqual(a, b)
}

func show(v interface{}) string {
	if reflect.ValueOf(v).IsNil() {
		return "nil"
	}
	data, _ := json.Marshal(v)
	return string(data)
}

func run(r *kit.Run) {
	// JSON documents
	leaves := []interface{}{nil, true, false, 0.0, 1.0, -1.5, "", "a", "b", long, long + "y", "z" + long}
	vals := append([]interface{}{}, leaves...)
	arr := func(x ...interface{}) interface{} { return append([]interface{}{}, x...) }
	obj := func(kv ...interface{}) interface{} {
		m := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	vals = append(vals, arr(), obj(), arr(nil), arr(1.0), arr("a"), arr(1.0, 2.0), arr(2.0, 1.0), arr(1.0, 1.0), arr(1.0, 2.0, 3.0), arr(3.0, 2.0, 1.0), arr(2.0, 3.0), arr("a", "b", "a"), arr("b", "a", "a"),
		arr(long), arr(long+"q", "a"), arr(arr()), arr(arr(1.0)), arr(arr(1.0), arr(2.0)), arr(arr(2.0), arr(1.0)), arr(obj()), arr(obj("a", 1.0)), arr(obj("a", 1.0), obj("a", 2.0)), arr(obj("a", 2.0), obj("a", 1.0)), arr(obj("a", 2.0), 1.0), arr(obj("b", 2.0), obj("a", 3.0), "x"),
		obj("a", nil), obj("a", 1.0), obj("a", 2.0), obj("b", 1.0), obj("a", 1.0, "b", 2.0), obj("a", obj("b", obj("c", 1.0))), obj("a", obj("b", obj("c", 2.0))), obj("a", arr(1.0)), obj("a", arr(obj("k", long))), obj("", 1.0))
	check := func(t *kit.T, a, b interface{}) {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		xs, ys := string(x), string(y)
		differ := !body.EqTyped(a, b)
		ctx := fmt.Sprintf("%.200s and %.200s", x, y)
		d, err := dsdiff.DiffJSON(x, y, "doc")
		verdict(t, ctx, d, err, differ)
		d, err = dsdiff.DiffJSON(y, x, "doc")
		verdict(t, "reversed "+ctx, d, err, differ)
		if string(x) != xs || string(y) != ys {
			t.Failf("%s: the documents became %s and %s", ctx, x, y)
		}
	}
	r.Explore("documents", func(c *kit.C) func(t *kit.T) {
		a := kit.Pick(c, vals)
		return func(t *kit.T) {
			for _, b := range vals {
				check(t, obj("k", a), obj("k", b))
				check(t, obj("k", a), obj("l", b))
				check(t, obj("k", a, "l", 1.0), obj("k", b))
				check(t, obj("k", a, "l", b), obj("k", b, "l", a))
				check(t, obj("k", arr(a, b)), obj("k", arr(b, a)))
				if _, ok := a.(map[string]interface{}); ok {
					if _, ok := b.(map[string]interface{}); ok {
						check(t, a, b)
					}
				}
			}
			t.Trace()
		}
	})
	// both values of a changed field are shown, the first side's as removed
	r.Explore("changed field", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, leaves[:9]), kit.Pick(c, leaves[:9])
		deep := c.Bool()
		return func(t *kit.T) {
			x, y := a, b
			if deep {
				x, y = obj("in", a, "z", 1.0), obj("in", b, "z", 1.0)
			}
			p, _ := json.Marshal(obj("field", x))
			q, _ := json.Marshal(obj("field", y))
			d, err := dsdiff.DiffJSON(p, q, "doc")
			differ := !body.EqTyped(a, b)
			verdict(t, fmt.Sprintf("%s and %s", p, q), d, err, differ)
			if s, _ := d.SummarizeToString("plusMinus"); differ {
				minus, plus := "", ""
				for _, l := range strings.Split(s, "\n") {
					if strings.HasPrefix(l, "-") {
						minus += l[1:]
					} else if strings.HasPrefix(l, "+") {
						plus += l[1:]
					}
				}
				va, _ := json.Marshal(a)
				vb, _ := json.Marshal(b)
				if _, val, ok := strings.Cut(minus, ": "); !ok || strings.Trim(val, ", ") != string(va) {
					t.Failf("%s and %s: removed %q in\n%s", p, q, minus, s)
				}
				if _, val, ok := strings.Cut(plus, ": "); !ok || strings.Trim(val, ", ") != string(vb) {
					t.Failf("%s and %s: added %q in\n%s", p, q, plus, s)
				}
			}
			t.Trace()
		}
	})
	r.Explore("arrays", func(c *kit.C) func(t *kit.T) {
		mkArr := func() interface{} {
			var a []interface{}
			for i, n := 0, c.Range(0, r.T0(4, 5)); i < n; i++ {
				a = append(a, kit.Pick(c, []interface{}{1.0, "a", obj("x", 1.0), arr(2.0)}))
			}
			if a == nil {
				a = []interface{}{}
			}
			return a
		}
		a, b := mkArr(), mkArr()
		return func(t *kit.T) { check(t, obj("k", a), obj("k", b)); t.Trace() }
	})
	r.Explore("not documents", func(c *kit.C) func(t *kit.T) {
		bad := kit.Pick(c, []string{"", "[]", "1", `"a"`, "{", "{}x", "[{}]", "nul"})
		return func(t *kit.T) {
			t.Op(2)
			if d, err := dsdiff.DiffJSON([]byte(bad), []byte("{}"), "doc"); err == nil {
				t.Failf("%q compared with {}: %v and no error", bad, d)
			}
			if d, err := dsdiff.DiffJSON([]byte("{}"), []byte(bad), "doc"); err == nil {
				t.Failf("{} compared with %q: %v and no error", bad, d)
			}
			t.Trace()
		}
	})

	// components
	type part struct {
		name string
		vs   []variant
		diff func(a, b interface{}) (*dsdiff.SubDiff, error)
	}
	comps := []part{
		{"structure", structures(), func(a, b interface{}) (*dsdiff.SubDiff, error) {
			return dsdiff.DiffStructure(a.(*dataset.Structure), b.(*dataset.Structure))
		}},
		{"transform", transforms(), func(a, b interface{}) (*dsdiff.SubDiff, error) {
			return dsdiff.DiffTransform(a.(*dataset.Transform), b.(*dataset.Transform))
		}},
		{"meta", append(metas(), customMetas()...), func(a, b interface{}) (*dsdiff.SubDiff, error) {
			return dsdiff.DiffMeta(a.(*dataset.Meta), b.(*dataset.Meta))
		}},
		{"viz", vizs(), func(a, b interface{}) (*dsdiff.SubDiff, error) {
			return dsdiff.DiffViz(a.(*dataset.Viz), b.(*dataset.Viz))
		}},
	}
	for _, k := range comps {
		k := k
		r.Explore(k.name, func(c *kit.C) func(t *kit.T) {
			i, j := c.Choose(len(k.vs)), c.Choose(len(k.vs))
			return func(t *kit.T) {
				a, b := k.vs[i].make(), k.vs[j].make()
				sa, sb := show(a), show(b)
				differ := k.vs[i].class != k.vs[j].class
				d, err := k.diff(a, b)
				verdict(t, k.name+" "+sa+" and "+sb, d, err, differ)
				if show(a) != sa || show(b) != sb || !same(a, k.vs[i].make()) || !same(b, k.vs[j].make()) {
					t.Failf("comparing %s %s and %s left them as %s and %s", k.name, sa, sb, show(a), show(b))
				}
				d, err = k.diff(a, a)
				verdict(t, k.name+" "+sa+" with itself", d, err, false)
				t.Trace()
			}
		})
	}
	// the same path counts as the same component
	r.Explore("paths", func(c *kit.C) func(t *kit.T) {
		ps := []string{"/ipfs/a", "/ipfs/b", "/ipfs/QmXaY", "/ipfs/QmXbY", "/ipfs/QmYaX", "/ipfs/Qm", "/IPFS/a", "/ipfs/a/", "/mem/a"}
		p, q := kit.Pick(c, ps), kit.Pick(c, ps)
		k := c.Choose(3)
		return func(t *kit.T) {
			var d *dsdiff.SubDiff
			var err error
			switch k {
			case 0:
				d, err = dsdiff.DiffMeta(&dataset.Meta{Path: p, Title: "a"}, &dataset.Meta{Path: q, Title: "a"})
			case 1:
				d, err = dsdiff.DiffTransform(&dataset.Transform{Path: p, Text: "a"}, &dataset.Transform{Path: q, Text: "a"})
			case 2:
				d, err = dsdiff.DiffViz(&dataset.Viz{Path: p, Format: "a"}, &dataset.Viz{Path: q, Format: "a"})
			}
			differ := p != q
			if k == 2 {
				differ = differ && d != nil && d.Modified() // a viz with text is written without its path
			}
			verdict(t, fmt.Sprintf("component %d at %s and %s", k, p, q), d, err, differ)
			t.Trace()
		}
	})

	// datasets
	r.Explore("datasets", func(c *kit.C) func(t *kit.T) {
		var pick [2][4]int
		for s := range pick {
			for k := range pick[s] {
				pick[s][k] = c.Choose(3)
			}
		}
		inc := c.Choose(3)
		return func(t *kit.T) {
			mkDs := func(s int) *dataset.Dataset {
				ds := &dataset.Dataset{}
				if pick[s][0] > 0 {
					ds.Structure = &dataset.Structure{Format: "json", Depth: pick[s][0]}
				}
				if pick[s][1] > 0 {
					ds.Transform = &dataset.Transform{Syntax: fmt.Sprint(pick[s][1])}
				}
				if pick[s][2] > 0 {
					ds.Meta = &dataset.Meta{Title: fmt.Sprint(pick[s][2])}
				}
				if pick[s][3] > 0 {
					ds.Viz = &dataset.Viz{Format: fmt.Sprint(pick[s][3])}
				}
				if inc == 1 || inc == 2 && s == 1 {
					ds.Name, ds.Commit, ds.Readme, ds.BodyPath = "n", &dataset.Commit{Title: "t"}, &dataset.Readme{Text: "r"}, "/body"
				}
				return ds
			}
			a, b := mkDs(0), mkDs(1)
			ctx := fmt.Sprintf("datasets %s and %s", show(a), show(b))
			m, err := dsdiff.DiffDatasets(a, b, nil)
			t.Op(1)
			if err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			names := []string{"structure", "transform", "meta", "viz"}
			any := ""
			for k, name := range names {
				differ := pick[0][k] != pick[1][k]
				d := m[name]
				if d == nil && differ {
					t.Failf("%s: no difference reported in %s", ctx, name)
				}
				if d != nil {
					verdict(t, ctx+" "+name, d, nil, differ)
				}
				if differ && any == "" {
					any = name
				}
			}
			for k, d := range m {
				found := false
				for _, n := range names {
					found = found || n == k
				}
				if !found && d.Modified() {
					t.Failf("%s: difference reported in %q", ctx, k)
				}
			}
			for _, how := range styles {
				s, err := dsdiff.MapDiffsToString(m, how)
				if err != nil || (s != "") != (any != "") {
					t.Failf("%s: summary %q is %q, error %v; first difference in %q", ctx, how, s, err, any)
				}
				if (how == "simple" || how == "listKeys") && any != "" && !strings.HasPrefix(s, strings.Title(any)) {
					t.Failf("%s: summary %q is %q; first difference in %q", ctx, how, s, any)
				}
			}
			if data, err := json.Marshal(m); err != nil {
				t.Failf("%s: result cannot be encoded: %v %s", ctx, err, data)
			}
			if !same(a, mkDs(0)) || !same(b, mkDs(1)) {
				t.Failf("%s: changed by comparing", ctx)
			}
			t.Trace()
		}
	})
	r.Explore("body paths", func(c *kit.C) func(t *kit.T) {
		p, q := kit.Pick(c, []string{"", "/a", "/b"}), kit.Pick(c, []string{"", "/a", "/b"})
		return func(t *kit.T) {
			d, err := dsdiff.DiffData(&dataset.Dataset{BodyPath: p}, &dataset.Dataset{BodyPath: q})
			t.Op(1)
			if err != nil || d == nil {
				t.Failf("bodies at %q and %q: %v", p, q, err)
			}
			// differences of bodies that are not dereferenced are not looked for
			verdict(t, fmt.Sprintf("bodies at %q and %q", p, q), d, err, false)
			t.Trace()
		}
	})

	// test comparisons
	commits := []variant{mk(0, func() interface{} { return (*dataset.Commit)(nil) }), mk(0, func() interface{} { return &dataset.Commit{} })}
	for i, f := range []func(s *dataset.Commit){
		func(s *dataset.Commit) { s.Title = "a" },
		func(s *dataset.Commit) { s.Title = "b" },
		func(s *dataset.Commit) { s.Message = "a" },
		func(s *dataset.Commit) { s.Author = &dataset.User{ID: "a"} },
		func(s *dataset.Commit) { s.Author = &dataset.User{ID: "b"} },
		func(s *dataset.Commit) { s.Signature = "a" },
		func(s *dataset.Commit) { s.RunID = "a" },
		func(s *dataset.Commit) { s.Timestamp = time.Unix(5, 0) },
		func(s *dataset.Commit) { s.Timestamp = time.Unix(6, 0) },
	} {
		f := f
		commits = append(commits, mk(i+1, func() interface{} { s := &dataset.Commit{}; f(s); return s }))
	}
	// with a path, the transient field of the components compared
	type cmp struct {
		name string
		vs   []variant
		path func(v interface{}, p string) interface{}
		cmp  func(a, b interface{}, opts ...dstest.CompareOpts) string
	}
	cmps := []cmp{
		{"commit", commits, func(v interface{}, p string) interface{} {
			if x := v.(*dataset.Commit); x != nil {
				x.Path = p
			}
			return v
		}, func(a, b interface{}, o ...dstest.CompareOpts) string {
			return dstest.CompareCommits(a.(*dataset.Commit), b.(*dataset.Commit), o...)
		}},
		{"meta", metas()[:25], func(v interface{}, p string) interface{} {
			if x := v.(*dataset.Meta); x != nil {
				x.Path = p
			}
			return v
		}, func(a, b interface{}, o ...dstest.CompareOpts) string {
			return dstest.CompareMetas(a.(*dataset.Meta), b.(*dataset.Meta), o...)
		}},
		{"structure", structures()[:13], func(v interface{}, p string) interface{} {
			if x := v.(*dataset.Structure); x != nil {
				x.Path = p
			}
			return v
		}, func(a, b interface{}, o ...dstest.CompareOpts) string {
			return dstest.CompareStructures(a.(*dataset.Structure), b.(*dataset.Structure), o...)
		}},
	}
	for _, k := range cmps {
		k := k
		r.Explore("test comparison of "+k.name, func(c *kit.C) func(t *kit.T) {
			i, j := c.Choose(len(k.vs)), c.Choose(len(k.vs))
			pa, pb := kit.Pick(c, []string{"", "/x"}), kit.Pick(c, []string{"", "/x", "/y"})
			drop := c.Bool()
			return func(t *kit.T) {
				t.Op(1)
				a, b := k.path(k.vs[i].make(), pa), k.path(k.vs[j].make(), pb)
				ea, eb := pa, pb
				if reflect.ValueOf(a).IsNil() {
					ea = ""
				}
				if reflect.ValueOf(b).IsNil() {
					eb = ""
				}
				differ := k.vs[i].class != k.vs[j].class || !drop && ea != eb
				var opts []dstest.CompareOpts
				if drop {
					opts = append(opts, dstest.OptDropTransientValues(0))
				}
				s := k.cmp(a, b, opts...)
				if (s != "") != differ {
					t.Failf("%s %s and %s, transients dropped %v: %q, differ %v", k.name, show(a), show(b), drop, s, differ)
				}
				if !same(a, k.path(k.vs[i].make(), pa)) || !same(b, k.path(k.vs[j].make(), pb)) {
					t.Failf("comparing %s left %s and %s", k.name, show(a), show(b))
				}
				t.Trace()
			}
		})
	}
	r.Explore("test comparison of datasets", func(c *kit.C) func(t *kit.T) {
		// per side: one field set beside a common base
		set := func(n int, v string) (*dataset.Dataset, bool) {
			ds := &dataset.Dataset{PreviousPath: "/base", Commit: &dataset.Commit{Title: "t"}}
			switch n {
			case 1:
				ds.Name = v
			case 2:
				ds.Peername = v
			case 3:
				ds.Path = v
			case 4:
				ds.ProfileID = v
			case 5:
				ds.NumVersions = len(v)
			case 6:
				ds.Body = v
			case 7:
				ds.BodyBytes = []byte(v)
			case 8:
				ds.ID = v
			case 9:
				ds.BodyPath = v
			case 10:
				ds.PreviousPath = v
			case 11:
				ds.Meta = &dataset.Meta{Title: v}
			case 12:
				ds.Structure = &dataset.Structure{Format: v}
			case 13:
				ds.Readme = &dataset.Readme{Text: v}
			case 14:
				ds.Viz = &dataset.Viz{Format: v}
			case 15:
				ds.Transform = &dataset.Transform{Syntax: v}
			case 16:
				ds.Commit = &dataset.Commit{Title: v}
			case 17:
				ds.Stats = &dataset.Stats{Stats: v}
			}
			return ds, n >= 1 && n <= 7
		}
		n, m := c.Choose(18), c.Choose(18)
		v, w := kit.Pick(c, []string{"a", "bb"}), kit.Pick(c, []string{"a", "bb"})
		drop := c.Bool()
		return func(t *kit.T) {
			t.Op(1)
			a, ta := set(n, v)
			b, tb := set(m, w)
			equal := n == m && (v == w || n == 0)
			if drop && (ta || n == 0) && (tb || m == 0) {
				equal = true
			}
			var opts []dstest.CompareOpts
			if drop {
				opts = append(opts, dstest.OptDropTransientValues(0))
			}
			s := dstest.CompareDatasets(a, b, opts...)
			if (s == "") != equal {
				t.Failf("datasets %s and %s, transients dropped %v: %q, equal %v", show(a), show(b), drop, s, equal)
			}
			a2, _ := set(n, v)
			b2, _ := set(m, w)
			if !same(a, a2) || !same(b, b2) {
				t.Failf("comparing left %s and %s", show(a), show(b))
			}
			t.Trace()
		}
	})

	// the comparisons of single components, by field: exported ones count, the
	// path only where it is not ignored
	comparers := []struct {
		kind *comp.Kind
		// f reports a difference
		f func(a, b interface{}, drop bool) bool
		// ignored fields, transient ones when dropped
		path    bool
		secrets bool
		drops   bool
	}{
		{&comp.Commit, func(a, b interface{}, drop bool) bool {
			return dstest.CompareCommits(a.(*dataset.Commit), b.(*dataset.Commit), dropOpt(drop)...) != ""
		}, true, true, true},
		{&comp.Meta, func(a, b interface{}, drop bool) bool {
			return dstest.CompareMetas(a.(*dataset.Meta), b.(*dataset.Meta), dropOpt(drop)...) != ""
		}, true, true, true},
		{&comp.Structure, func(a, b interface{}, drop bool) bool {
			return dstest.CompareStructures(a.(*dataset.Structure), b.(*dataset.Structure), dropOpt(drop)...) != ""
		}, true, true, true},
		{&comp.Transform, func(a, b interface{}, _ bool) bool {
			return !a.(*dataset.Transform).ShallowCompare(b.(*dataset.Transform))
		}, false, true, false},
		{&comp.Readme, func(a, b interface{}, _ bool) bool {
			return !a.(*dataset.Readme).ShallowCompare(b.(*dataset.Readme))
		}, false, true, false},
		{&comp.Viz, func(a, b interface{}, _ bool) bool {
			return !a.(*dataset.Viz).ShallowCompare(b.(*dataset.Viz))
		}, false, true, false},
	}
	r.Explore("components by field", func(c *kit.C) func(t *kit.T) {
		cm := kit.Pick(c, comparers)
		k := cm.kind
		drop := cm.drops && c.Bool()
		base := kit.Pick(c, []int{0, 1, 2, comp.Same})
		a, b := k.Uniform(base), k.Uniform(base)
		// the two differ in up to two fields
		n := c.Choose(3)
		for i := 0; i < n; i++ {
			f := c.Choose(len(k.Fields))
			a[f] = c.Choose(len(k.Fields[f].Vals) + 1)
			b[f] = c.Choose(len(k.Fields[f].Vals) + 1)
		}
		if base > 0 {
			for i := range k.Fields {
				if a[i] != comp.Same && a[i] > len(k.Fields[i].Vals) {
					a[i] = 1
				}
				if b[i] != comp.Same && b[i] > len(k.Fields[i].Vals) {
					b[i] = 1
				}
			}
		}
		return func(t *kit.T) {
			differ := false
			for i, f := range k.Fields {
				if a[i] == b[i] || f.Role == comp.Custom || f.Role == comp.Path && !cm.path || drop && f.Name == "path" {
					continue
				}
				differ = true
			}
			x, y := k.Build(a), k.Build(b)
			if got := cm.f(x, y, drop); got != differ {
				t.Failf("%s %s and %s, transients dropped %v: difference %v, want %v", k.Name, k.String(a), k.String(b), drop, got, differ)
			}
			if got := cm.f(y, x, drop); got != differ {
				t.Failf("%s %s and %s, transients dropped %v: difference %v, want %v", k.Name, k.String(b), k.String(a), drop, got, differ)
			}
			t.Op(2)
			for i, v := range []interface{}{x, y} {
				if w := k.Build([]comp.A{a, b}[i]); comp.Dump(v) != comp.Dump(w) {
					t.Failf("comparing left %s, was %s", comp.Dump(v), comp.Dump(w))
				}
			}
			t.State(k.Name, k.String(a), k.String(b), drop)
			t.Trace()
		}
	})
	// values that print alike, or are equal when converted, are different
	type alike struct {
		s string
		v func() interface{}
	}
	var looks []alike
	for _, s := range []string{`null`, `"null"`, `"<nil>"`, `0`, `"0"`, `false`, `"false"`, `""`, `[]`, `{}`, `"[]"`, `"map[]"`, `1`, `"1"`, `true`, `[1]`, `["1"]`, `[[1]]`, `["1 2"]`, `["1","2"]`, `[1,2]`, `{"a":1}`, `{"a":"1"}`, `{"a":null}`, `{"a":"1 b:2"}`, `{"a":"1","b":"2"}`, `"map[a:1]"`, `[null]`, `[""]`, `1.5`, `"1.5"`, `[1.5]`} {
		s := s
		looks = append(looks, alike{s, func() interface{} {
			var v interface{}
			if err := json.Unmarshal([]byte(s), &v); err != nil {
				panic(err)
			}
			return v
		}})
	}
	looks = append(looks, alike{"int64 1", func() interface{} { return int64(1) }}, alike{"int 1", func() interface{} { return int(1) }})
	r.Explore("values alike", func(c *kit.C) func(t *kit.T) {
		x, y := c.Choose(len(looks)), c.Choose(len(looks))
		where := c.Choose(5)
		return func(t *kit.T) {
			mk := func(v alike) (t1 *dataset.Transform) {
				t1 = &dataset.Transform{}
				m := map[string]interface{}{"k": v.v()}
				switch where {
				case 0:
					t1.Config = m
				case 1:
					t1.Config = map[string]interface{}{"in": []interface{}{m}}
				case 2:
					t1.Steps = []*dataset.TransformStep{{Name: "a", Script: v.v()}}
				case 3:
					t1.Steps = []*dataset.TransformStep{{Name: "a", Script: []interface{}{m, v.v()}}}
				case 4:
					t1.Secrets = map[string]string{"k": v.s}
				}
				return
			}
			if got := mk(looks[x]).ShallowCompare(mk(looks[y])); got != (x == y) {
				t.Failf("transforms with %s and with %s at place %d: equal %v", looks[x].s, looks[y].s, where, got)
			}
			// structures, compared by their documents: numbers of either type are the same there
			if where < 2 {
				st := func(v alike) *dataset.Structure {
					m := map[string]interface{}{"k": v.v()}
					if where == 0 {
						return &dataset.Structure{FormatConfig: m}
					}
					return &dataset.Structure{Schema: map[string]interface{}{"in": []interface{}{m}}}
				}
				got := dstest.CompareStructures(st(looks[x]), st(looks[y]))
				if (got == "") != (x == y) && !strings.HasPrefix(looks[x].s, "int") && !strings.HasPrefix(looks[y].s, "int") {
					t.Failf("structures with %s and with %s: %q", looks[x].s, looks[y].s, got)
				}
				t.Op(1)
			}
			t.Op(1)
			t.Trace()
		}
	})
	r.Case("nothing compared", func(t *kit.T) {
		var tf *dataset.Transform
		var rm *dataset.Readme
		var vz *dataset.Viz
		if !tf.ShallowCompare(nil) || !rm.ShallowCompare(nil) || !vz.ShallowCompare(nil) {
			t.Failf("nil components differ")
		}
		if tf.ShallowCompare(&dataset.Transform{}) || (&dataset.Transform{}).ShallowCompare(nil) || rm.ShallowCompare(&dataset.Readme{}) || (&dataset.Readme{}).ShallowCompare(nil) || vz.ShallowCompare(&dataset.Viz{}) || (&dataset.Viz{}).ShallowCompare(nil) {
			t.Failf("a nil component equals an empty one")
		}
		t.Op(9)
		t.Trace()
	})
}

func dropOpt(drop bool) []dstest.CompareOpts {
	if drop {
		return []dstest.CompareOpts{dstest.OptDropTransientValues(0)}
	}
	return nil
}
