// C27: rendering a visualisation is repeatable and leaves the dataset usable.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"io/ioutil"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C27", Level: "model_checking",
		Rule:   "every sequence of template operations, and every sequence of renders of one dataset, run on the real renderer and compared with output computed from the entries and documents; files read back afterwards; read faults at every offset of body and template",
		Bounds: "templates of up to 2 operations (thorough 3) of 13, histories of 3 renders (thorough 4), 11 body encodings of 0 to 3 entries, bodies to 200 KB with windows at both ends; one fault for each render",
		Assume: []string{"the template engine of the Go library works as documented"},
		Body:   run})
}

var escaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;", "+", "&#43;")

type kind struct {
	name  string
	shape string // scalars, rows or object
	st    func() *dataset.Structure
}

func kinds() []kind {
	table := func() map[string]interface{} { return body.Table("string", "integer", "boolean") }
	k := func(name, shape, format, comp string, schema func() map[string]interface{}, cfg map[string]interface{}) kind {
		return kind{name, shape, func() *dataset.Structure { return body.St(format, comp, schema(), cfg) }}
	}
	return []kind{
		k("json scalars", "scalars", "json", "", body.Arr, nil),
		k("cbor scalars", "scalars", "cbor", "", body.Arr, nil),
		k("json rows", "rows", "json", "", body.Arr, nil),
		k("ndjson rows", "rows", "ndjson", "", body.Arr, nil),
		k("cbor rows", "rows", "cbor", "", body.Arr, nil),
		k("csv rows", "rows", "csv", "", table, nil),
		k("csv rows with header", "rows", "csv", "", table, map[string]interface{}{"headerRow": true}),
		k("csv rows, gzip", "rows", "csv", "gzip", table, nil),
		k("csv rows, zstd", "rows", "csv", "zstd", table, nil),
		k("json object", "object", "json", "", body.Obj, nil),
		k("cbor object", "object", "cbor", "", body.Obj, nil),
	}
}

var words = []string{`<b>"one"</b>`, "two & 'three'", "plain", "é ü 漢"}

// entries makes a body of n entries. Object keys do not come in order.
func (k kind) entries(n int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		w := words[i%len(words)]
		es[i] = dsio.Entry{Index: i}
		switch k.shape {
		case "scalars":
			es[i].Value = []interface{}{w, int64(i), true, 1.5 + float64(i)}[i%4]
		case "rows":
			es[i].Value = []interface{}{w, int64(i), i%2 == 0}
		case "object":
			es[i].Key = fmt.Sprintf("<k%d>", i*7919%10007)
			es[i].Value = w
		}
	}
	return es
}

// list is the template text that writes out every entry of an expression.
func (k kind) list(expr string) string {
	switch k.shape {
	case "scalars":
		return "{{ range " + expr + " }}[{{ . }}]{{ end }}"
	case "rows":
		return "{{ range " + expr + " }}({{ range . }}[{{ . }}]{{ end }}){{ end }}"
	}
	return "{{ range $k, $v := " + expr + " }}{{ $k }}=[{{ $v }}]{{ end }}"
}

// plain is how the template engine writes a value
func plain(v interface{}) string {
	if v == nil {
		return ""
	}
	return escaper.Replace(fmt.Sprint(v))
}

func (k kind) want(es []dsio.Entry) string {
	s := &strings.Builder{}
	es = append([]dsio.Entry{}, es...)
	if k.shape == "object" {
		sort.Slice(es, func(i, j int) bool { return es[i].Key < es[j].Key })
	}
	for _, e := range es {
		switch k.shape {
		case "rows":
			s.WriteString("(")
			l, _ := e.Value.([]interface{})
			for _, v := range l {
				s.WriteString("[" + plain(v) + "]")
			}
			s.WriteString(")")
		case "object":
			s.WriteString(escaper.Replace(e.Key) + "=[" + plain(e.Value) + "]")
		default:
			s.WriteString("[" + plain(e.Value) + "]")
		}
	}
	return s.String()
}

func window(es []dsio.Entry, offset, limit int) []dsio.Entry {
	if offset < 0 || limit < 0 {
		return es
	}
	if offset > len(es) {
		offset = len(es)
	}
	es = es[offset:]
	if limit < len(es) {
		es = es[:limit]
	}
	return es
}

// readWindow reads a window of a body without the renderer.
func readWindow(k kind, src *body.Source, w [2]int) ([]dsio.Entry, error) {
	r, err := dsio.NewEntryReader(k.st(), src)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	if w[0] >= 0 && w[1] >= 0 {
		r = &dsio.PagedReader{Reader: r, Offset: w[0], Limit: w[1]}
	}
	return body.Drain(r, 10000)
}

type op struct {
	body bool
	win  [2]int
	tmpl func(k kind) string
	want func(k kind, es []dsio.Entry) string
}

func text(tmpl, want string) op {
	return op{false, [2]int{}, func(kind) string { return tmpl }, func(kind, []dsio.Entry) string { return want }}
}

func win(o, l int) op {
	return op{true, [2]int{o, l}, func(k kind) string { return k.list(fmt.Sprintf("bodyEntries %d %d", o, l)) }, func(k kind, es []dsio.Entry) string { return k.want(window(es, o, l)) }}
}

func ops() []op {
	return []op{
		text("<p>x + y</p>", "<p>x + y</p>"),
		text("<h1>{{ title }}</h1>", "<h1>A &lt;title&gt; &amp; more</h1>"),
		text("{{ ds.meta.description }}", "&#34;quoted&#34;"),
		text(`<i id="{{ ds.name }}">{{ .Peername }}</i>`, `<i id="na&lt;me&#34;">peer</i>`),
		text("{{ filesize 2048 }}", "2 KBs"),
		{true, [2]int{0, -1}, func(k kind) string { return k.list("allBodyEntries") }, func(k kind, es []dsio.Entry) string { return k.want(es) }},
		win(0, 1), win(1, 1), win(1, 5), win(0, 2), win(9, 2), win(0, 0), win(0, -1),
	}
}

const (
	bodyPath   = "/some/place/body.data"
	scriptPath = "/some/place/template.html"
)

// files knows what was given to a dataset
type files struct {
	ds           *dataset.Dataset
	body, script *body.Source
	k            kind
	es           []dsio.Entry
}

func encode(t *kit.T, k kind, es []dsio.Entry) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(k.st(), buf, es); err != nil {
		t.Failf("writing a body of %s: %v", k.name, err)
	}
	// CBOR objects are written in the order of their keys' encoding: entries take
	// the order they have in the body
	got, err := body.ReadBody(k.st(), bytes.NewReader(buf.Bytes()), len(es)+1)
	if err != nil || len(got) != len(es) {
		t.Failf("reading the body of %s: %s, error %v", k.name, body.ShowEntries(got), err)
	}
	if k.shape == "object" {
		copy(es, got)
	}
	return buf.Bytes()
}

func doc(k kind) *dataset.Dataset {
	return &dataset.Dataset{
		Name: `na<me"`, Peername: "peer", BodyPath: "/ipfs/body",
		Meta:      &dataset.Meta{Title: "A <title> & more", Description: `"quoted"`, Keywords: []string{"x", "y"}},
		Commit:    &dataset.Commit{Title: "commit's", Timestamp: time.Unix(1000000000, 0).UTC()},
		Structure: k.st(),
		Viz:       &dataset.Viz{Format: "html", ScriptPath: "/ipfs/script"},
		Transform: &dataset.Transform{Syntax: "starlark", Secrets: map[string]string{"s": "hidden"}},
		Readme:    &dataset.Readme{Format: "md"},
		Stats:     &dataset.Stats{Path: "/stats"},
	}
}

func open(k kind, es []dsio.Entry, data []byte, chunk int) *files {
	f := &files{ds: doc(k), k: k, es: es, body: body.NewSource(data, chunk, false)}
	f.ds.SetBodyFile(qfs.NewMemfileReaderSize(bodyPath, f.body, int64(len(data))))
	return f
}

func (f *files) setScript(tmpl string, chunk int) {
	f.script = body.NewSource([]byte(tmpl), chunk, false)
	f.ds.Viz.SetScriptFile(qfs.NewMemfileReaderSize(scriptPath, f.script, int64(len(tmpl))))
}

func render(t *kit.T, ctx string, f *files) (string, error) {
	t.Op(1)
	before, _ := json.Marshal(f.ds)
	file, err := dsviz.Render(f.ds)
	after, _ := json.Marshal(f.ds)
	if string(before) != string(after) {
		t.Failf("%s: rendering changed the dataset from %s to %s", ctx, before, after)
	}
	if err != nil {
		if file != nil {
			t.Failf("%s: error %v beside a file", ctx, err)
		}
		return "", err
	}
	if file == nil {
		t.Failf("%s: neither file nor error", ctx)
	}
	if name := file.FileName(); name != "index.html" {
		t.Failf("%s: output is named %q", ctx, name)
	}
	out, err := ioutil.ReadAll(file)
	if err != nil {
		t.Failf("%s: output cannot be read: %v", ctx, err)
	}
	return string(out), nil
}

// intact reads both files and compares them with what they held at first: all
// bytes before a fault, and the fault again.
func (f *files) intact(t *kit.T, ctx string) {
	check := func(what string, file qfs.File, src *body.Source, path string) {
		if src == nil {
			return
		}
		if file == nil {
			t.Failf("%s: the %s is gone", ctx, what)
		}
		got, err := ioutil.ReadAll(file)
		want, fault := src.Data, false
		if src.Fail >= 0 {
			want, fault = want[:src.Fail], true
		}
		if !bytes.Equal(got, want) || (err != nil) != fault {
			t.Failf("%s: afterwards the %s reads %d bytes %.80q, error %v; it has %d bytes %.80q", ctx, what, len(got), got, err, len(want), want)
		}
		if file.FullPath() != path {
			t.Failf("%s: afterwards the %s has path %q, not %q", ctx, what, file.FullPath(), path)
		}
		if sf, ok := file.(qfs.SizeFile); !ok || sf.Size() != int64(len(src.Data)) {
			t.Failf("%s: afterwards the %s does not know its size", ctx, what)
		}
	}
	check("body", f.ds.BodyFile(), f.body, bodyPath)
	check("template", f.ds.Viz.ScriptFile(), f.script, scriptPath)
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s… %d bytes", s[:300], len(s))
	}
	return s
}

func run(r *kit.Run) {
	ks, os := kinds(), ops()
	chunks := []int{0, 1, 7}

	r.Explore("templates", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := c.Choose(4)
		chunk := kit.Pick(c, chunks[:r.T0(2, 3)])
		var seq []op
		for i, m := 0, c.Range(1, r.T0(2, 3)); i < m; i++ {
			seq = append(seq, kit.Pick(c, os))
		}
		return func(t *kit.T) {
			es := k.entries(n)
			f := open(k, es, encode(t, k, es), chunk)
			tmpl, want := "", ""
			for _, o := range seq {
				tmpl += o.tmpl(k)
				want += o.want(k, es)
			}
			f.setScript(tmpl, chunk)
			for i := 0; i < 3; i++ {
				ctx := fmt.Sprintf("%s of %d entries, render %d of %q", k.name, n, i, tmpl)
				got, err := render(t, ctx, f)
				if err != nil || got != want {
					t.Failf("%s: %q, error %v, instead of %q", ctx, got, err, want)
				}
			}
			f.intact(t, k.name+" "+tmpl)
			t.Trace()
		}
	})

	r.Explore("histories", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := kit.Pick(c, []int{0, 3})
		var seq []op
		for i := 0; i < r.T0(3, 4); i++ {
			seq = append(seq, kit.Pick(c, os[5:]))
		}
		return func(t *kit.T) {
			es := k.entries(n)
			f := open(k, es, encode(t, k, es), 5)
			for i, o := range seq {
				f.setScript(o.tmpl(k), 9)
				ctx := fmt.Sprintf("%s of %d entries, render %d of %q", k.name, n, i, o.tmpl(k))
				got, err := render(t, ctx, f)
				if want := o.want(k, es); err != nil || got != want {
					t.Failf("%s: %q, error %v, instead of %q", ctx, got, err, want)
				}
			}
			f.intact(t, k.name)
			t.Trace()
		}
	})

	r.Explore("windows", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := c.Choose(r.T0(5, 9))
		return func(t *kit.T) {
			es := k.entries(n)
			f := open(k, es, encode(t, k, es), 0)
			for o := -2; o <= n+1; o++ {
				for l := -2; l <= n+1; l++ {
					p := win(o, l)
					f.setScript(p.tmpl(k), 0)
					ctx := fmt.Sprintf("%s of %d entries, offset %d limit %d", k.name, n, o, l)
					got, err := render(t, ctx, f)
					if want := p.want(k, es); err != nil || got != want {
						t.Failf("%s: %q, error %v, instead of %q", ctx, got, err, want)
					}
				}
			}
			f.intact(t, k.name)
			t.Trace()
		}
	})

	r.Explore("large bodies", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := kit.Pick(c, []int{40, 200, 1100, 4000, 9000}[:r.T0(4, 5)])
		chunk := kit.Pick(c, []int{0, 511, 4096}[:r.T0(2, 3)])
		return func(t *kit.T) {
			es := k.entries(n)
			f := open(k, es, encode(t, k, es), chunk)
			for _, p := range []op{win(0, 1), win(n-1, 5), win(n/2, 3), win(0, n), os[5], win(1, 2), win(n, 1)} {
				f.setScript(p.tmpl(k), 0)
				ctx := fmt.Sprintf("%s of %d entries, %s", k.name, n, p.tmpl(k))
				got, err := render(t, ctx, f)
				if want := p.want(k, es); err != nil || got != want {
					t.Failf("%s: %q, error %v, instead of %q", ctx, clip(got), err, clip(want))
				}
			}
			f.intact(t, k.name)
			t.Trace()
		}
	})

	// every offset at which the body cannot be read any further
	r.Explore("unreadable body", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := c.Range(0, 3)
		p := kit.Pick(c, []int{1, 5, 6, 7, 8, 11})
		chunk := kit.Pick(c, []int{0, 3})
		return func(t *kit.T) {
			es := k.entries(n)
			data := encode(t, k, es)
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(len(data) + 1)
				f := open(k, es, data, chunk)
				f.body.Fail = at
				o := os[p]
				f.setScript("head"+o.tmpl(k)+"tail", 0)
				want := "head" + o.want(k, es) + "tail"
				// reading the same entries directly tells what there is to see
				fails := false
				if o.body {
					src := body.NewSource(data, chunk, false)
					src.Fail = at
					l, err := readWindow(k, src, o.win)
					fails = err != nil
					if !fails {
						want = "head" + k.want(l) + "tail"
					}
				}
				ctx := fmt.Sprintf("%s of %d entries failing at byte %d of %d, %s", k.name, n, at, len(data), o.tmpl(k))
				for i := 0; i < 2; i++ {
					got, err := render(t, ctx, f)
					if (err != nil) != fails || err == nil && got != want {
						t.Failf("%s: gave %q, error %v; instead of %q, fails %v", ctx, got, err, want, fails)
					}
				}
				f.intact(t, ctx)
				t.Trace()
			})
		}
	})
	r.Explore("damaged body", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		p := kit.Pick(c, []int{5, 6, 8})
		return func(t *kit.T) {
			data := encode(t, k, k.entries(3))
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(len(data))
				cut := append([]byte{}, data[:at]...)
				if c.Bool() {
					cut = append(append(cut, data[at]^0x15), data[at+1:]...)
				}
				es, rerr := body.ReadBody(k.st(), bytes.NewReader(cut), 1000)
				f := open(k, nil, cut, 0)
				o := os[p]
				f.setScript("head"+o.tmpl(k)+"tail", 0)
				ctx := fmt.Sprintf("%s, damaged to %q, %s", k.name, cut, o.tmpl(k))
				first, ferr := render(t, ctx, f)
				if p == 5 {
					if rerr != nil && ferr == nil {
						t.Failf("%s: reading the body fails with %v, rendering it gives %q", ctx, rerr, first)
					}
					unique := map[string]bool{}
					for _, e := range es {
						unique[e.Key] = true
					}
					simple := k.shape != "object" || len(unique) == len(es)
					for _, e := range es {
						_, isRow := e.Value.([]interface{})
						simple = simple && isRow == (k.shape == "rows") && !strings.ContainsAny(fmt.Sprint(e), "\x00`=") && !strings.Contains(fmt.Sprint(e), "nil")
						_, isMap := e.Value.(map[string]interface{})
						simple = simple && !isMap
					}
					if simple && rerr == nil && (ferr != nil || first != "head"+o.want(k, es)+"tail") {
						t.Failf("%s: %q, error %v; the body reads as %s", ctx, first, ferr, body.ShowEntries(es))
					}
				}
				second, serr := render(t, ctx, f)
				if first != second || (ferr == nil) != (serr == nil) {
					t.Failf("%s: first %q, error %v; then %q, error %v", ctx, first, ferr, second, serr)
				}
				f.intact(t, ctx)
				t.Trace()
			})
		}
	})
	r.Explore("unreadable template", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, os), kit.Pick(c, os)
		chunk := kit.Pick(c, []int{0, 3})
		return func(t *kit.T) {
			k := ks[2]
			tmpl := a.tmpl(k) + b.tmpl(k)
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(len(tmpl) + 1)
				es := k.entries(2)
				f := open(k, es, encode(t, k, es), 0)
				f.setScript(tmpl, chunk)
				f.script.Fail = at
				ctx := fmt.Sprintf("template %q failing at byte %d", tmpl, at)
				for i := 0; i < 2; i++ {
					if got, err := render(t, ctx, f); err == nil {
						t.Failf("%s: %q and no error", ctx, got)
					}
				}
				f.intact(t, ctx)
				t.Trace()
			})
		}
	})

	// broken templates
	bad := []string{"{{", "}}{{ end }}", "{{ end }}", "{{ if }}", "{{ if true }}", "{{ nofunc }}", "{{ .NoSuchField }}", "{{ bodyEntries }}", "{{ bodyEntries 1 }}", `{{ bodyEntries "a" 1 }}`, "{{ bodyEntries 0 1.5 }}",
		"{{ allBodyEntries 1 }}", `{{ isType 1 "bogus" }}`, `{{ isType 1 "" }}`, "{{ ds.meta.title.more.x }}", `{{ template "none" . }}`, `{{ filesize "x" }}`, "{{ range allBodyEntries }}{{ .x.y }}{{ end }}",
		"{{ index allBodyEntries 77 }}", "{{ title 1 }}", "<a href='{{ if true }}'{{ end }}"}
	r.Explore("broken templates", func(c *kit.C) func(t *kit.T) {
		b := kit.Pick(c, bad)
		pre := kit.Pick(c, os)
		post := kit.Pick(c, os)
		return func(t *kit.T) {
			k := ks[2]
			es := k.entries(2)
			f := open(k, es, encode(t, k, es), 0)
			f.setScript(pre.tmpl(k)+b+post.tmpl(k), 0)
			ctx := fmt.Sprintf("template %q", f.script.Data)
			if got, err := render(t, ctx, f); err == nil {
				t.Failf("%s: %q and no error", ctx, got)
			}
			f.intact(t, ctx)
			t.Trace()
		}
	})
	r.Explore("missing parts", func(c *kit.C) func(t *kit.T) {
		miss := c.Choose(11)
		p := kit.Pick(c, os)
		return func(t *kit.T) {
			k := ks[2]
			es := k.entries(2)
			f := open(k, es, encode(t, k, es), 0)
			f.setScript("head"+p.tmpl(k), 0)
			want, fail := "head"+p.want(k, es), p.body
			switch miss {
			case 0:
				f.ds.Viz, fail, f.script = nil, true, nil
			case 1:
				f.ds.Viz.SetScriptFile(nil)
				fail, f.script = true, nil
			case 2:
				f.ds.Viz.Format, fail = "", true
			case 3:
				f.ds.Viz.Format, fail = "WebGL", true
			case 4:
				f.ds.SetBodyFile(nil)
				f.body = nil
			case 5:
				f.ds.Structure = nil
			case 6:
				f.ds.Structure.Schema = nil
			case 7:
				f.ds.Structure.Format = "nonsense"
			case 8:
				f.ds.Structure.Compression = "nonsense"
			case 9:
				f.setScript("", 0)
				want, fail = "", false
			case 10:
				f.setScript("{{ title }}", 0)
				f.ds.Meta.Title = ""
				want, fail = "peer/na&lt;me&#34;", false
			}
			ctx := fmt.Sprintf("case %d of missing parts, %s", miss, p.tmpl(k))
			for i := 0; i < 2; i++ {
				got, err := render(t, ctx, f)
				if (err != nil) != fail || err == nil && got != want {
					t.Failf("%s: %q, error %v; instead of %q, fails %v", ctx, got, err, want, fail)
				}
			}
			if f.ds.Viz != nil {
				f.intact(t, ctx)
			}
			t.Trace()
		}
	})

	// what the files know of their size stays as it was
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		how, script := c.Choose(body.Sizes), c.Choose(body.Sizes)
		tmpl := kit.Pick(c, []string{"x", "{{ len allBodyEntries }}", "{{ bodyEntries 0 1 }}{{ bodyEntries 1 1 }}", "{{ .Bogus }}{{ len allBodyEntries }}", "{{ len allBodyEntries }}{{ .Bogus }}"})
		return func(t *kit.T) {
			es := k.entries(2)
			data := encode(t, k, es)
			f := open(k, es, data, 0)
			f.setScript(tmpl, 0)
			f.ds.SetBodyFile(body.File(bodyPath, f.body, len(data), how))
			f.ds.Viz.SetScriptFile(body.File(scriptPath, f.script, len(tmpl), script))
			for i := 0; i < 2; i++ {
				_, err := render(t, tmpl, f)
				if b := f.ds.BodyFile(); b == nil || !body.SameSize(b, len(data), how) {
					t.Failf("%s (error %v): a body of %d bytes that knows its size as %d is afterwards %#v", tmpl, err, len(data), how, b)
				}
				if s := f.ds.Viz.ScriptFile(); s == nil || !body.SameSize(s, len(tmpl), script) {
					t.Failf("%s (error %v): a script of %d bytes that knows its size as %d is afterwards %#v", tmpl, err, len(tmpl), script, s)
				}
			}
			t.Trace()
		}
	})

	// the title is the meta's, else the name of the dataset
	r.Explore("titles", func(c *kit.C) func(t *kit.T) {
		meta := c.Choose(4)
		peer, name := kit.Pick(c, []string{"", "p", "a b", "<p>", "é"}), kit.Pick(c, []string{"", "n", "a/b", "&n"})
		return func(t *kit.T) {
			k := ks[0]
			f := open(k, nil, []byte("[]"), 0)
			f.ds.Peername, f.ds.Name = peer, name
			f.ds.Meta = &dataset.Meta{Description: "d"}
			want := html.EscapeString(peer + "/" + name)
			switch meta {
			case 0:
				f.ds.Meta = nil
			case 2:
				f.ds.Meta.Title, want = "t", "t"
			case 3:
				f.ds.Meta.Title, want = " <", " &lt;"
			}
			f.setScript("{{ title }}", 0)
			for i := 0; i < 2; i++ {
				if got, err := render(t, "title", f); err != nil || got != want {
					t.Failf("the title of %q/%q, meta %d: %q, error %v, instead of %q", peer, name, meta, got, err, want)
				}
			}
			t.Trace()
			t.State(want)
		}
	})

	// types and sizes
	r.Explore("isType", func(c *kit.C) func(t *kit.T) {
		vals := []struct {
			v interface{}
			t string
		}{{"s", "string"}, {"", "string"}, {"12", "string"}, {true, "boolean"}, {false, "boolean"}, {int64(0), "number"}, {int64(-7), "number"}, {2.5, "number"}, {int64(math.MaxInt64), "number"},
			{uint64(math.MaxUint64), "number"}, {map[string]interface{}{}, "object"}, {map[string]interface{}{"a": int64(1)}, "object"}, {[]interface{}{}, "array"}, {[]interface{}{"a"}, "array"}, {nil, ""}}
		v := kit.Pick(c, vals)
		format := kit.Pick(c, []string{"json", "cbor", "ndjson"})
		nest := c.Bool()
		if _, ok := v.v.(uint64); ok && format != "cbor" {
			return nil
		}
		return func(t *kit.T) {
			k := kind{format, "scalars", func() *dataset.Structure { return body.St(format, "", body.Arr(), nil) }}
			es := []dsio.Entry{{Value: v.v}}
			expr := "{{ range allBodyEntries }}"
			if nest {
				es[0].Value = []interface{}{v.v}
				expr = "{{ range allBodyEntries }}{{ range . }}"
			}
			types := []string{"string", "object", "array", "boolean", "number"}
			want := ""
			for _, ty := range types {
				expr += fmt.Sprintf("{{ isType . %q }} ", ty)
				want += fmt.Sprint(ty == v.t) + " "
			}
			expr += "{{ end }}"
			if nest {
				expr += "{{ end }}"
			}
			f := open(k, es, encode(t, k, es), 0)
			f.setScript(expr, 0)
			ctx := fmt.Sprintf("types of %s in %s", body.Show(es[0].Value), format)
			got, err := render(t, ctx, f)
			if err != nil || got != want {
				t.Failf("%s: %q, error %v, instead of %q (%v)", ctx, got, err, want, types)
			}
			t.Trace()
		}
	})
	r.Explore("isType of constants", func(c *kit.C) func(t *kit.T) {
		v := kit.Pick(c, []struct{ expr, t string }{{"1", "number"}, {"0", "number"}, {"-12", "number"}, {"1.5", "number"}, {`"s"`, "string"}, {`""`, "string"}, {"true", "boolean"}, {"false", "boolean"},
			{"(len allBodyEntries)", "number"}, {"(len ds.name)", "number"}, {"ds.meta", "object"}, {"ds.name", "string"}, {"allBodyEntries", "array"}})
		return func(t *kit.T) {
			for _, ty := range []string{"string", "object", "array", "boolean", "number"} {
				k := ks[0]
				f := open(k, nil, []byte("[]"), 0)
				f.ds.Name = "n"
				f.ds.Meta = &dataset.Meta{Title: "t"}
				expr := fmt.Sprintf("{{ isType %s %q }}", v.expr, ty)
				f.setScript(expr, 0)
				if got, err := render(t, expr, f); err != nil || got != fmt.Sprint(ty == v.t) {
					t.Failf("%s: %q, error %v", expr, got, err)
				}
			}
			t.Trace()
		}
	})
	r.Explore("filesize", func(c *kit.C) func(t *kit.T) {
		shift := c.Range(0, 5)
		mul := kit.Pick(c, []int64{1, 2, 3, 1023})
		off := kit.Pick(c, []int64{-1, 0, 1})
		return func(t *kit.T) {
			n := mul<<(10*uint(shift)) + off
			if int64(float64(n)) != n {
				return // numbers of a document are floats
			}
			unit, v := "byte", n
			for i, u := range []string{"KB", "MB", "GB", "TB", "PB"} {
				if n >= 1<<(10*uint(i+1)) {
					unit, v = u, n>>(10*uint(i+1))
				}
			}
			want := fmt.Sprintf("%d %s", v, unit)
			if v != 1 {
				want += "s"
			}
			k := ks[0]
			f := open(k, nil, []byte("[]"), 0)
			f.ds.Structure.Length = int(n)
			for _, tmpl := range []string{fmt.Sprintf("{{ filesize %d }}", n), "{{ filesize ds.structure.length }}"} {
				if n == 0 && tmpl == "{{ filesize ds.structure.length }}" {
					continue // a length of zero is not written in the document
				}
				f.setScript(tmpl, 0)
				if got, err := render(t, tmpl, f); err != nil || got != want {
					t.Failf("%s of %d: %q, error %v, instead of %q", tmpl, n, got, err, want)
				}
			}
			t.Trace()
		}
	})
	// every field of the dataset's document
	r.Case("fields", func(t *kit.T) {
		k := ks[5]
		es := k.entries(2)
		f := open(k, es, encode(t, k, es), 0)
		data, _ := json.Marshal(f.ds)
		var m map[string]interface{}
		json.Unmarshal(data, &m)
		n := 0
		var walk func(path string, v interface{})
		walk = func(path string, v interface{}) {
			switch x := v.(type) {
			case map[string]interface{}:
				for key, v := range x {
					walk(path+"."+key, v)
				}
			case []interface{}:
				for i, v := range x {
					if m, ok := v.(map[string]interface{}); ok {
						for key, v := range m {
							walk(fmt.Sprintf("(index %s %d).%s", path, i, key), v)
						}
					} else {
						walk(fmt.Sprintf("(index %s %d)", path, i), v)
					}
				}
			default:
				n++
				f.setScript("{{ "+path+" }}", 0)
				got, err := render(t, path, f)
				if want := escaper.Replace(fmt.Sprint(x)); err != nil || got != want {
					t.Failf("field %s: %q, error %v, instead of %q", path, got, err, want)
				}
			}
		}
		for key, v := range m {
			walk("ds."+key, v)
		}
		if n < 15 {
			t.Failf("only %d fields", n)
		}
		f.intact(t, "fields")
		t.Trace()
	})
	// predefined blocks
	r.Explore("predefined", func(c *kit.C) func(t *kit.T) {
		over := c.Choose(4)
		return func(t *kit.T) {
			dsviz.PredefinedHTMLTemplates = map[string]string{
				"one": `{{ block "b1" . }}<h1>{{ title }}</h1>{{ end }}`,
				"two": `{{ define "b2" }}<p>{{ ds.name }}</p>{{ end }}`,
			}
			defer func() { dsviz.PredefinedHTMLTemplates = nil }()
			k := ks[0]
			f := open(k, nil, []byte("[]"), 0)
			tmpl := `{{ template "b1" . }}{{ template "b2" . }}`
			w1, w2 := "<h1>A &lt;title&gt; &amp; more</h1>", "<p>na&lt;me&#34;</p>"
			if over&1 != 0 {
				tmpl += `{{ define "b1" }}mine{{ end }}`
				w1 = "mine"
			}
			if over&2 != 0 {
				tmpl += `{{ define "b2" }}{{ title }}{{ end }}`
				w2 = "A &lt;title&gt; &amp; more"
			}
			f.setScript(tmpl, 0)
			for i := 0; i < 40; i++ {
				got, err := render(t, tmpl, f)
				if err != nil || got != w1+w2 {
					t.Failf("%s: %q, error %v, instead of %q", tmpl, got, err, w1+w2)
				}
			}
			f.intact(t, tmpl)
			t.Trace()
		}
	})
}
