// C28: a preview is a bounded, faithful prefix that does not consume the dataset.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C28", Level: "fault_enumeration",
		Rule:   "previews of every body length and readme length around the limits in every format, of every subset of components, and with a read fault at every offset or damage to every byte of body and readme, taken on the real code and compared with the entries, bytes and documents given",
		Bounds: "bodies of 0 to 250 entries (thorough 6000) in 13 encodings, readmes of 0 to 5000 bytes, 256 subsets of components; one fault for each execution",
		Assume: []string{"reading the first entries directly tells which faults a preview has to notice (checked by C14)"},
		Body:   run})
}

type kind struct {
	name   string
	nested bool
	object bool
	st     func() *dataset.Structure
}

func kinds() []kind {
	table := func() map[string]interface{} { return body.Table("string", "integer", "boolean", "number") }
	k := func(name, format, comp string, schema func() map[string]interface{}, cfg map[string]interface{}) kind {
		return kind{name, format != "csv", name[len(name)-1] == '}', func() *dataset.Structure { return body.St(format, comp, schema(), cfg) }}
	}
	return []kind{
		k("json", "json", "", body.Arr, nil),
		k("json {}", "json", "", body.Obj, nil),
		k("pretty json", "json", "", body.Arr, map[string]interface{}{"pretty": true}),
		k("ndjson", "ndjson", "", body.Arr, nil),
		k("cbor", "cbor", "", body.Arr, nil),
		k("cbor {}", "cbor", "", body.Obj, nil),
		k("csv", "csv", "", table, nil),
		k("csv with header", "csv", "", table, map[string]interface{}{"headerRow": true}),
		k("csv with separator", "csv", "", table, map[string]interface{}{"separator": ";"}),
		k("csv gzip", "csv", "gzip", table, nil),
		k("csv zstd", "csv", "zstd", table, nil),
		k("json gzip {}", "json", "gzip", body.Obj, nil),
		k("cbor zstd", "cbor", "zstd", body.Arr, nil),
	}
}

func (k kind) entries(n int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		row := []interface{}{fmt.Sprintf("<é %d, \"q\">", i), int64(i - 1), i%2 == 0, 0.5 + float64(i)}
		es[i] = dsio.Entry{Index: i, Value: row}
		if k.nested {
			switch i % 5 {
			case 1:
				es[i].Value = map[string]interface{}{"a": row, "b": nil, "": map[string]interface{}{}}
			case 2:
				es[i].Value = "text\n\\ \u2028"
			case 3:
				es[i].Value = nil
			case 4:
				es[i].Value = []interface{}{}
			}
		}
		if k.object {
			es[i].Key = fmt.Sprintf("k\"%d", i*7919%10007)
		}
	}
	return es
}

const (
	bodyPath   = "/some/place/body.data"
	readmePath = "/some/place/readme.md"
	rows       = 100
	limit      = 997
)

func encode(t *kit.T, k kind, es []dsio.Entry) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(k.st(), buf, es); err != nil {
		t.Failf("writing a body of %s: %v", k.name, err)
	}
	got, err := body.ReadBody(k.st(), bytes.NewReader(buf.Bytes()), len(es)+1)
	if err != nil || len(got) != len(es) {
		t.Failf("reading the body of %s: %s, error %v", k.name, body.ShowEntries(got), err)
	}
	if k.object {
		copy(es, got) // in the order they have in the body
	}
	return buf.Bytes()
}

type files struct{ body, readme *body.Source }

func setBody(ds *dataset.Dataset, data []byte, chunk int) *body.Source {
	src := body.NewSource(data, chunk, false)
	ds.SetBodyFile(qfs.NewMemfileReaderSize(bodyPath, src, int64(len(data))))
	return src
}

func setReadme(ds *dataset.Dataset, data []byte, chunk int) *body.Source {
	src := body.NewSource(data, chunk, false)
	ds.Readme.SetScriptFile(qfs.NewMemfileReader(readmePath, src))
	return src
}

func (f files) intact(t *kit.T, ctx string, ds *dataset.Dataset) {
	check := func(what string, file qfs.File, src *body.Source, path string) {
		if file == nil {
			t.Failf("%s: the %s is gone", ctx, what)
		}
		got, err := ioutil.ReadAll(file)
		want, fault := src.Data, false
		if src.Fail >= 0 {
			want, fault = want[:src.Fail], true
		}
		if !bytes.Equal(got, want) || (err != nil) != fault {
			t.Failf("%s: afterwards the %s reads %d bytes %.80q, error %v; it has %d bytes %.80q", ctx, what, len(got), got, err, len(want), want)
		}
		if file.FullPath() != path {
			t.Failf("%s: afterwards the %s has path %q, not %q", ctx, what, file.FullPath(), path)
		}
	}
	if f.body != nil {
		check("body", ds.BodyFile(), f.body, bodyPath)
		if sf, ok := ds.BodyFile().(qfs.SizeFile); !ok || sf.Size() != int64(len(f.body.Data)) {
			t.Failf("%s: afterwards the body does not know its size", ctx)
		}
	}
	if f.readme != nil {
		check("readme", ds.Readme.ScriptFile(), f.readme, readmePath)
	}
}

// bare writes the document of a dataset without its body and readme text.
func bare(ds *dataset.Dataset) string {
	data, err := json.Marshal(ds)
	if err != nil {
		return "error " + err.Error()
	}
	m := map[string]interface{}{}
	json.Unmarshal(data, &m)
	delete(m, "body")
	if rm, ok := m["readme"].(map[string]interface{}); ok {
		delete(rm, "text")
		delete(rm, "scriptBytes")
	}
	data, _ = json.Marshal(m)
	secrets := ""
	if ds.Transform != nil {
		secrets = fmt.Sprint(ds.Transform.Secrets)
	}
	return string(data) + secrets
}

func create(t *kit.T, ctx string, ds *dataset.Dataset) (*dataset.Dataset, error) {
	t.Op(1)
	before := bare(ds)
	p, err := preview.Create(context.Background(), ds)
	if err != nil {
		if p != nil {
			t.Failf("%s: a preview beside error %v", ctx, err)
		}
	} else {
		if p == nil {
			t.Failf("%s: neither preview nor error", ctx)
		}
		if after := bare(p); after != before {
			t.Failf("%s: the preview is %s of dataset %s", ctx, after, before)
		}
	}
	if after := bare(ds); after != before {
		t.Failf("%s: the dataset became %s from %s", ctx, after, before)
	}
	return p, err
}

// checkBody compares a preview's body with entries
func checkBody(t *kit.T, ctx string, k kind, p *dataset.Dataset, es []dsio.Entry) {
	data, ok := p.Body.(json.RawMessage)
	if !ok || !json.Valid(data) {
		t.Failf("%s: the preview's body is %T %.300s", ctx, p.Body, data)
	}
	st := body.St("json", "", k.st().Schema, nil)
	got, err := body.ReadBody(st, bytes.NewReader(data), len(es)+1)
	if err != nil || !body.EqEntries(got, es, false, body.Eq) {
		t.Failf("%s: the preview's body of %d entries is %s, error %v; the body starts with %d, %s", ctx, len(got), body.ShowEntries(got), err, len(es), body.ShowEntries(es))
	}
	if open := data[0]; (open == '{') != k.object {
		t.Failf("%s: the preview's body starts with %q", ctx, open)
	}
}

func first(es []dsio.Entry) []dsio.Entry {
	if len(es) > rows {
		return es[:rows]
	}
	return es
}

func abridged(s string) string {
	if len(s) > limit {
		return s[:limit] + "..."
	}
	return s
}

func run(r *kit.Run) {
	ks := kinds()
	r.Explore("bodies", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		lens := []int{0, 1, 2, 3, 5, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 250, 1000, 2500, 6000}
		n := kit.Pick(c, lens[:r.T0(16, len(lens))])
		chunk := kit.Pick(c, []int{0, 1, 4096}[:r.T0(2, 3)])
		return func(t *kit.T) {
			es := k.entries(n)
			ds := &dataset.Dataset{Name: "n", Structure: k.st()}
			f := files{body: setBody(ds, encode(t, k, es), chunk)}
			for i := 0; i < 3; i++ {
				ctx := fmt.Sprintf("%s of %d entries, preview %d", k.name, n, i)
				p, err := create(t, ctx, ds)
				if err != nil {
					t.Failf("%s: %v", ctx, err)
				}
				checkBody(t, ctx, k, p, first(es))
			}
			f.intact(t, k.name, ds)
			t.Trace()
		}
	})

	// what the body knows of its size stays as it was
	r.Explore("sizes", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := kit.Pick(c, []int{0, 2, 101})
		how := c.Choose(body.Sizes)
		broken := c.Bool()
		return func(t *kit.T) {
			data := encode(t, k, k.entries(n))
			if broken {
				data = append([]byte("\xff"), data...)
			}
			ds := &dataset.Dataset{Name: "n", Structure: k.st()}
			ds.SetBodyFile(body.File(bodyPath, body.NewSource(data, 0, false), len(data), how))
			for i := 0; i < 2; i++ {
				t.Op(1)
				_, err := preview.Create(context.Background(), ds)
				if f := ds.BodyFile(); f == nil || !body.SameSize(f, len(data), how) {
					t.Failf("%s body of %d entries that knows its size as %d: afterwards %#v (error %v)", k.name, n, how, f, err)
				}
			}
			t.Trace()
		}
	})
	r.Explore("readmes", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 1, 2, 3, 10, 100, 500, 511, 512, 513, 990, 994, 995, 996, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 1536, 1994, 2000, 4096, 5000})
		unit := kit.Pick(c, []string{"x", "line\n", "é", "漢", "\xff"})
		chunk := kit.Pick(c, []int{0, 1, 100, 512, 997, 998})
		text := kit.Pick(c, []string{"", "preset"})
		return func(t *kit.T) {
			s := strings.Repeat(unit, n/len(unit)+1)[:n]
			ds := &dataset.Dataset{Name: "n", Readme: &dataset.Readme{Format: "md", Text: text}}
			f := files{readme: setReadme(ds, []byte(s), chunk)}
			for i := 0; i < 3; i++ {
				ctx := fmt.Sprintf("readme of %d bytes, preview %d", n, i)
				p, err := create(t, ctx, ds)
				if err != nil {
					t.Failf("%s: %v", ctx, err)
				}
				if p.Readme == nil || p.Readme.Text != abridged(s) {
					t.Failf("%s: readme text is %d bytes, ending %q", ctx, len(p.Readme.Text), p.Readme.Text[max(0, len(p.Readme.Text)-10):])
				}
			}
			f.intact(t, fmt.Sprint("readme of ", n), ds)
			t.Trace()
		}
	})

	// what stands at the edges of the readme and of what is kept of it
	r.Explore("readme edges", func(c *kit.C) func(t *kit.T) {
		const keep = 997
		at := kit.Pick(c, []int{0, 1, keep - 3, keep - 2, keep - 1, keep})
		rest := kit.Pick(c, []int{0, 1, 2, 3, 4, 500})
		piece := ""
		for i, n := 0, r.T0(3, 4); i < n; i++ {
			piece += kit.Pick(c, []string{"\n", " ", "\r", "\t", ".", "x", "\x00", "\xff", "\u00e9", "\u6f22", "\U0001F600", "<", "\\"})
		}
		chunk := kit.Pick(c, []int{0, 997})
		return func(t *kit.T) {
			s := strings.Repeat("a", at) + piece + strings.Repeat("b", rest)
			if at == 0 && rest == 500 {
				s += s
			}
			ds := &dataset.Dataset{Name: "n", Readme: &dataset.Readme{Format: "md"}}
			f := files{readme: setReadme(ds, []byte(s), chunk)}
			p, err := create(t, "readme", ds)
			if err != nil {
				t.Failf("readme %q: %v", s, err)
			}
			if p.Readme == nil || p.Readme.Text != abridged(s) {
				t.Failf("readme ending %q has preview ending %q", s[max(0, len(s)-20):], p.Readme.Text[max(0, len(p.Readme.Text)-20):])
			}
			f.intact(t, "readme", ds)
			t.Trace()
		}
	})

	// every subset of components
	full := func(sub int) *dataset.Dataset {
		ds := &dataset.Dataset{}
		for i, f := range []func(){
			func() {
				ds.Name, ds.Peername, ds.Path, ds.PreviousPath, ds.ProfileID, ds.ID = "n", "p", "/path", "/prev", "pid", "id"
				ds.BodyPath, ds.NumVersions = "/bp", 3
			},
			func() {
				m := &dataset.Meta{Title: "t", Keywords: []string{"a"}, License: &dataset.License{Type: "l"}, Path: "/m"}
				m.Set("custom", "x")
				ds.Meta = m
			},
			func() {
				ds.Commit = &dataset.Commit{Title: "c", Author: &dataset.User{ID: "u"}, Timestamp: time.Unix(1000, 0).UTC(), Signature: "s"}
			},
			func() {
				ds.Structure = body.St("json", "", body.Arr(), map[string]interface{}{"pretty": true})
				ds.Structure.Length, ds.Structure.Checksum, ds.Structure.Path = 5, "sum", "/st"
			},
			func() {
				ds.Stats = &dataset.Stats{Path: "/stats", Stats: []interface{}{map[string]interface{}{"type": "numeric", "count": 3.0}}}
			},
			func() { ds.Viz = &dataset.Viz{Format: "html", ScriptPath: "/v", RenderedPath: "/rendered", Text: "v"} },
			func() {
				ds.Transform = &dataset.Transform{Syntax: "s", Text: "t", Secrets: map[string]string{"k": "v"}, Steps: []*dataset.TransformStep{{Name: "st"}}}
			},
			func() { ds.Readme = &dataset.Readme{Format: "md", ScriptPath: "/r", Text: "text", RenderedPath: "/rr"} },
		} {
			if sub>>uint(i)&1 != 0 {
				f()
			}
		}
		return ds
	}
	r.Explore("components", func(c *kit.C) func(t *kit.T) {
		sub := c.Choose(256)
		withBody, withReadme, inline := c.Bool(), c.Bool(), c.Bool()
		if withBody && (sub>>3&1 == 0 || inline) || withReadme && sub>>7&1 == 0 {
			return nil
		}
		return func(t *kit.T) {
			ds := full(sub)
			f := files{}
			k := ks[0]
			es := k.entries(101)
			if withBody {
				f.body = setBody(ds, encode(t, k, es), 0)
			}
			text := strings.Repeat("r", 1200)
			if withReadme {
				f.readme = setReadme(ds, []byte(text), 0)
			}
			if inline {
				ds.Body = []interface{}{"inline"}
			}
			ctx := fmt.Sprintf("components %08b, body %v, readme %v, inline %v", sub, withBody, withReadme, inline)
			empty := ds.IsEmpty()
			for i := 0; i < 2; i++ {
				p, err := create(t, ctx, ds)
				if (err != nil) != empty {
					t.Failf("%s: error %v, dataset empty %v", ctx, err, empty)
				}
				if empty {
					break
				}
				if withBody {
					checkBody(t, ctx, k, p, first(es))
				} else if inline && !body.Eq(p.Body, []interface{}{"inline"}) || !inline && p.Body != nil {
					t.Failf("%s: body is %v", ctx, p.Body)
				}
				if p.Readme != nil {
					want := "text"
					if withReadme {
						want = abridged(text)
					}
					if p.Readme.Text != want {
						t.Failf("%s: readme text is %q", ctx, p.Readme.Text)
					}
				}
			}
			f.intact(t, ctx, ds)
			t.Trace()
		}
	})

	// faults
	direct := func(k kind, src *body.Source) ([]dsio.Entry, error) {
		rd, err := dsio.NewEntryReader(k.st(), src)
		if err != nil {
			return nil, err
		}
		defer rd.Close()
		return body.Drain(&dsio.PagedReader{Reader: rd, Limit: rows}, rows+1)
	}
	r.Explore("unreadable body", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		n := kit.Pick(c, []int{0, 1, 3, 101}[:r.T0(3, 4)])
		chunk := kit.Pick(c, []int{0, 3})
		return func(t *kit.T) {
			data := encode(t, k, k.entries(n))
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(len(data) + 1)
				src := body.NewSource(data, chunk, false)
				src.Fail = at
				es, rerr := direct(k, src)
				ds := &dataset.Dataset{Name: "n", Structure: k.st(), Readme: &dataset.Readme{}}
				f := files{body: setBody(ds, data, chunk), readme: setReadme(ds, []byte("text"), 0)}
				f.body.Fail = at
				ctx := fmt.Sprintf("%s of %d entries failing at byte %d of %d", k.name, n, at, len(data))
				for i := 0; i < 2; i++ {
					p, err := create(t, ctx, ds)
					if (err != nil) != (rerr != nil) {
						t.Failf("%s: error %v, reading the entries fails with %v", ctx, err, rerr)
					}
					if err == nil {
						checkBody(t, ctx, k, p, es)
					}
				}
				f.intact(t, ctx, ds)
				t.Trace()
			})
		}
	})
	r.Explore("damaged body", func(c *kit.C) func(t *kit.T) {
		k := kit.Pick(c, ks)
		return func(t *kit.T) {
			data := encode(t, k, k.entries(3))
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(len(data))
				cut := append([]byte{}, data[:at]...)
				if x := c.Choose(4); x > 0 {
					cut = append(append(cut, data[at]^[]byte{0, 0x15, 0x80, 0x01}[x]), data[at+1:]...)
				}
				es, rerr := direct(k, body.NewSource(cut, 0, false))
				ds := &dataset.Dataset{Name: "n", Structure: k.st()}
				f := files{body: setBody(ds, cut, 0)}
				ctx := fmt.Sprintf("%s, damaged to %q", k.name, cut)
				p, err := create(t, ctx, ds)
				if err == nil && rerr != nil {
					t.Failf("%s: the preview reports no error, reading the entries fails with %v", ctx, rerr)
				}
				// what JSON has no way to write is an error in a preview only
				if err == nil && clean(k, es) {
					checkBody(t, ctx, k, p, es)
				}
				if err != nil && rerr == nil && clean(k, es) {
					t.Failf("%s: error %v, the body reads as %s", ctx, err, body.ShowEntries(es))
				}
				f.intact(t, ctx, ds)
				t.Trace()
			})
		}
	})
	r.Explore("unreadable readme", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 5, 997, 998, 1100})
		chunk := kit.Pick(c, []int{0, 1, 600})
		return func(t *kit.T) {
			s := strings.Repeat("readme ", 200)[:n]
			t.Dyn(-1, func(c *kit.C) {
				at := c.Choose(n + 1)
				k := ks[0]
				ds := &dataset.Dataset{Name: "n", Structure: k.st(), Readme: &dataset.Readme{Text: "old"}}
				f := files{readme: setReadme(ds, []byte(s), chunk), body: setBody(ds, []byte("[1]"), 0)}
				f.readme.Fail = at
				ctx := fmt.Sprintf("readme of %d bytes failing at byte %d", n, at)
				for i := 0; i < 2; i++ {
					p, err := create(t, ctx, ds)
					if at > limit {
						if err != nil || p.Readme.Text != abridged(s) {
							t.Failf("%s: error %v, readme %v", ctx, err, p)
						}
					} else if err == nil {
						t.Failf("%s: no error, readme text %q", ctx, p.Readme.Text)
					}
				}
				f.intact(t, ctx, ds)
				t.Trace()
			})
		}
	})
	r.Explore("refused", func(c *kit.C) func(t *kit.T) {
		miss := c.Choose(8)
		k := kit.Pick(c, ks)
		return func(t *kit.T) {
			t.Op(1)
			switch miss {
			case 0:
				if p, err := preview.Create(context.Background(), nil); err == nil {
					t.Failf("preview of nothing: %v", p)
				}
				t.Trace()
				return
			case 1:
				if p, err := preview.Create(context.Background(), &dataset.Dataset{}); err == nil {
					t.Failf("preview of an empty dataset: %v", p)
				}
				t.Trace()
				return
			}
			ds := &dataset.Dataset{Name: "n", Structure: k.st(), Readme: &dataset.Readme{}}
			f := files{body: setBody(ds, encode(t, k, k.entries(3)), 0), readme: setReadme(ds, []byte("text"), 0)}
			switch miss {
			case 2:
				ds.Structure = nil
			case 3:
				ds.Structure.Schema = nil
			case 4:
				ds.Structure.Format = ""
			case 5:
				ds.Structure.Format = "nonsense"
			case 6:
				ds.Structure.Compression = "nonsense"
			case 7:
				ds.Structure.Schema = map[string]interface{}{"type": "string"}
			}
			ctx := fmt.Sprintf("case %d of unusable structures, %s", miss, k.name)
			if p, err := create(t, ctx, ds); err == nil {
				t.Failf("%s: %v", ctx, p)
			}
			f.intact(t, ctx, ds)
			t.Trace()
		}
	})
}

// clean tells entries that any JSON document can hold
func clean(k kind, es []dsio.Entry) bool {
	seen := map[string]bool{}
	var ok func(v interface{}) bool
	utf := func(s string) bool { return strings.ToValidUTF8(s, "") == s }
	ok = func(v interface{}) bool {
		switch x := v.(type) {
		case nil, bool, int64, int, float64:
			return true
		case string:
			return utf(x)
		case []interface{}:
			for _, e := range x {
				if !ok(e) {
					return false
				}
			}
			return true
		case map[string]interface{}:
			for k, e := range x {
				if !utf(k) || !ok(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, e := range es {
		// an object entry has to have a key to be written
		if e.Key != "" && seen[e.Key] || k.object && e.Key == "" || !utf(e.Key) || !ok(e.Value) {
			return false
		}
		seen[e.Key] = true
		if f, isF := e.Value.(float64); isF && (f != f || f-f != 0) {
			return false
		}
	}
	return true
}
