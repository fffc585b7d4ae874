// C39: test cases are loaded exactly as they are on disk.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/qfs"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C39", Level: "model_checking",
		Rule:   "every subset of the files of a test case, each with any of its contents, several body formats included, loaded twice; every directory of up to 3 cases of every kind; the checksum of every pair of datasets that differ in up to two fields, and the golden file written for each",
		Bounds: "2 or 3 contents per file; pairs of field values",
		Body:   run})
}

type file struct {
	name     string
	contents []string // the first: not there
}

var docs = []string{"-", `{"name":"other","meta":{"title":"t","x":[1]},"structure":{"format":"csv"},"transform":{"syntax":"s"},"viz":{"format":"html"},"readme":{"format":"md"},"commit":{"title":"c"}}`, `{}`, `"/ipfs/QmRef"`, `{"meta":3}`, ``}

func docErr(s string) bool { return s == docs[4] || s == docs[5] }

var bodies = []string{"cbor", "json", "csv", "xlsx", "ndjson"}

// read a file given by the code to the end, as often as asked.
func content(f qfs.File) string {
	if f == nil {
		return "-"
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func scratch() (string, func()) {
	dir, err := ioutil.TempDir("", "c39")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func put(dir, name, s string) {
	if s == "-" {
		return
	}
	if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(s), 0600); err != nil {
		panic(err)
	}
}

type kase struct {
	input, expect           string
	tf, viz, readme, render string
	body                    map[string]string
}

func (k kase) write(dir string) {
	put(dir, "input.dataset.json", k.input)
	put(dir, "expect.dataset.json", k.expect)
	put(dir, "transform.star", k.tf)
	put(dir, "template.html", k.viz)
	put(dir, "readme.md", k.readme)
	put(dir, "rendered.html", k.render)
	for f, s := range k.body {
		put(dir, "body."+f, s)
	}
}

// theBody is the first body there is, in the order of the supported formats.
func (k kase) theBody() (name, s string) {
	for _, f := range bodies {
		if s, ok := k.body[f]; ok && s != "-" {
			return "body." + f, s
		}
	}
	return "", "-"
}

func (k kase) String() string {
	b, _ := json.Marshal([]interface{}{k.input, k.expect, k.tf, k.viz, k.readme, k.render, k.body})
	return string(b)
}

// fails: whether loading has to fail
func (k kase) fails() bool {
	if k.input != "-" && docErr(k.input) || k.expect != "-" && docErr(k.expect) {
		return true
	}
	_, b := k.theBody()
	return k.input == "-" && k.expect == "-" && b == "-" && k.tf == "-" && k.viz == "-" && k.readme == "-"
}

func decoded(s string) *dataset.Dataset {
	if s == "-" {
		return nil
	}
	ds := &dataset.Dataset{}
	if err := json.Unmarshal([]byte(s), ds); err != nil {
		panic(err)
	}
	return ds
}

func present(b []byte, is bool) string {
	if !is {
		return "-"
	}
	return string(b)
}

func (k kase) check(t *kit.T, ctx, dir string, tc dstest.TestCase) {
	eq := func(what, got, want string) {
		if got != want {
			t.Failf("%s: %s is %q, want %q", ctx, what, got, want)
		}
	}
	eq("name", tc.Name, filepath.Base(dir))
	eq("path", tc.Path, dir)
	name, b := k.theBody()
	eq("body", present(tc.Body, tc.Body != nil), b)
	eq("body file name", tc.BodyFilename, name)
	eq("transform script", present(tc.TransformScript, tc.TransformScript != nil), k.tf)
	eq("viz script", present(tc.VizScript, tc.VizScript != nil), k.viz)
	eq("readme script", present(tc.ReadmeScript, tc.ReadmeScript != nil), k.readme)
	if b != "-" {
		eq("body of the case's file", content(tc.BodyFile()), b)
	}
	for _, f := range []struct {
		what, want, name string
		f                func() (qfs.File, bool)
	}{{"transform script file", k.tf, "transform.star", tc.TransformScriptFile}, {"viz script file", k.viz, "template.html", tc.VizScriptFile}, {"readme script file", k.readme, "readme.md", tc.ReadmeScriptFile}} {
		for i := 0; i < 2; i++ { // each call gives a fresh file
			file, ok := f.f()
			t.Op(1)
			if ok != (f.want != "-") {
				t.Failf("%s: %s: there is one: %v", ctx, f.what, ok)
			}
			if ok {
				eq(f.what, content(file), f.want)
				eq(f.what+" name", file.FileName(), f.name)
			}
		}
	}
	rf, err := tc.RenderedFile()
	if (err == nil) != (k.render != "-") {
		t.Failf("%s: rendered file: %v", ctx, err)
	}
	if err == nil {
		eq("rendered file", content(rf), k.render)
		rf.Close()
	}
	// the datasets
	in := decoded(k.input)
	if in == nil {
		in = &dataset.Dataset{}
	}
	in.Name = filepath.Base(dir)
	if k.tf != "-" && in.Transform == nil {
		in.Transform = &dataset.Transform{}
	}
	if k.viz != "-" && in.Viz == nil {
		in.Viz = &dataset.Viz{}
	}
	if k.readme != "-" && in.Readme == nil {
		in.Readme = &dataset.Readme{}
	}
	eq("input", comp.Dump(tc.Input), comp.Dump(in))
	eq("expect", comp.Dump(tc.Expect), comp.Dump(decoded(k.expect)))
	if tc.Input.BodyFile() != nil || b != "-" {
		eq("body of the input", content(tc.Input.BodyFile()), b)
	}
	if tf := tc.Input.Transform; tf != nil {
		eq("transform script of the input", content(tf.ScriptFile()), k.tf)
	}
	if v := tc.Input.Viz; v != nil {
		eq("viz script of the input", content(v.ScriptFile()), k.viz)
	}
	if rm := tc.Input.Readme; rm != nil {
		eq("readme of the input", content(rm.ScriptFile()), k.readme)
	}
}

func load(t *kit.T, k kase, dir string) {
	tc, err := dstest.NewTestCaseFromDir(dir)
	t.Op(1)
	if (err != nil) != k.fails() {
		t.Failf("case %s: error %v", k, err)
	}
	if err != nil {
		t.Trace()
		t.State("fails", k.String())
		return
	}
	k.check(t, "case "+k.String(), dir, tc)
	// what is done with one load doesn't show in the next
	if tc.Input.Meta != nil {
		tc.Input.Meta.Title = "changed"
		tc.Input.Meta.Set("x", "changed")
	}
	tc.Input.Commit = nil
	for i := range tc.Body {
		tc.Body[i] = 'X'
	}
	again, err := dstest.NewTestCaseFromDir(dir)
	t.Op(1)
	if err != nil {
		t.Failf("case %s, loaded again: %s", k, err)
	}
	k.check(t, "case "+k.String()+" loaded again", dir, again)
	// the pieces
	name, b := k.theBody()
	data, fn, err := dstest.ReadBodyData(dir)
	if (err == nil) != (b != "-") || err == nil && (string(data) != b || fn != name) {
		t.Failf("case %s: body data %q %q %v", k, data, fn, err)
	}
	if err != nil && !os.IsNotExist(err) {
		t.Failf("case %s: body data: %v", k, err)
	}
	for _, s := range []struct {
		what, name, want string
		f                func(string) ([]byte, string, error)
	}{
		{"transform script", "transform.star", k.tf, dstest.ReadInputTransformScript},
		{"viz script", "template.html", k.viz, dstest.ReadInputVizScript},
		{"readme", "readme.md", k.readme, dstest.ReadInputReadmeScript},
	} {
		data, fn, err := s.f(dir)
		if s.want == "-" {
			if !os.IsNotExist(err) {
				t.Failf("case %s: %s: %q %q %v", k, s.what, data, fn, err)
			}
		} else if err != nil || fn != s.name || string(data) != s.want {
			t.Failf("case %s: %s: %q %q %v", k, s.what, data, fn, err)
		}
	}
	for n, s := range map[string]string{"input.dataset.json": k.input, "expect.dataset.json": k.expect} {
		ds, err := dstest.ReadDataset(dir, n)
		if s == "-" {
			if !os.IsNotExist(err) {
				t.Failf("case %s: reading %s, which isn't there: %v", k, n, err)
			}
		} else if err != nil || comp.Dump(ds) != comp.Dump(decoded(s)) {
			t.Failf("case %s: reading %s: %s, %v", k, n, comp.Dump(ds), err)
		}
	}
	path, err := dstest.BodyFilepath(dir)
	if (err == nil) != (b != "-") || err == nil && path != dir+"/"+name {
		t.Failf("case %s: body path %q %v", k, path, err)
	}
	t.Op(2)
	t.Trace()
	t.State(k.String())
}

func run(r *kit.Run) {
	texts := []string{"-", "", "x = 1\n"}
	r.Explore("files of a case", func(c *kit.C) func(t *kit.T) {
		k := kase{input: kit.Pick(c, docs), expect: kit.Pick(c, docs), tf: kit.Pick(c, texts), viz: kit.Pick(c, texts), readme: kit.Pick(c, texts), body: map[string]string{}}
		k.render = kit.Pick(c, texts[:r.T0(2, 3)])
		k.body[bodies[c.Choose(5)]] = kit.Pick(c, texts)
		return func(t *kit.T) {
			dir, done := scratch()
			defer done()
			k.write(dir)
			load(t, k, dir)
		}
	})
	r.Explore("bodies", func(c *kit.C) func(t *kit.T) {
		k := kase{input: kit.Pick(c, docs[:2]), expect: "-", tf: "-", viz: "-", readme: "-", render: "-", body: map[string]string{}}
		for _, f := range bodies {
			switch c.Choose(3) {
			case 1:
				k.body[f] = "" + f
			case 2:
				k.body[f] = ""
			}
		}
		return func(t *kit.T) {
			dir, done := scratch()
			defer done()
			k.write(dir)
			put(dir, "body.txt", "not a body")
			put(dir, "bodyXcsv", "not a body")
			load(t, k, dir)
		}
	})
	kinds := []kase{
		{input: docs[1], expect: docs[2], tf: "a", viz: "b", readme: "c", render: "d", body: map[string]string{"csv": "e"}},
		{input: "-", expect: "-", tf: "-", viz: "-", readme: "-", render: "-"},
		{input: docs[4], expect: "-", tf: "-", viz: "-", readme: "-", render: "-"},
		{input: docs[2], expect: docs[5], tf: "-", viz: "-", readme: "-", render: "-"},
		{input: "-", expect: "-", tf: "-", viz: "-", readme: "-", render: "-", body: map[string]string{"json": "[]"}},
		{input: "-", expect: "-", tf: "", viz: "-", readme: "-", render: "-"},
	}
	r.Explore("directories of cases", func(c *kit.C) func(t *kit.T) {
		names := []string{"a", "b.c", "Z z"}
		var ks []int // 0: no such directory, 1: a file
		for range names {
			ks = append(ks, c.Choose(len(kinds)+2))
		}
		missing := c.Bool()
		return func(t *kit.T) {
			dir, done := scratch()
			defer done()
			var want []string
			for i, n := range names {
				switch {
				case ks[i] == 1:
					put(dir, n, "{}")
				case ks[i] > 1:
					k := kinds[ks[i]-2]
					if err := os.Mkdir(filepath.Join(dir, n), 0700); err != nil {
						panic(err)
					}
					k.write(filepath.Join(dir, n))
					if !k.fails() {
						want = append(want, n)
					}
				}
			}
			load := dir
			if missing {
				load = filepath.Join(dir, "missing")
			}
			tcs, err := dstest.LoadTestCases(load)
			t.Op(1)
			if (err != nil) != missing {
				t.Failf("cases of kinds %v: error %v", ks, err)
			}
			if err != nil {
				return
			}
			var got []string
			for n, tc := range tcs {
				got = append(got, n)
				for i := range names {
					if names[i] == n && ks[i] > 1 {
						kinds[ks[i]-2].check(t, fmt.Sprintf("cases of kinds %v, case %q", ks, n), filepath.Join(dir, n), tc)
					}
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				t.Failf("cases of kinds %v: loaded %q, want %q", ks, got, want)
			}
			t.Trace()
			t.State(fmt.Sprint(ks), len(got))
		}
	})

	r.Explore("checksums", func(c *kit.C) func(t *kit.T) {
		k := &comp.Dataset
		base := c.Choose(2)
		a, b := k.Uniform(base), k.Uniform(base)
		f, g := c.Choose(len(k.Fields)), c.Choose(len(k.Fields))
		set := func(x comp.A, f int) { x[f] = c.Choose(len(k.Fields[f].Vals) + 1) }
		set(a, f)
		set(b, g)
		return func(t *kit.T) {
			x, y := k.Build(a).(*dataset.Dataset), k.Build(b).(*dataset.Dataset)
			before := comp.Dump(x)
			sx, sy := dstest.DatasetChecksum(x), dstest.DatasetChecksum(y)
			t.Op(2)
			if dstest.DatasetChecksum(k.Build(a).(*dataset.Dataset)) != sx {
				t.Failf("dataset %s: two checksums", k.String(a))
			}
			if comp.Dump(x) != before {
				t.Failf("taking the checksum left %s, was %s", comp.Dump(x), before)
			}
			same := k.String(a) == k.String(b)
			if same != (sx == sy) {
				t.Failf("datasets %s and %s: checksums %s and %s", k.String(a), k.String(b), sx, sy)
			}
			t.Trace()
			t.State(k.String(a), k.String(b))
		}
	})

	r.Explore("golden files", func(c *kit.C) func(t *kit.T) {
		k := &comp.Dataset
		a := k.Uniform(c.Choose(3))
		for i := range a {
			if a[i] > len(k.Fields[i].Vals) {
				a[i] = 1
			}
		}
		f := c.Choose(len(k.Fields))
		a[f] = c.Choose(len(k.Fields[f].Vals) + 1)
		old := kit.Pick(c, []string{"-", "", "an old golden file that is longer than most of the new ones are, or should be"})
		update := c.Bool()
		return func(t *kit.T) {
			dir, done := scratch()
			defer done()
			put(dir, "golden.json", old)
			path := filepath.Join(dir, "golden.json")
			os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
			if update {
				os.Setenv(dstest.UpdateGoldenFileEnvVarname, "1")
			}
			stdout := os.Stdout
			os.Stdout, _ = os.Open(os.DevNull)
			ds := k.Build(a).(*dataset.Dataset)
			dstest.UpdateGoldenFileIfEnvVarSet(path, ds)
			os.Stdout.Close()
			os.Stdout = stdout
			os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
			t.Op(1)
			data, err := ioutil.ReadFile(path)
			t.Trace()
			t.State(k.String(a), old, update)
			if !update {
				if got := present(data, err == nil); got != old {
					t.Failf("golden file is %q, was %q, though not asked for", got, old)
				}
				return
			}
			want, err := json.Marshal(k.Build(a))
			if err != nil {
				panic(err)
			}
			got := &bytes.Buffer{}
			if err := json.Compact(got, data); err != nil || got.String() != string(want) {
				t.Failf("golden file of %s holds %q (%v), want %q", k.String(a), data, err, want)
			}
			// a golden file that was written is what later runs compare with
			back := &dataset.Dataset{}
			if err := json.Unmarshal(want, back); err != nil {
				return // C01
			}
			if g := dstest.LoadGoldenFile(&testing.T{}, path); comp.Dump(g) != comp.Dump(back) {
				t.Failf("golden file of %s is read as %s, want %s", k.String(a), comp.Dump(g), comp.Dump(back))
			}
		}
	})
}
