// C03: a document is written as a bare path exactly when it has nothing else.
package main

import (
	"bytes"
	"encoding/json"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C03", Level: "model_checking",
		Rule:   "every subset of fields (path and kind included) of every component and of a dataset, in three value variants (in one of them all texts are equal): emptiness, bare-path encoding and always-an-object encoding against the set of fields; every reference text decoded into fresh and used values",
		Bounds: "all 2^n field subsets in three value variants",
		Body:   body})
}

type emptier interface{ IsEmpty() bool }
type objecter interface{ MarshalJSONObject() ([]byte, error) }

func check(t *kit.T, k *comp.Kind, a comp.A) {
	t.Logf("%s", k.String(a))
	c := k.Build(a)
	want := !k.HasContent(a)
	if got := c.(emptier).IsEmpty(); got != want {
		t.Failf("IsEmpty of %s is %v", k.String(a), got)
	}
	data, err := json.Marshal(c)
	if err != nil {
		t.Failf("%v", err)
	}
	t.Op(2)
	pi := k.Index("path")
	ref := want && a[pi] != 0
	isString := len(data) > 0 && data[0] == '"'
	if isString != ref {
		t.Failf("%s encodes to %s", k.String(a), data)
	}
	if ref {
		var s string
		json.Unmarshal(data, &s)
		if comp.Dump(s) != k.ValDump(pi, a[pi]) {
			t.Failf("%s encodes to path %q", k.String(a), s)
		}
	} else if data[0] != '{' {
		t.Failf("%s encodes to %s, neither path nor object", k.String(a), data)
	}
	if o, ok := c.(objecter); ok {
		ob, err := o.MarshalJSONObject()
		t.Op(1)
		if err != nil {
			t.Failf("%v", err)
		}
		var m map[string]interface{}
		if err := json.Unmarshal(ob, &m); err != nil {
			t.Failf("%s always-object encoding is %s", k.String(a), ob)
		}
		kind := k.Qri
		if i := k.Index("qri"); a[i] == 2 {
			kind = k.Qri[:3] + "1"
		}
		if m["qri"] != kind {
			t.Failf("%s always-object encoding %s has kind %v, want %s", k.String(a), ob, m["qri"], kind)
		}
		for i, fl := range k.Fields {
			n := fl.Name
			if fl.Role == comp.Custom {
				n = comp.CustomKey(a[i])
			}
			if a[i] == 0 || fl.Role == comp.Secret || (fl.Role == comp.Path && (k.Name == "readme" || k.Name == "viz")) {
				continue
			}
			if _, ok := m[n]; !ok {
				t.Failf("%s always-object encoding %s lacks %q", k.String(a), ob, n)
			}
		}
		if !ref && !bytes.Equal(ob, data) {
			t.Failf("%s: object encoding %s differs from encoding %s", k.String(a), ob, data)
		}
	}
	t.Trace()
	t.State(k.Name, data)
}

func body(r *kit.Run) {
	for _, k := range comp.All {
		k := k
		r.Explore(k.Name, func(c *kit.C) func(t *kit.T) {
			full := k.Uniform(kit.Pick(c, []int{1, 2, comp.Same}))
			a := make(comp.A, len(full))
			for i := range a {
				a[i] = full[i] * c.Choose(2)
			}
			return func(t *kit.T) { check(t, k, a) }
		})
		r.Explore(k.Name+"/decode-ref", func(c *kit.C) func(t *kit.T) {
			s := kit.Pick(c, []string{"", "a", "/ipfs/QmX", "mem://x y", "{}", "[1]", "null", "é\"\\\n<>\u2028", "{\"path\":\"x\"}"})
			pre := c.Choose(3)
			return func(t *kit.T) {
				data, _ := json.Marshal(s)
				d := k.New()
				if pre > 0 {
					d = k.Build(k.Uniform(pre))
				}
				if err := json.Unmarshal(data, d); err != nil {
					t.Failf("decoding %s: %v", data, err)
				}
				t.Op(1)
				for i, fl := range k.Fields {
					want := ""
					if fl.Role == comp.Path {
						want = comp.Dump(s)
					}
					if got := k.Get(d, i); got != want {
						t.Failf("decoding reference %s into %s: field %q is %s, want %s", data, k.Name, fl.Name, got, want)
					}
				}
				if !d.(emptier).IsEmpty() {
					t.Failf("decoded reference is not empty")
				}
				if s != "" {
					b, err := json.Marshal(d)
					if err != nil || !bytes.Equal(b, data) {
						t.Failf("reference %s re-encodes to %s (%v)", data, b, err)
					}
				}
				t.Trace()
				t.State(k.Name, s, pre)
			}
		})
	}
	r.Explore("constructors", func(c *kit.C) func(t *kit.T) {
		i := c.Choose(len(comp.All))
		p := kit.Pick(c, []string{"/ipfs/QmX", "a"})
		return func(t *kit.T) {
			k := comp.All[i]
			var d interface{}
			switch k.Name {
			case "commit":
				d = dataset.NewCommitRef(p)
			case "meta":
				d = dataset.NewMetaRef(p)
			case "structure":
				d = dataset.NewStructureRef(p)
			case "stats":
				d = dataset.NewStatsRef(p)
			case "transform":
				d = dataset.NewTransformRef(p)
			case "readme":
				d = dataset.NewReadmeRef(p)
			case "viz":
				d = dataset.NewVizRef(p)
			case "dataset":
				d = dataset.NewDatasetRef(p)
			}
			t.Op(1)
			b, err := json.Marshal(d)
			want, _ := json.Marshal(p)
			if err != nil || !bytes.Equal(b, want) {
				t.Failf("reference to %s encodes to %s (%v)", p, b, err)
			}
			for j, fl := range k.Fields {
				w := ""
				if fl.Role == comp.Path {
					w = comp.Dump(p)
				}
				if fl.Role == comp.Qri {
					continue
				}
				if g := k.Get(d, j); g != w {
					t.Failf("new %s reference: field %s is %s", k.Name, fl.Name, g)
				}
			}
			t.Trace()
			t.State(k.Name, p)
		}
	})
}
