// C01: components and datasets survive JSON encoding and decoding.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C01", Level: "model_checking",
		Rule:   "every subset of fields of every component and of a dataset, each set field taking its values uniformly, plus every pair of fields over all value combinations and every single custom metadata key; each encoded, decoded and compared field by field",
		Bounds: "all 2^n field subsets x 2 value variants per component (quick: for the meta and the dataset, subsets with at most 6 fields set or at most 3 unset); all pairs of (field,value); all custom metadata keys of the listed family; every field of every kind by 13 values of all JSON types",
		Body:   body})
}

// expect is the reference model: what field i must be after a round trip.
func expect(k *comp.Kind, a comp.A, i int) string {
	fl := k.Fields[i]
	ref := a[k.Index("path")] != 0 && !k.HasContent(a)
	switch fl.Role {
	case comp.Qri:
		if ref {
			return ""
		}
		if a[i] != 0 {
			return k.ValDump(i, a[i])
		}
		return comp.Dump(k.Qri)
	case comp.Secret:
		return ""
	case comp.Path:
		if (k.Name == "readme" || k.Name == "viz") && k.HasContent(a) {
			return ""
		}
	}
	return k.ValDump(i, a[i])
}

// afterNested is what a component dump in a dataset must be after a round trip.
func normal(k *comp.Kind, a comp.A) string {
	b := append(comp.A{}, a...)
	ref := a[k.Index("path")] != 0 && !k.HasContent(a)
	if ref {
		b[k.Index("qri")] = 0
	} else if b[k.Index("qri")] == 0 {
		b[k.Index("qri")] = 1 // the first value is the kind itself
	}
	if k.HasContent(a) && (k.Name == "readme" || k.Name == "viz") {
		b[k.Index("path")] = 0
	}
	if i := k.Index("secrets"); i >= 0 {
		b[i] = 0
	}
	return comp.Dump(k.Build(b))
}

var sub = map[string]*comp.Kind{"commit": &comp.Commit, "meta": &comp.Meta, "structure": &comp.Structure, "stats": &comp.Stats,
	"transform": &comp.Transform, "readme": &comp.Readme, "viz": &comp.Viz}

func check(t *kit.T, k *comp.Kind, a comp.A) {
	t.Logf("%s", k.String(a))
	c := k.Build(a)
	before := comp.Dump(c)
	data, err := json.Marshal(c)
	t.Op(1)
	if err != nil {
		t.Failf("encoding %s: %v", k.String(a), err)
	}
	t.Logf("encoded %s", data)
	if after := comp.Dump(c); after != before {
		t.Failf("encoding modified the value\nbefore %s\nafter  %s", before, after)
	}
	d := k.New()
	if err := json.Unmarshal(data, d); err != nil {
		t.Failf("decoding %s: %v", data, err)
	}
	t.Op(1)
	got := k.Fieldwise(d)
	for i, fl := range k.Fields {
		want := expect(k, a, i)
		if sk := sub[fl.Name]; k.Name == "dataset" && sk != nil && a[i] != 0 {
			sa := sk.Uniform(1)
			if a[i] == 2 {
				sa = sk.Only("path", 1)
			}
			want = normal(sk, sa)
		}
		if got[i] != want {
			t.Failf("field %q of %s after round trip through %s\nwant %s\ngot  %s", fl.Name, k.String(a), data, want, got[i])
		}
	}
	t.State(k.Name, data)
	t.Trace()
	t.Sample("%s -> %s", k.String(a), data)
}

func body(r *kit.Run) {
	for _, k := range comp.All {
		k := k
		r.Explore(k.Name+"/subsets", func(c *kit.C) func(t *kit.T) {
			v := kit.Pick(c, []int{1, 2, comp.Same})
			full := k.Uniform(v)
			a := make(comp.A, len(k.Fields))
			n, m := 0, 0
			for i := range a {
				if !r.Thorough && len(a) > 14 && n > 5 && m > 3 {
					continue // quick: at most 6 fields set or at most 3 unset
				}
				a[i] = full[i] * c.Choose(2)
				if a[i] != 0 {
					n++
				} else {
					m++
				}
			}
			if !r.Thorough && len(a) > 14 && n > 6 && m > 3 {
				return nil
			}
			return func(t *kit.T) { check(t, k, a) }
		})
		r.Explore(k.Name+"/pairs", func(c *kit.C) func(t *kit.T) {
			a := make(comp.A, len(k.Fields))
			i := c.Choose(len(k.Fields))
			j := c.Choose(len(k.Fields))
			if j <= i {
				return nil
			}
			a[i] = c.Choose(len(k.Fields[i].Vals) + 1)
			a[j] = c.Choose(len(k.Fields[j].Vals) + 1)
			return func(t *kit.T) { check(t, k, a) }
		})
	}
	// every component in every state nested in a dataset
	for _, k := range comp.Components {
		k := k
		r.Explore("dataset/"+k.Name, func(c *kit.C) func(t *kit.T) {
			v := kit.Pick(c, []int{1, 2, comp.Same})
			full := k.Uniform(v)
			a := make(comp.A, len(k.Fields))
			n := 0
			for i := range a {
				if len(k.Fields) > 12 && n >= 2 {
					continue
				}
				a[i] = full[i] * c.Choose(2)
				if a[i] != 0 {
					n++
				}
			}
			return func(t *kit.T) {
				ds := &dataset.Dataset{}
				setSub(ds, k.Build(a))
				before := comp.Dump(ds)
				data, err := json.Marshal(ds)
				if err != nil {
					t.Failf("%v", err)
				}
				if after := comp.Dump(ds); after != before {
					t.Failf("encoding modified the dataset\nbefore %s\nafter  %s", before, after)
				}
				out := &dataset.Dataset{}
				if err := json.Unmarshal(data, out); err != nil {
					t.Failf("decoding %s: %v", data, err)
				}
				want := &dataset.Dataset{Qri: "ds:0"}
				t.Op(2)
				if g := comp.Dump(getSub(out, k.Name)); g != normal(k, a) {
					t.Failf("component of dataset after round trip through %s\nwant %s\ngot  %s", data, normal(k, a), g)
				}
				clearSub(out, k.Name)
				if comp.Dump(out) != comp.Dump(want) {
					t.Failf("rest of dataset after round trip through %s: %s", data, comp.Dump(out))
				}
				t.State("ds", data)
				t.Trace()
			}
		})
	}
	// custom metadata under any key that is not a standard one
	keys := []string{"foo", "Foo", "data", "image", "length", "timestamp", "keyword", "custom", "meta", "a b", "", "é", "z<k>", "accessUrls", "titles", "formats",
		"body", "structure", "schema", "checksum", "pathname", "qris", "language2", "0", "null"}
	vals := []interface{}{"s", "", 1.5, nil, true, false, []interface{}{}, []interface{}{"x", nil, 2.0}, map[string]interface{}{}, map[string]interface{}{"k": []interface{}{"v"}}}
	r.Explore("meta/custom", func(c *kit.C) func(t *kit.T) {
		n := 1 + c.Choose(2)
		ks := make([]string, n)
		vs := make([]interface{}, n)
		for i := range ks {
			ks[i] = kit.Pick(c, keys)
			vs[i] = kit.Pick(c, vals)
		}
		if n == 2 && ks[1] <= ks[0] {
			return nil
		}
		setter := c.Choose(2)
		other := c.Choose(3) // nothing, path, title
		return func(t *kit.T) {
			md := &dataset.Meta{}
			want := map[string]interface{}{}
			for i := range ks {
				if setter == 0 {
					if err := md.Set(ks[i], vs[i]); err != nil {
						t.Failf("set %q: %v", ks[i], err)
					}
				} else {
					md.SetArbitrary(ks[i], vs[i])
				}
				want[ks[i]] = vs[i]
				t.Op(1)
			}
			switch other {
			case 1:
				md.Path = "/p"
			case 2:
				md.Title = "t"
			}
			if g := comp.Dump(md.Meta()); g != comp.Dump(want) {
				t.Failf("custom metadata set to %s reads back as %s", comp.Dump(want), g)
			}
			data, err := json.Marshal(md)
			if err != nil {
				t.Failf("%v", err)
			}
			out := &dataset.Meta{}
			if err := json.Unmarshal(data, out); err != nil {
				t.Failf("decoding %s: %v", data, err)
			}
			t.Op(2)
			if g := comp.Dump(out.Meta()); g != comp.Dump(want) {
				t.Failf("custom metadata through %s\nwant %s\ngot  %s", data, comp.Dump(want), g)
			}
			if out.Title != md.Title || out.Path != md.Path {
				t.Failf("standard fields through %s: title %q path %q", data, out.Title, out.Path)
			}
			t.State("custom", data)
			t.Trace()
		}
	})
	r.Explore("meta/set-standard", setStandard)
	r.Explore("decode-forms", decodeForms)
	r.Explore("wrong-type", wrongType)
}

// setStandard: Meta.Set on a standard key (any letter case, padded) sets the
// field that decoding that key from JSON sets.
func setStandard(c *kit.C) func(t *kit.T) {
	k := &comp.Meta
	i := c.Choose(len(k.Fields))
	fl := k.Fields[i]
	if fl.Role == comp.Custom || fl.Role == comp.Path {
		return nil
	}
	v := 1 + c.Choose(len(fl.Vals))
	casing := c.Choose(3)
	return func(t *kit.T) {
		b, err := json.Marshal(fl.Vals[v-1]())
		if err != nil {
			t.Failf("%v", err)
		}
		var val interface{}
		json.Unmarshal(b, &val)
		key := fl.Name
		switch casing {
		case 1:
			key = upper(key)
		case 2:
			key = " " + key + " "
		}
		md := &dataset.Meta{}
		if err := md.Set(key, val); err != nil {
			t.Failf("set %q to %s: %v", key, b, err)
		}
		for j := range k.Fields {
			want := ""
			if j == i {
				want = k.ValDump(i, v)
			}
			if got := k.Get(md, j); got != want {
				t.Failf("after setting %q: field %q is %s, want %s", key, k.Fields[j].Name, got, want)
			}
		}
		t.Op(1)
		t.Trace()
		t.State("set", key, b)
	}
}

// wrongType: a document that gives a field a value the field cannot hold is
// refused. What a field can hold is what its Go type decodes.
func wrongType(c *kit.C) func(t *kit.T) {
	k := comp.All[c.Choose(len(comp.All))]
	i := c.Choose(len(k.Fields))
	val := kit.Pick(c, []string{"1", "-1.5", "true", `"s"`, `""`, "[]", "[1]", `["a"]`, "{}", `{"a":1}`, `[{"a":{}}]`, "1e400", `{"a":"b"}`})
	full := c.Bool()
	first := c.Bool()
	fl := k.Fields[i]
	if fl.Role == comp.Custom {
		return nil
	}
	return func(t *kit.T) {
		p := reflect.New(fieldType(k.New(), fl.Name))
		ferr := json.Unmarshal([]byte(val), p.Interface())
		a := make(comp.A, len(k.Fields))
		if full {
			a = k.Uniform(1)
			a[i] = 0
		}
		data, err := json.Marshal(k.Build(a))
		if err != nil {
			t.Failf("%v", err)
		}
		rest := strings.TrimSuffix(strings.TrimPrefix(string(data), "{"), "}")
		if data[0] != '{' {
			rest = ""
		}
		doc := fmt.Sprintf("{%q:%s", fl.Name, val)
		if rest != "" && first {
			doc += "," + rest + "}"
		} else if rest != "" {
			doc = fmt.Sprintf("{%s,%q:%s}", rest, fl.Name, val)
		} else {
			doc += "}"
		}
		err = json.Unmarshal([]byte(doc), k.New())
		t.Op(1)
		if ferr != nil && err == nil {
			t.FailKey("wrong-type "+k.Name+"."+fl.Name, "%s with %q set to %s, which it cannot hold (%v), decodes without an error: %s", k.Name, fl.Name, val, ferr, doc)
		}
		t.Trace()
		t.State("wrong", k.Name, doc)
	}
}

// fieldType is the Go type of the field a document calls name.
func fieldType(c interface{}, name string) reflect.Type {
	st := reflect.TypeOf(c).Elem()
	for i := 0; i < st.NumField(); i++ {
		f := st.Field(i)
		tag := strings.Split(f.Tag.Get("json"), ",")[0]
		if f.PkgPath == "" && tag != "-" && (tag == name || tag == "" && strings.EqualFold(f.Name, name)) {
			return f.Type
		}
	}
	var any interface{}
	return reflect.TypeOf(&any).Elem()
}

func upper(s string) string {
	b := []byte(s)
	for i, x := range b {
		if x >= 'a' && x <= 'z' {
			b[i] = x - 32
		}
	}
	return string(b)
}

// decodeForms: decoding overwrites whatever the receiver held, and the
// Unmarshal* helpers accept pointer, value and bytes alike.
func decodeForms(c *kit.C) func(t *kit.T) {
	k := comp.All[c.Choose(len(comp.All))]
	pre := k.Uniform(2)
	a := []comp.A{k.Uniform(1), k.Only("path", 2), make(comp.A, len(k.Fields))}[c.Choose(3)]
	return func(t *kit.T) {
		data, err := json.Marshal(k.Build(a))
		if err != nil {
			t.Failf("%v", err)
		}
		fresh := k.New()
		if err := json.Unmarshal(data, fresh); err != nil {
			t.Failf("%v", err)
		}
		used := k.Build(pre)
		if err := json.Unmarshal(data, used); err != nil {
			t.Failf("%v", err)
		}
		t.Op(3)
		if comp.Dump(used) != comp.Dump(fresh) {
			t.Failf("decoding %s into a used %s keeps old values\nfresh %s\nused  %s", data, k.Name, comp.Dump(fresh), comp.Dump(used))
		}
		var viaBytes, viaPtr, viaVal interface{}
		var errs [3]error
		orig := k.Build(a)
		switch o := orig.(type) {
		case *dataset.Dataset:
			viaBytes, errs[0] = dataset.UnmarshalDataset(data)
			viaPtr, errs[1] = dataset.UnmarshalDataset(o)
			viaVal, errs[2] = dataset.UnmarshalDataset(*o)
		case *dataset.Commit:
			viaBytes, errs[0] = dataset.UnmarshalCommit(data)
			viaPtr, errs[1] = dataset.UnmarshalCommit(o)
			viaVal, errs[2] = dataset.UnmarshalCommit(*o)
		case *dataset.Structure:
			viaBytes, errs[0] = dataset.UnmarshalStructure(data)
			viaPtr, errs[1] = dataset.UnmarshalStructure(o)
			viaVal, errs[2] = dataset.UnmarshalStructure(*o)
		case *dataset.Transform:
			viaBytes, errs[0] = dataset.UnmarshalTransform(data)
			viaPtr, errs[1] = dataset.UnmarshalTransform(o)
			viaVal, errs[2] = dataset.UnmarshalTransform(*o)
		case *dataset.Readme:
			viaBytes, errs[0] = dataset.UnmarshalReadme(data)
			viaPtr, errs[1] = dataset.UnmarshalReadme(o)
			viaVal, errs[2] = dataset.UnmarshalReadme(*o)
		case *dataset.Viz:
			viaBytes, errs[0] = dataset.UnmarshalViz(data)
			viaPtr, errs[1] = dataset.UnmarshalViz(o)
			viaVal, errs[2] = dataset.UnmarshalViz(*o)
		default:
			return
		}
		for i, e := range errs {
			if e != nil {
				t.Failf("Unmarshal%s form %d: %v", k.Name, i, e)
			}
		}
		t.Op(3)
		if comp.Dump(viaBytes) != comp.Dump(fresh) || comp.Dump(viaPtr) != comp.Dump(orig) || comp.Dump(viaVal) != comp.Dump(orig) {
			t.Failf("Unmarshal%s forms disagree: bytes %s ptr %s val %s", k.Name, comp.Dump(viaBytes), comp.Dump(viaPtr), comp.Dump(viaVal))
		}
		t.Trace()
		t.State("forms", k.Name, data)
	}
}

func setSub(ds *dataset.Dataset, c interface{}) {
	switch x := c.(type) {
	case *dataset.Commit:
		ds.Commit = x
	case *dataset.Meta:
		ds.Meta = x
	case *dataset.Structure:
		ds.Structure = x
	case *dataset.Stats:
		ds.Stats = x
	case *dataset.Transform:
		ds.Transform = x
	case *dataset.Readme:
		ds.Readme = x
	case *dataset.Viz:
		ds.Viz = x
	}
}

func getSub(ds *dataset.Dataset, n string) interface{} {
	return map[string]interface{}{"commit": ds.Commit, "meta": ds.Meta, "structure": ds.Structure, "stats": ds.Stats, "transform": ds.Transform, "readme": ds.Readme, "viz": ds.Viz}[n]
}

func clearSub(ds *dataset.Dataset, n string) {
	switch n {
	case "commit":
		ds.Commit = nil
	case "meta":
		ds.Meta = nil
	case "structure":
		ds.Structure = nil
	case "stats":
		ds.Stats = nil
	case "transform":
		ds.Transform = nil
	case "readme":
		ds.Readme = nil
	case "viz":
		ds.Viz = nil
	}
}
