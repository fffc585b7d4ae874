// C04: Assign merges like Object.assign and leaves its sources alone.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C04", Level: "model_checking",
		Rule:   "every assignment history: a target and up to three sources (nil included), every value choice of every single field and of every pair of fields, whole-document states, map keys colliding and not, components nested in datasets, attached files; assigned in one call or one call per source",
		Bounds: "single fields: 3 sources; pairs of fields: 2 sources; whole documents: 3 sources; map keys: 2 keys x 2 values x 2 sources (3 thorough)",
		Body:   body})
}

// call assigns sources onto target through the real method.
func call(target interface{}, oneCall bool, sources []interface{}) {
	m := reflect.ValueOf(target).MethodByName("Assign")
	st := reflect.TypeOf(target)
	var args []reflect.Value
	for _, s := range sources {
		if s == nil {
			args = append(args, reflect.Zero(st))
		} else {
			args = append(args, reflect.ValueOf(s))
		}
	}
	if oneCall {
		m.Call(args)
		return
	}
	for _, a := range args {
		m.Call([]reflect.Value{a})
	}
}

var mergeFields = map[string]bool{"config": true, "resources": true, "secrets": true, "custom": true}

// model: the merged dump of field i given the variant sequence.
func model(k *comp.Kind, i int, vs []int) string {
	fl := k.Fields[i]
	if mergeFields[fl.Name] {
		return mergedDump(k, i, vs)
	}
	last := 0
	for _, v := range vs {
		if v != 0 && !(k.Name == "dataset" && fl.Name == "id" && last != 0) {
			last = v
		}
	}
	return k.ValDump(i, last)
}

// mergedDump builds the merged map from the alphabet values.
func mergedDump(k *comp.Kind, i int, vs []int) string {
	out := reflect.Value{}
	for _, v := range vs {
		if v == 0 {
			continue
		}
		val := k.Fields[i].Vals[v-1]()
		if k.Fields[i].Role == comp.Custom {
			val = map[string]interface{}{comp.CustomKey(v): val}
		}
		m := reflect.ValueOf(val)
		if !out.IsValid() {
			out = reflect.MakeMap(m.Type())
		}
		for _, key := range m.MapKeys() {
			out.SetMapIndex(key, m.MapIndex(key))
		}
	}
	if !out.IsValid() {
		return ""
	}
	return comp.Dump(out.Interface())
}

func run(t *kit.T, k *comp.Kind, target comp.A, sources []comp.A, oneCall bool) {
	tc := k.Build(target)
	var ss []interface{}
	var before []string
	for _, a := range sources {
		if a == nil {
			ss = append(ss, nil)
			before = append(before, "")
			continue
		}
		c := k.Build(a)
		ss = append(ss, c)
		before = append(before, comp.Dump(c))
	}
	desc := func() string {
		d := []string{"target " + k.String(target)}
		for _, a := range sources {
			if a == nil {
				d = append(d, "nil")
			} else {
				d = append(d, k.String(a))
			}
		}
		return strings.Join(d, " <- ")
	}
	call(tc, oneCall, ss)
	t.Op(len(sources))
	got := k.Fieldwise(tc)
	for i := range k.Fields {
		vs := []int{target[i]}
		for _, a := range sources {
			if a != nil {
				vs = append(vs, a[i])
			}
		}
		if want := model(k, i, vs); got[i] != want {
			t.Failf("%s (one call %v)\nfield %q\nwant %s\ngot  %s", desc(), oneCall, k.Fields[i].Name, want, got[i])
		}
	}
	for i, s := range ss {
		if s != nil && comp.Dump(s) != before[i] {
			t.Failf("%s: source %d was modified\nbefore %s\nafter  %s", desc(), i, before[i], comp.Dump(s))
		}
	}
	t.Trace()
	t.State(k.Name, strings.Join(got, "|"), len(sources))
}

func body(r *kit.Run) {
	for _, k := range comp.All {
		k := k
		r.Explore(k.Name+"/field", func(c *kit.C) func(t *kit.T) {
			i := c.Choose(len(k.Fields))
			n := len(k.Fields[i].Vals)
			one := c.Bool()
			bg := c.Choose(2) // background: other fields unset, or set on the target
			target := make(comp.A, len(k.Fields))
			if bg == 1 {
				target = k.Uniform(1)
			}
			if k.Name == "dataset" && subKind(k.Fields[i].Name) != nil {
				return nil // covered by nested sections
			}
			target[i] = c.Choose(n + 1)
			ns := c.Choose(4)
			var ss []comp.A
			for j := 0; j < ns; j++ {
				v := c.Choose(n + 2)
				if v == n+1 {
					ss = append(ss, nil)
					continue
				}
				a := make(comp.A, len(k.Fields))
				a[i] = v
				ss = append(ss, a)
			}
			return func(t *kit.T) { run(t, k, target, ss, one) }
		})
		r.Explore(k.Name+"/field-pair", func(c *kit.C) func(t *kit.T) {
			i := c.Choose(len(k.Fields))
			j := c.Choose(len(k.Fields))
			if j <= i || (k.Name == "dataset" && (subKind(k.Fields[i].Name) != nil || subKind(k.Fields[j].Name) != nil)) {
				return nil
			}
			mk := func() comp.A {
				a := make(comp.A, len(k.Fields))
				a[i] = c.Choose(len(k.Fields[i].Vals) + 1)
				a[j] = c.Choose(len(k.Fields[j].Vals) + 1)
				return a
			}
			target := mk()
			ss := []comp.A{mk(), mk()}
			return func(t *kit.T) { run(t, k, target, ss, true) }
		})
		if k.Name == "dataset" {
			continue
		}
		whole := func(c *kit.C) comp.A {
			switch c.Choose(5) {
			case 0:
				return make(comp.A, len(k.Fields))
			case 1:
				return k.Uniform(1)
			case 2:
				return k.Uniform(2)
			case 3:
				return k.Only("path", 2)
			}
			return nil
		}
		r.Explore(k.Name+"/whole", func(c *kit.C) func(t *kit.T) {
			target := whole(c)
			if target == nil {
				return nil
			}
			ss := []comp.A{whole(c), whole(c), whole(c)}
			one := c.Bool()
			return func(t *kit.T) { run(t, k, target, ss, one) }
		})
		// nested in datasets: merging datasets merges their components
		r.Explore("dataset/"+k.Name, func(c *kit.C) func(t *kit.T) {
			i := c.Choose(len(k.Fields))
			j := (i + 1) % len(k.Fields)
			mk := func() comp.A {
				v := c.Choose(5)
				if v == 0 {
					return nil // dataset without the component
				}
				a := make(comp.A, len(k.Fields))
				switch v {
				case 2:
					a[i] = 1
				case 3:
					a[i] = len(k.Fields[i].Vals)
				case 4:
					a[j] = 1
				}
				return a
			}
			target := mk()
			ss := []comp.A{mk(), mk(), mk()}
			one := c.Bool()
			return func(t *kit.T) { nested(t, k, target, ss, one) }
		})
	}
	// whole datasets
	r.Explore("dataset/whole", func(c *kit.C) func(t *kit.T) {
		k := &comp.Dataset
		pick := func() int { return c.Choose(4) } // nil, empty, plain fields, other plain fields
		ps := []int{1 + c.Choose(3), pick(), pick(), pick()}
		one := c.Bool()
		return func(t *kit.T) {
			mk := func(p int) comp.A {
				if p == 0 {
					return nil
				}
				a := make(comp.A, len(k.Fields))
				if p >= 2 {
					a = k.Uniform(p - 1)
					for i := range a {
						if subKind(k.Fields[i].Name) != nil {
							a[i] = 0
						}
					}
				}
				return a
			}
			run(t, k, mk(ps[0]), []comp.A{mk(ps[1]), mk(ps[2]), mk(ps[3])}, one)
		}
	})
	mapKeys(r)
	files(r)
	r.Explore("self", func(c *kit.C) func(t *kit.T) {
		k := comp.All[c.Choose(len(comp.All))]
		v := 1 + c.Choose(2)
		return func(t *kit.T) {
			x := k.Build(k.Uniform(v))
			before := comp.Dump(x)
			call(x, true, []interface{}{x, nil, x})
			t.Op(1)
			if comp.Dump(x) != before {
				t.Failf("assigning a %s to itself changed it\n%s\n%s", k.Name, before, comp.Dump(x))
			}
			t.Trace()
			t.State(before)
		}
	})
}

func subKind(n string) *comp.Kind {
	for _, k := range comp.Components {
		if k.Name == n {
			return k
		}
	}
	return nil
}

func wrap(k *comp.Kind, a comp.A) *dataset.Dataset {
	ds := &dataset.Dataset{}
	if a == nil {
		return ds
	}
	name := strings.ToUpper(k.Name[:1]) + k.Name[1:]
	reflect.ValueOf(ds).Elem().FieldByName(name).Set(reflect.ValueOf(k.Build(a)))
	return ds
}

func get(k *comp.Kind, ds *dataset.Dataset) interface{} {
	name := strings.ToUpper(k.Name[:1]) + k.Name[1:]
	v := reflect.ValueOf(ds).Elem().FieldByName(name)
	if v.IsNil() {
		return nil
	}
	return v.Interface()
}

func nested(t *kit.T, k *comp.Kind, target comp.A, sources []comp.A, one bool) {
	tc := wrap(k, target)
	var ss []interface{}
	var before []string
	any := target != nil
	for _, a := range sources {
		s := wrap(k, a)
		ss = append(ss, s)
		before = append(before, comp.Dump(s))
		any = any || a != nil
	}
	t.Logf("target %v sources %v one call %v", target, sources, one)
	call(tc, one, ss)
	t.Op(len(sources))
	g := get(k, tc)
	if (g != nil) != any {
		t.Failf("component present: %v, want %v", g != nil, any)
	}
	obs := ""
	if g != nil {
		got := k.Fieldwise(g)
		obs = strings.Join(got, "|")
		for i := range k.Fields {
			var vs []int
			for _, a := range append([]comp.A{target}, sources...) {
				if a != nil {
					vs = append(vs, a[i])
				}
			}
			if want := model(k, i, vs); got[i] != want {
				t.Failf("dataset assign, %s field %q\nwant %s\ngot  %s", k.Name, k.Fields[i].Name, want, got[i])
			}
		}
	}
	for i, s := range ss {
		if comp.Dump(s) != before[i] {
			t.Failf("source %d was modified\nbefore %s\nafter  %s", i, before[i], comp.Dump(s))
		}
	}
	t.Trace()
	t.State(k.Name, obs)
}

// mapKeys: merged maps with colliding keys.
func mapKeys(r *kit.Run) {
	r.Explore("map-keys", func(c *kit.C) func(t *kit.T) {
		field := c.Choose(4)
		nested := c.Bool()
		n := 1 + r.T0(2, 3)
		var docs [][2]int
		var empties []bool
		for i := 0; i < n; i++ {
			d := [2]int{c.Choose(3), c.Choose(3)}
			e := false
			if d == [2]int{} {
				e = c.Bool() // empty map rather than no map
			}
			docs = append(docs, d)
			empties = append(empties, e)
		}
		return func(t *kit.T) {
			build := func(d [2]int, e bool) interface{} {
				cfg := map[string]interface{}{}
				res := map[string]*dataset.TransformResource{}
				sec := map[string]string{}
				for i, v := range d {
					if v != 0 {
						key := []string{"a", "b"}[i]
						cfg[key] = float64(v)
						res[key] = &dataset.TransformResource{Path: fmt.Sprint(v)}
						sec[key] = fmt.Sprint(v)
					}
				}
				set := d != [2]int{} || e
				tf := &dataset.Transform{}
				md := &dataset.Meta{}
				switch {
				case field == 0 && set:
					tf.Config = cfg
				case field == 1 && set:
					tf.Resources = res
				case field == 2 && set:
					tf.Secrets = sec
				case field == 3:
					for k, v := range cfg {
						md.Set(k, v)
					}
				}
				if nested {
					if field == 3 {
						return &dataset.Dataset{Meta: md}
					}
					return &dataset.Dataset{Transform: tf}
				}
				if field == 3 {
					return md
				}
				return tf
			}
			read := func(x interface{}) map[string]string {
				out := map[string]string{}
				if ds, ok := x.(*dataset.Dataset); ok {
					if field == 3 {
						x = ds.Meta
					} else {
						x = ds.Transform
					}
				}
				switch y := x.(type) {
				case *dataset.Meta:
					for k, v := range y.Meta() {
						out[k] = fmt.Sprint(v)
					}
				case *dataset.Transform:
					for k, v := range y.Config {
						out[k] = fmt.Sprint(v)
					}
					for k, v := range y.Resources {
						out[k] = v.Path
					}
					for k, v := range y.Secrets {
						out[k] = v
					}
				}
				return out
			}
			target := build(docs[0], empties[0])
			var ss []interface{}
			var before []string
			for i := 1; i < n; i++ {
				s := build(docs[i], empties[i])
				ss = append(ss, s)
				before = append(before, comp.Dump(s))
			}
			call(target, true, ss)
			t.Op(len(ss))
			want := map[string]string{}
			for _, d := range docs {
				for i, v := range d {
					if v != 0 {
						want[[]string{"a", "b"}[i]] = fmt.Sprint(v)
					}
				}
			}
			if g := read(target); comp.Dump(g) != comp.Dump(want) {
				t.Failf("merging maps %v: got %v want %v", docs, g, want)
			}
			for i, s := range ss {
				if comp.Dump(s) != before[i] {
					t.Failf("merging maps %v modified source %d: %s -> %s", docs, i, before[i], comp.Dump(s))
				}
			}
			t.Trace()
			t.State(field, comp.Dump(want))
		}
	})
}

// files: attached files follow the same rule.
func files(r *kit.Run) {
	r.Explore("files", func(c *kit.C) func(t *kit.T) {
		kind := c.Choose(6)
		n := 1 + c.Choose(4)
		var has []bool
		for i := 0; i < n; i++ {
			has = append(has, c.Bool())
		}
		one := c.Bool()
		return func(t *kit.T) {
			var fs []qfs.File
			mk := func(i int) (interface{}, func() qfs.File) {
				var f qfs.File
				if has[i] {
					f = qfs.NewMemfileBytes(fmt.Sprint("f", i), []byte("x"))
				}
				fs = append(fs, f)
				switch kind {
				case 0:
					d := &dataset.Dataset{}
					if f != nil {
						d.SetBodyFile(f)
					}
					return d, d.BodyFile
				case 1:
					d := &dataset.Transform{}
					if f != nil {
						d.SetScriptFile(f)
					}
					return d, d.ScriptFile
				case 2, 3:
					d := &dataset.Readme{}
					if kind == 2 {
						if f != nil {
							d.SetScriptFile(f)
						}
						return d, d.ScriptFile
					}
					if f != nil {
						d.SetRenderedFile(f)
					}
					return d, d.RenderedFile
				}
				d := &dataset.Viz{}
				if kind == 4 {
					if f != nil {
						d.SetScriptFile(f)
					}
					return d, d.ScriptFile
				}
				if f != nil {
					d.SetRenderedFile(f)
				}
				return d, d.RenderedFile
			}
			target, read := mk(0)
			var ss []interface{}
			for i := 1; i < n; i++ {
				s, _ := mk(i)
				ss = append(ss, s)
			}
			call(target, one, ss)
			t.Op(n)
			var want qfs.File
			for _, f := range fs {
				if f != nil {
					want = f
				}
			}
			if read() != want {
				t.Failf("file kind %d present %v: wrong file after assign", kind, has)
			}
			t.Trace()
			t.State(kind, fmt.Sprint(has))
		}
	})
}
