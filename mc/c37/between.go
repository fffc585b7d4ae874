package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"vmc/comp"
	"vmc/kit"

	"github.com/qri-io/dataset"
)

// between: what is seen after something was changed is what a value that nobody
// had looked at before the change shows, whatever was asked before it.
func between(r *kit.Run, kinds []*comp.Kind, schemas, configs []string) {
	asked := func(t *kit.T, ctx string, mk func() interface{}, change func(x interface{}), other interface{}, first, second op) {
		x := mk()
		first.f(x, other)
		change(x)
		saw := second.f(x, other)
		y := mk()
		change(y)
		fresh := second.f(y, other)
		t.Op(3)
		if normal(saw) != normal(fresh) {
			t.Failf("%s: asked for %s before the change, %s sees\n%s\nand had it not been asked\n%s", ctx, first.name, second.name, saw, fresh)
		}
		t.Trace()
		t.State(ctx, second.name, fresh)
	}
	parts := func(name string, ks []*comp.Kind, ops func(k *comp.Kind) []op) {
		r.Explore(name, func(c *kit.C) func(t *kit.T) {
			k := kit.Pick(c, ks)
			from := 1 + c.Choose(2)
			// one field changes, or all of them
			f := c.Choose(len(k.Fields) + 1)
			to := c.Choose(3)
			if to == from {
				return nil
			}
			l := ops(k)
			first, second := kit.Pick(c, l), kit.Pick(c, l)
			a := k.Uniform(from)
			b := k.Uniform(to)
			if f < len(k.Fields) {
				v := b[f]
				b = k.Uniform(from)
				if b[f] == v {
					return nil
				}
				b[f] = v
			}
			return func(t *kit.T) {
				change := func(x interface{}) {
					dst, src := reflect.ValueOf(x).Elem(), reflect.ValueOf(k.Build(b)).Elem()
					for i := 0; i < dst.NumField(); i++ {
						if dst.Type().Field(i).PkgPath == "" {
							dst.Field(i).Set(src.Field(i))
						}
					}
				}
				asked(t, fmt.Sprintf("%s %s changed to %s", k.Name, k.String(a), k.String(b)), func() interface{} { return k.Build(a) }, change, k.Build(k.Uniform(1)), first, second)
			}
		})
	}
	parts("components changed in between", kinds, func(k *comp.Kind) []op {
		return append(append([]op{}, componentOps...), kindOps[k.Name]...)
	})
	parts("datasets changed in between", []*comp.Kind{&comp.Dataset}, func(k *comp.Kind) []op { return datasetOps })

	if !r.Thorough {
		schemas = []string{schemas[0], schemas[3], schemas[8], schemas[10], schemas[12]}
		configs = []string{configs[0], configs[3]}
	}
	r.Explore("structures changed in between", func(c *kit.C) func(t *kit.T) {
		formats := []string{"csv", "json", "ndjson", "cbor", "xlsx", ""}
		compressions := []string{"", "gzip", "nope"}
		format, compression, schema, cfg := kit.Pick(c, formats), compressions[0], kit.Pick(c, schemas), kit.Pick(c, configs)
		format2, compression2, schema2, cfg2 := format, compression, schema, cfg
		inPlace := false
		switch c.Choose(4) {
		case 0:
			format2 = kit.Pick(c, formats)
		case 1:
			compression2 = kit.Pick(c, compressions)
			if c.Bool() {
				compression, compression2 = compression2, compression
			}
		case 2:
			schema2 = kit.Pick(c, schemas)
			inPlace = c.Bool()
		case 3:
			cfg2 = kit.Pick(c, configs)
			inPlace = c.Bool()
		}
		if format == format2 && compression == compression2 && schema == schema2 && cfg == cfg2 {
			return nil
		}
		first, second := kit.Pick(c, structureOps), kit.Pick(c, structureOps)
		return func(t *kit.T) {
			fill := func(m map[string]interface{}, text string) map[string]interface{} {
				var n map[string]interface{}
				json.Unmarshal([]byte(text), &n)
				if !inPlace || m == nil || n == nil {
					return n
				}
				for k := range m {
					delete(m, k)
				}
				for k, v := range n {
					m[k] = v
				}
				return m
			}
			mk := func() interface{} {
				s := &dataset.Structure{Format: format, Compression: compression}
				json.Unmarshal([]byte(schema), &s.Schema)
				json.Unmarshal([]byte(cfg), &s.FormatConfig)
				return s
			}
			change := func(x interface{}) {
				s := x.(*dataset.Structure)
				s.Format, s.Compression = format2, compression2
				s.Schema, s.FormatConfig = fill(s.Schema, schema2), fill(s.FormatConfig, cfg2)
			}
			asked(t, fmt.Sprintf("structure %s %q schema %s options %s changed to %s %q %s %s in place %v", format, compression, schema, cfg, format2, compression2, schema2, cfg2, inPlace), mk, change, nil, first, second)
		}
	})
}
