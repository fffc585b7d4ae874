// C05: dropping transient or derived values clears exactly those fields.
package main

import (
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C05", Level: "model_checking",
		Rule:   "every history of transient/derived drops of length 1..3 from every field subset of every component, and from every dataset with any components present",
		Bounds: "all field subsets of components (quick: up to 13 fields in full, meta up to 4 set or 3 unset); datasets: all subsets of components x all/none/single plain fields",
		Body:   body})
}

func drop(c interface{}, op int) bool {
	name := []string{"DropTransientValues", "DropDerivedValues"}[op]
	m := reflect.ValueOf(c).MethodByName(name)
	if !m.IsValid() {
		return false
	}
	m.Call(nil)
	return true
}

// cleared is the model: does the op history clear field fl?
func cleared(fl comp.Field, ops []int) bool {
	for _, o := range ops {
		if (o == 0 && fl.Trans) || (o == 1 && fl.Deriv) {
			return true
		}
	}
	return false
}

func histories(c *kit.C) []int {
	n := 1 + c.Choose(3)
	ops := make([]int, n)
	for i := range ops {
		ops[i] = c.Choose(2)
	}
	return ops
}

func body(r *kit.Run) {
	for _, k := range comp.Components {
		k := k
		r.Explore(k.Name, func(c *kit.C) func(t *kit.T) {
			full := k.Uniform(kit.Pick(c, []int{1, 2, comp.Same}))
			a := make(comp.A, len(full))
			n, m := 0, 0
			for i := range a {
				if !r.Thorough && len(a) > 14 && n >= 4 && m > 3 {
					continue
				}
				a[i] = full[i] * c.Choose(2)
				if a[i] != 0 {
					n++
				} else {
					m++
				}
			}
			if !r.Thorough && len(a) > 14 && n > 4 && m > 3 {
				return nil
			}
			ops := histories(c)
			return func(t *kit.T) {
				t.Logf("%s ops %v", k.String(a), ops)
				x := k.Build(a)
				for _, o := range ops {
					if !drop(x, o) && !(k.Name == "stats" && o == 0) {
						t.Failf("%s has no such operation", k.Name)
					}
					t.Op(1)
				}
				eff := ops
				if k.Name == "stats" { // no transient operation
					eff = nil
					for _, o := range ops {
						if o == 1 {
							eff = append(eff, 1)
						}
					}
				}
				for i, fl := range k.Fields {
					want := k.ValDump(i, a[i])
					if cleared(fl, eff) {
						want = ""
					}
					if got := k.Get(x, i); got != want {
						t.Failf("%s after drops %v (0 transient, 1 derived): field %q is %s, want %s", k.String(a), ops, fl.Name, got, want)
					}
				}
				t.Trace()
				t.State(k.Name, comp.Dump(x))
			}
		})
	}
	k := &comp.Dataset
	r.Explore("dataset", func(c *kit.C) func(t *kit.T) {
		a := make(comp.A, len(k.Fields))
		mode := c.Choose(2)
		plain := c.Choose(len(k.Fields) + 2) // none, all, or a single plain field
		for i, fl := range k.Fields {
			if sub(fl.Name) != nil {
				if c.Bool() {
					a[i] = 1
				}
			} else if plain == 1 || plain == i+2 {
				a[i] = 1 + mode*(len(fl.Vals)-1)
			}
		}
		ops := histories(c)
		return func(t *kit.T) {
			t.Logf("%s ops %v", k.String(a), ops)
			ds := k.Build(a).(*dataset.Dataset)
			body := ds.BodyFile()
			for _, o := range ops {
				drop(ds, o)
				t.Op(1)
			}
			for i, fl := range k.Fields {
				want := k.ValDump(i, a[i])
				if sk := sub(fl.Name); sk != nil && a[i] != 0 {
					// dataset drop: transient leaves components alone, derived reaches them
					sa := sk.Uniform(1)
					for j, sf := range sk.Fields {
						for _, o := range ops {
							if o == 1 && sf.Deriv {
								sa[j] = 0
							}
						}
					}
					want = comp.Dump(sk.Build(sa))
				} else if cleared(fl, ops) {
					want = ""
				}
				if got := k.Get(ds, i); got != want {
					t.Failf("%s after drops %v (0 transient, 1 derived): field %q\nwant %s\ngot  %s", k.String(a), ops, fl.Name, want, got)
				}
			}
			if ds.BodyFile() != body {
				t.Failf("body file changed")
			}
			t.Trace()
			t.State("dataset", comp.Dump(ds))
		}
	})
}

func sub(n string) *comp.Kind {
	for _, k := range comp.Components {
		if strings.EqualFold(k.Name, n) {
			return k
		}
	}
	return nil
}
