// C06: signing bytes and path maps bind exactly the identity of a version.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C06", Level: "model_checking",
		Rule:   "every combination of items (absent, component without a path, two path values each), commit times in several zones and sub-second offsets, with and without all other fields set; all pairs compared through the canonical rendering; every ignore set of the path map",
		Bounds: "9 items; all absent/present combinations x 2 value variants, all pairs of items over all their values; ignore sets: all 2^9",
		Body:   body})
}

type item struct{ name, prefix string }

// order is the published order of lines.
var order = []item{{"id", "id"}, {"body", "bd"}, {"commit", "cm"}, {"meta", "md"}, {"readme", "rm"}, {"structure", "st"}, {"transform", "tf"}, {"stats", "sa"}, {"viz", "vz"}}

var times = []time.Time{
	time.Date(2001, 1, 1, 1, 1, 1, 0, time.UTC),
	time.Date(2001, 1, 1, 1, 1, 1, 999999999, time.UTC),
	time.Date(2001, 1, 1, 6, 31, 1, 0, time.FixedZone("IST", 19800)),
	time.Date(2000, 12, 31, 20, 1, 2, 5, time.FixedZone("EST", -18000)),
	time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC),
}

func utc(tm time.Time) string {
	u := tm.UTC()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second())
}

// vals: 0 absent, 1 component present without path, 2.. values.
func build(v []int, noise bool) *dataset.Dataset {
	ds := &dataset.Dataset{}
	if noise {
		ds = comp.Dataset.Build(comp.Dataset.Uniform(1)).(*dataset.Dataset)
		ds.ID, ds.BodyPath = "", ""
		ds.Commit, ds.Meta, ds.Readme, ds.Structure, ds.Transform, ds.Stats, ds.Viz = nil, nil, nil, nil, nil, nil, nil
	}
	val := func(i int) string {
		if v[i] < 2 {
			return ""
		}
		return []string{"/ipfs/Qm" + order[i].name, order[i].name, "md:x", "id:\tb"}[v[i]-2]
	}
	mk := func(k *comp.Kind) interface{} {
		if noise {
			a := k.Uniform(2)
			a[k.Index("path")] = 0
			return k.Build(a)
		}
		return k.New()
	}
	ds.ID = val(0)
	ds.BodyPath = val(1)
	if v[2] != 0 {
		ds.Commit = mk(&comp.Commit).(*dataset.Commit)
		ds.Commit.Timestamp = time.Time{}
		if v[2] >= 2 {
			ds.Commit.Timestamp = times[v[2]-2]
		}
	}
	if v[3] != 0 {
		ds.Meta = mk(&comp.Meta).(*dataset.Meta)
		ds.Meta.Path = val(3)
	}
	if v[4] != 0 {
		ds.Readme = mk(&comp.Readme).(*dataset.Readme)
		ds.Readme.Path = val(4)
	}
	if v[5] != 0 {
		ds.Structure = mk(&comp.Structure).(*dataset.Structure)
		ds.Structure.Path = val(5)
	}
	if v[6] != 0 {
		ds.Transform = mk(&comp.Transform).(*dataset.Transform)
		ds.Transform.Path = val(6)
	}
	if v[7] != 0 {
		ds.Stats = mk(&comp.Stats).(*dataset.Stats)
		ds.Stats.Path = val(7)
	}
	if v[8] != 0 {
		ds.Viz = mk(&comp.Viz).(*dataset.Viz)
		ds.Viz.Path = val(8)
	}
	return ds
}

func render(v []int) string {
	var lines []string
	for i, it := range order {
		if v[i] < 2 {
			continue
		}
		s := []string{"/ipfs/Qm" + it.name, it.name, "md:x", "id:\tb"}
		x := ""
		if i == 2 {
			x = utc(times[v[i]-2])
		} else {
			x = s[v[i]-2]
		}
		lines = append(lines, it.prefix+":"+x)
	}
	return strings.Join(lines, "\n")
}

func check(t *kit.T, v []int, noise bool) {
	ds := build(v, noise)
	before := comp.Dump(ds)
	got := string(ds.SigningBytes())
	t.Op(1)
	if want := render(v); got != want {
		t.Failf("signing bytes of items %v (other fields set: %v)\nwant %q\ngot  %q", v, noise, want, got)
	}
	if comp.Dump(ds) != before {
		t.Failf("SigningBytes modified the dataset")
	}
	if string(ds.SigningBytes()) != got {
		t.Failf("SigningBytes is not repeatable")
	}
	t.Trace()
	t.State(got)
}

func body(r *kit.Run) {
	r.Explore("presence", func(c *kit.C) func(t *kit.T) {
		noise := c.Bool()
		v := make([]int, len(order))
		for i := range v {
			v[i] = c.Choose(r.T0(3, 4))
		}
		return func(t *kit.T) { check(t, v, noise); t.Sample("%v -> %q", v, render(v)) }
	})
	r.Explore("pairs", func(c *kit.C) func(t *kit.T) {
		i, j := c.Choose(len(order)), c.Choose(len(order))
		if j <= i {
			return nil
		}
		v := make([]int, len(order))
		n := func(x int) int {
			if x == 2 {
				return 2 + len(times)
			}
			return 6
		}
		v[i], v[j] = c.Choose(n(i)), c.Choose(n(j))
		noise := c.Bool()
		return func(t *kit.T) { check(t, v, noise) }
	})
	r.Explore("signable", func(c *kit.C) func(t *kit.T) {
		cm, st := c.Choose(2+len(times)), c.Choose(3)
		noise := c.Bool()
		return func(t *kit.T) {
			v := make([]int, len(order))
			v[2] = cm
			ds := build(v, noise)
			if st > 0 {
				ds.Structure = &dataset.Structure{Checksum: []string{"", "QmSum"}[st-1]}
			}
			b, err := ds.SignableBytes()
			t.Op(1)
			if cm == 0 || st == 0 {
				if err == nil {
					t.Failf("signable bytes without commit or structure: %q", b)
				}
			} else {
				tm := "0001-01-01T00:00:00Z"
				if cm >= 2 {
					tm = utc(times[cm-2])
				}
				if want := tm + "\n" + ds.Structure.Checksum; err != nil || string(b) != want {
					t.Failf("signable bytes %q (%v), want %q", b, err, want)
				}
			}
			t.Trace()
			t.State(cm, st, string(b))
		}
	})
	pm := []string{"body", "commit", "meta", "dataset", "readme", "structure", "transform", "viz", "stats"}
	r.Explore("path-map", func(c *kit.C) func(t *kit.T) {
		pres := c.Choose(1 << 9)
		mode := c.Choose(2) // with or without a path on present components
		igMode := c.Choose(3 + len(pm))
		return func(t *kit.T) {
			masks := []int{0, 1<<9 - 1, pres}
			if igMode >= 3 {
				masks = []int{1 << (igMode - 3), pres &^ (1 << (igMode - 3)), pres ^ (1 << (igMode - 3))}
			}
			for _, ig := range masks {
				pathMap(t, pm, pres, mode, ig)
			}
		}
	})
	r.Explore("path-map-ignore", func(c *kit.C) func(t *kit.T) {
		ig := c.Choose(1 << 9)
		mode := c.Choose(2)
		return func(t *kit.T) { pathMap(t, pm, 1<<9-1, mode, ig) }
	})
	r.Case("path-map-nil", func(t *kit.T) {
		var ds *dataset.Dataset
		if m := ds.PathMap(); len(m) != 0 {
			t.Failf("path map of nil: %v", m)
		}
		t.Op(1)
		t.Trace()
	})
}

func pathMap(t *kit.T, pm []string, pres, mode, ig int) {
	ds := &dataset.Dataset{}
	want := map[string]string{}
	path := func(n string) string {
		if mode == 0 {
			return ""
		}
		return "/ipfs/Qm" + n
	}
	for i, n := range pm {
		if pres&(1<<i) == 0 {
			continue
		}
		p := path(n)
		switch n {
		case "body":
			ds.BodyPath = p
		case "dataset":
			ds.Path = p
		case "commit":
			ds.Commit = &dataset.Commit{Path: p}
		case "meta":
			ds.Meta = &dataset.Meta{Path: p}
		case "readme":
			ds.Readme = &dataset.Readme{Path: p}
		case "structure":
			ds.Structure = &dataset.Structure{Path: p}
		case "transform":
			ds.Transform = &dataset.Transform{Path: p}
		case "viz":
			ds.Viz = &dataset.Viz{Path: p}
		case "stats":
			ds.Stats = &dataset.Stats{Path: p}
		}
		if ig&(1<<i) == 0 && !(p == "" && (n == "body" || n == "dataset")) {
			want[n] = p
		}
	}
	var ignore []string
	for i, n := range pm {
		if ig&(1<<i) != 0 {
			ignore = append(ignore, n)
		}
	}
	got := ds.PathMap(ignore...)
	t.Op(1)
	if comp.Dump(got) != comp.Dump(want) || len(got) != len(want) {
		t.Failf("path map of %09b ignoring %v: got %v want %v", pres, ignore, got, want)
	}
	t.Trace()
	t.State("pm", pres, mode, ig)
}
