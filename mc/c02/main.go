// C02: JSON encodings and hashes are canonical.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	"github.com/qri-io/dataset"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C02", Level: "model_checking",
		Rule:   "every insertion order of the keys of every map-valued field (two nesting levels), every document of the field-subset family encoded repeatedly, decoded and re-encoded, every pair of documents of a family compared for distinctness, hashes recomputed independently",
		Bounds: "maps of up to 4 keys (5 thorough) in all orders; documents with up to 3 (4 thorough) fields set and the full ones; 8 repeated encodings per document",
		Body:   body})
}

func marshaler(c interface{}) json.Marshaler { return c.(json.Marshaler) }

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// refHash: base58 of the sha2-256 multihash, written independently.
func refHash(data []byte) string {
	sum := sha256.Sum256(data)
	mh := append([]byte{0x12, 0x20}, sum[:]...)
	n := new(big.Int).SetBytes(mh)
	var out []byte
	m := new(big.Int)
	for n.Sign() > 0 {
		n.DivMod(n, big.NewInt(58), m)
		out = append([]byte{b58[m.Int64()]}, out...)
	}
	return string(out)
}

// sortedBelow checks that every object at or below the given member names (or
// everywhere, when all) writes its keys in lexicographic order.
func sortedBelow(data []byte, mapMembers map[string]bool, all bool) error {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var walk func(in bool) error
	walk = func(in bool) error {
		tok, err := dec.Token()
		if err != nil {
			return err
		}
		d, ok := tok.(json.Delim)
		if !ok {
			return nil
		}
		if d == '[' {
			for dec.More() {
				if err := walk(in); err != nil {
					return err
				}
			}
			_, err = dec.Token()
			return err
		}
		last, first := "", true
		for dec.More() {
			kt, err := dec.Token()
			if err != nil {
				return err
			}
			k := kt.(string)
			if in && !first && k <= last {
				return fmt.Errorf("key %q written after %q", k, last)
			}
			first, last = false, k
			if err := walk(in || mapMembers[k]); err != nil {
				return err
			}
		}
		_, err = dec.Token()
		return err
	}
	return walk(all)
}

var mapMembers = map[string]bool{"formatConfig": true, "schema": true, "config": true, "resources": true, "syntaxes": true}

// stepsOrCitations hold plain structs, whose members are not map keys.
func checkSorted(k *comp.Kind, data []byte) error {
	switch k.Name {
	case "structure", "transform":
		return sortedBelow(data, mapMembers, false)
	case "stats":
		return sortedBelow(data, map[string]bool{"stats": true}, false)
	case "dataset":
		return sortedBelow(data, map[string]bool{"formatConfig": true, "schema": true, "config": true, "resources": true, "syntaxes": true}, false)
	}
	return nil
}

func encode(t *kit.T, c interface{}) []byte {
	data, err := marshaler(c).MarshalJSON()
	t.Op(1)
	if err != nil {
		t.Failf("encoding: %v", err)
	}
	return data
}

func checkDoc(t *kit.T, k *comp.Kind, a comp.A) []byte {
	t.Logf("%s", k.String(a))
	c := k.Build(a)
	data := encode(t, c)
	for i := 0; i < 8; i++ {
		x := c
		if i%2 == 1 {
			x = k.Build(a)
		}
		if d := encode(t, x); !bytes.Equal(d, data) {
			t.Failf("equal %s encode differently\n%s\n%s", k.Name, data, d)
		}
	}
	if d, err := json.Marshal(c); err != nil || !bytes.Equal(d, compact(data)) {
		t.Failf("json.Marshal and MarshalJSON differ: %v\n%s\n%s", err, d, data)
	}
	back := k.New()
	if err := json.Unmarshal(data, back); err != nil {
		t.Failf("decoding %s: %v", data, err)
	}
	t.Op(1)
	onlySecrets := false // secrets are content that is never written
	if i := k.Index("secrets"); i >= 0 && a[i] != 0 {
		b := append(comp.A{}, a...)
		b[i] = 0
		onlySecrets = !k.HasContent(b)
	}
	if d := encode(t, back); !bytes.Equal(d, data) && !onlySecrets {
		t.Failf("re-encoding a decoded document changed it\n%s\n%s", data, d)
	}
	if err := checkSorted(k, data); err != nil {
		t.Failf("%v in %s", err, data)
	}
	for i := 0; i < 2; i++ {
		h, err := dataset.JSONHash(marshaler(c))
		if err != nil || h != refHash(data) {
			t.Failf("hash of %s is %q (%v), want %q", data, h, err, refHash(data))
		}
		t.Op(1)
	}
	if s, ok := c.(*dataset.Structure); ok {
		if h, err := s.Hash(); err != nil || h != refHash(data) {
			t.Failf("structure hash of %s is %q (%v), want %q", data, h, err, refHash(data))
		}
	}
	// published names: every set, recorded field is found under its key, and no other key is written
	var obj map[string]json.RawMessage
	if json.Unmarshal(data, &obj) == nil && obj != nil {
		want := map[string]bool{"qri": true}
		for i, fl := range k.Fields {
			if fl.Always {
				want[fl.Name] = true
			}
			if a[i] == 0 || fl.Role == comp.Secret {
				continue
			}
			if fl.Role == comp.Path && (k.Name == "readme" || k.Name == "viz") {
				continue
			}
			n := fl.Name
			if fl.Role == comp.Custom {
				n = comp.CustomKey(a[i])
			}
			want[n] = true
			if _, ok := obj[n]; !ok {
				t.Failf("field %q is set but not written in %s", n, data)
			}
		}
		for n := range obj {
			if !want[n] {
				t.Failf("key %q written in %s but not set", n, data)
			}
		}
	}
	t.Trace()
	t.State(k.Name, data)
	return data
}

func compact(b []byte) []byte {
	var o bytes.Buffer
	json.Compact(&o, b)
	return o.Bytes()
}

// small enumerates assignments with at most max fields set.
func small(c *kit.C, k *comp.Kind, max int) comp.A {
	a := make(comp.A, len(k.Fields))
	n := 0
	for i := range a {
		if n >= max {
			break
		}
		a[i] = c.Choose(len(k.Fields[i].Vals) + 1)
		if a[i] != 0 {
			n++
		}
	}
	return a
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

type failing struct{}

func (failing) MarshalJSON() ([]byte, error) { return []byte("partial"), errors.New("no encoding") }

func body(r *kit.Run) {
	for _, k := range comp.All {
		k := k
		r.Explore(k.Name+"/documents", func(c *kit.C) func(t *kit.T) {
			max := r.T0(3, 4)
			if len(k.Fields) <= 8 {
				max = r.T0(4, 8)
			}
			a := small(c, k, max)
			return func(t *kit.T) { t.Sample("%s", checkDoc(t, k, a)) }
		})
		r.Explore(k.Name+"/full", func(c *kit.C) func(t *kit.T) {
			a := k.Uniform(1 + c.Choose(2))
			i := c.Choose(len(a) + 1)
			if i < len(a) {
				a[i] = 0
			}
			return func(t *kit.T) { checkDoc(t, k, a) }
		})
		// distinctness: the encoding determines the recorded content and vice versa, over all pairs
		r.Case(k.Name+"/pairs-distinct", func(t *kit.T) {
			byBytes := map[string]string{}
			c := &kit.C{}
			_ = c
			max := 2
			if len(k.Fields) <= 8 {
				max = 4
			}
			n := 0
			var rec func(i, set int, a comp.A)
			rec = func(i, set int, a comp.A) {
				if i == len(a) {
					data := encode(t, k.Build(a))
					sig := content(k, a)
					if old, ok := byBytes[string(data)]; ok && old != sig {
						t.Failf("different content encodes to the same bytes %s\n%s\n%s", data, old, sig)
					}
					byBytes[string(data)] = sig
					n++
					return
				}
				a[i] = 0
				rec(i+1, set, a)
				if set < max {
					for v := 1; v <= len(k.Fields[i].Vals); v++ {
						a[i] = v
						rec(i+1, set+1, a)
					}
					a[i] = 0
				}
			}
			rec(0, 0, make(comp.A, len(k.Fields)))
			sigs := map[string]string{}
			for b, s := range byBytes {
				if o, ok := sigs[s]; ok {
					t.Failf("equal content encodes to different bytes\n%s\n%s", o, b)
				}
				sigs[s] = b
			}
			t.Trace()
			t.State("pairs", k.Name, n, len(byBytes))
			t.Sample("%d documents of %s, %d distinct encodings, all pairs distinguished", n, k.Name, len(byBytes))
		})
	}
	nk := r.T0(4, 5)
	ps := perms(nk)
	keys := []string{"b", "a", "Z", "é", "a b"}[:nk]
	r.Explore("map-orders", func(c *kit.C) func(t *kit.T) {
		field := c.Choose(7)
		p := kit.Pick(c, ps)
		q := kit.Pick(c, perms(3))
		return func(t *kit.T) {
			inner := func() map[string]interface{} {
				m := map[string]interface{}{}
				for _, i := range q {
					m[keys[i]] = float64(i)
				}
				return m
			}
			build := func(order []int, in func() map[string]interface{}) interface{} {
				m := map[string]interface{}{}
				ms := map[string]string{}
				mr := map[string]*dataset.TransformResource{}
				md := &dataset.Meta{Title: "t"}
				// grow and shrink the map first, so that its internal layout differs too
				for i := 0; i < 20*order[0]; i++ {
					m[fmt.Sprint("tmp", i)] = i
				}
				for i := 0; i < 20*order[0]; i++ {
					delete(m, fmt.Sprint("tmp", i))
				}
				for _, i := range order {
					m[keys[i]] = in()
					ms[keys[i]] = fmt.Sprint(i)
					mr[keys[i]] = &dataset.TransformResource{Path: fmt.Sprint(i)}
					md.Set(keys[i], in())
				}
				switch field {
				case 0:
					return &dataset.Structure{Schema: m}
				case 1:
					return &dataset.Structure{FormatConfig: m}
				case 2:
					return &dataset.Transform{Config: m}
				case 3:
					return &dataset.Transform{Resources: mr, Syntaxes: ms}
				case 4:
					return &dataset.Stats{Stats: m}
				case 5:
					return md
				}
				return &dataset.Dataset{Meta: md, Structure: &dataset.Structure{Schema: m, FormatConfig: in()}, Transform: &dataset.Transform{Config: m, Syntaxes: ms}, Stats: &dataset.Stats{Stats: []interface{}{m}}}
			}
			id := make([]int, nk)
			for i := range id {
				id[i] = i
			}
			ref := encode(t, build(id, func() map[string]interface{} {
				return map[string]interface{}{keys[0]: 0.0, keys[1]: 1.0, keys[2]: 2.0}
			}))
			got := encode(t, build(p, inner))
			if !bytes.Equal(ref, got) {
				t.Failf("insertion order %v/%v changes the encoding\n%s\n%s", p, q, ref, got)
			}
			all := field == 5
			if err := sortedBelow(got, map[string]bool{"schema": true, "formatConfig": true, "config": true, "resources": true, "syntaxes": true, "stats": true, "meta": true}, all); err != nil && field != 6 {
				t.Failf("%v in %s", err, got)
			}
			h1, e1 := dataset.JSONHash(marshaler(build(id, inner)))
			h2, e2 := dataset.JSONHash(marshaler(build(p, inner)))
			if e1 != nil || e2 != nil || h1 != h2 || h1 != refHash(got) {
				t.Failf("hashes %q %q (%v %v) want %q", h1, h2, e1, e2, refHash(got))
			}
			t.Op(2)
			t.Trace()
			t.State(field, fmt.Sprint(p), fmt.Sprint(q))
		}
	})
	r.Explore("hash-bytes", func(c *kit.C) func(t *kit.T) {
		var data []byte
		if c.Bool() {
			n := c.Choose(4)
			for i := 0; i < n; i++ {
				data = append(data, kit.Pick(c, []byte{0, 1, 'a', 0x7f, 0x80, 0xff}))
			}
		} else {
			data = bytes.Repeat([]byte{kit.Pick(c, []byte{0, 'x'})}, kit.Pick(c, []int{54, 55, 56, 57, 63, 64, 65, 119, 120, 4095, 4096, 4097, 100000}))
		}
		return func(t *kit.T) {
			cp := append([]byte{}, data...)
			h, err := dataset.HashBytes(data)
			t.Op(1)
			if err != nil || h != refHash(data) {
				t.Failf("hash of %d bytes %x… = %q (%v), want %q", len(data), data[:min(8, len(data))], h, err, refHash(data))
			}
			if !bytes.Equal(cp, data) {
				t.Failf("hashing modified its input")
			}
			t.Trace()
			t.State(h)
		}
	})
	r.Case("hash-error", func(t *kit.T) {
		if h, err := dataset.JSONHash(failing{}); err == nil || h != "" {
			t.Failf("hash of a value that cannot be encoded: %q, %v", h, err)
		}
		t.Op(1)
		t.Trace()
	})
}

// content is the recorded content of an assignment: what the encoding must bind.
func content(k *comp.Kind, a comp.A) string {
	b := append(comp.A{}, a...)
	if b[k.Index("qri")] == 1 || !k.HasContent(a) && b[k.Index("path")] != 0 {
		b[k.Index("qri")] = 0 // the kind that is filled in, or not written
	}
	if i := k.Index("secrets"); i >= 0 {
		b[i] = 0
	}
	s := ""
	if k.HasContent(a) && (k.Name == "readme" || k.Name == "viz") {
		b[k.Index("path")] = 0
	}
	if !k.HasContent(a) && b[k.Index("path")] != 0 {
		s = "ref "
	}
	for i := range b {
		s += fmt.Sprintf("%s=%s;", k.Fields[i].Name, k.ValDump(i, b[i]))
	}
	return s
}
