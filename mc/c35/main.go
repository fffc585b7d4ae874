// C35: generated data conforms to the schema it was generated for.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/validate"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C35", Level: "model_checking",
		Rule:   "the random source of a value generator is replaced by one whose answers are enumerated, so every outcome of the draws (within the stated answers) is executed for every type and checked for its type; tabular generators over every list of column types are run for every seed and number of rows, and the rows checked, validated, written and read back in every tabular format",
		Bounds: "9 answers per draw, up to 5 (thorough 7) draws enumerated for each of 8 types by 4 maximum lengths; column lists of up to 3 (thorough 4) of 6 types (lists of types included); 0..40 rows; 64 (thorough 512) seeds",
		Assume: []string{"schemas constrain only types: other validation keywords are not consulted by the generator"},
		Body:   run})
}

// source answers draws from a list of enumerated choices, then with zero
type source struct {
	c    *kit.C
	n    int
	max  int
	seen []int64
}

// low bits are set: a run of all-zero draws makes math/rand's own normal distribution give infinity
var answers = []int64{1, 1<<32 | 1, 2<<32 | 1, 20<<32 | 1, 35<<32 | 1, 61<<32 | 1, 1<<62 | 1, math.MaxInt64, math.MaxInt64 - 2}

func (s *source) Int63() int64 {
	if s.n >= s.max {
		return 5<<32 | 1
	}
	s.n++
	v := answers[s.c.Choose(len(answers))]
	s.seen = append(s.seen, v)
	return v
}
func (s *source) Uint64() uint64 { return uint64(s.Int63())<<1 | 1 }
func (s *source) Seed(int64)     {}

// is reports whether v is a value of a JSON type
func is(typ string, v interface{}, maxLen int) bool {
	switch typ {
	case "string":
		s, ok := v.(string)
		return ok && len(s) <= maxLen && strings.IndexFunc(s, func(r rune) bool {
			return !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
		}) < 0
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "number":
		f, ok := v.(float64)
		return ok && !math.IsNaN(f) && !math.IsInf(f, 0)
	case "integer":
		_, ok := v.(int)
		return ok
	case "object":
		m, ok := v.(map[string]interface{})
		return ok && m != nil
	case "array":
		a, ok := v.([]interface{})
		return ok && a != nil
	case "null":
		return v == nil
	}
	for _, t := range []string{"string", "boolean", "number", "integer", "null"} {
		if is(t, v, maxLen) {
			return true
		}
	}
	return false
}

func class(v interface{}) string { return fmt.Sprintf("%T", v) }

func run(r *kit.Run) {
	draws := r.T0(5, 6)
	types := []string{"string", "boolean", "number", "integer", "object", "array", "null", ""}
	r.Explore("draws", func(c *kit.C) func(t *kit.T) {
		typ := kit.Pick(c, types)
		max := kit.Pick(c, []int{1, 2, 8, 64})
		direct := c.Bool()
		return func(t *kit.T) {
			t.Dyn(-1, func(d *kit.C) {
				t.Op(1)
				src := &source{c: d, max: draws}
				g := &generate.ValueGenerator{Rand: rand.New(src), MaxStringLength: max}
				var v interface{}
				if !direct {
					v = g.Type(typ)
				} else {
					switch typ {
					case "string":
						v = g.String()
					case "boolean":
						v = g.Bool()
					case "number":
						v = g.Float()
					case "integer":
						v = g.Int()
					case "object":
						v = g.Object()
					case "array":
						v = g.Array()
					default:
						v = g.Value()
					}
				}
				want := typ
				if direct && typ == "null" {
					want = ""
				}
				if !is(want, v, max) {
					t.Failf("random draws %v: value of type %q (strings up to %d) is %#v", src.seen, want, max, v)
				}
				again := &generate.ValueGenerator{Rand: rand.New(&replay{src.seen, 0}), MaxStringLength: max}
				if !direct {
					if w := again.Type(typ); !body.EqTyped(norm(v), norm(w)) {
						t.Failf("random draws %v repeated: value of type %q is %#v, then %#v", src.seen, typ, v, w)
					}
				}
				t.State(typ, max, fmt.Sprint(v))
			})
			t.Trace()
		}
	})
	// every value of a small type can occur
	r.Explore("range", func(c *kit.C) func(t *kit.T) {
		typ := kit.Pick(c, types)
		return func(t *kit.T) {
			seen := map[string]bool{}
			lens := map[int]bool{}
			chars := map[rune]bool{}
			for i := 0; i < 4096; i++ {
				t.Op(1)
				// Int31n of a draw k<<32 is k for small k: every residue is reached
				g := &generate.ValueGenerator{Rand: rand.New(&replay{[]int64{int64(i%64)<<32 | 1, int64(i/64)<<32 | 1, int64(i/64)<<32 | 1}, 0}), MaxStringLength: 4}
				v := g.Type(typ)
				switch x := v.(type) {
				case bool:
					seen[fmt.Sprint(x)] = true
				case string:
					lens[len(x)] = true
					for _, r := range x {
						chars[r] = true
					}
					seen[class(v)] = true
				default:
					seen[class(v)] = true
				}
			}
			var want []string
			switch typ {
			case "boolean":
				want = []string{"true", "false"}
			case "":
				want = []string{"true", "false", "string", "int", "float64", "<nil>"}
			case "string":
				for n := 0; n < 4; n++ {
					if !lens[n] {
						t.Failf("no string of length %d is ever generated with a maximum of 4", n)
					}
				}
				if len(chars) < 60 {
					t.Failf("only %d characters are ever generated", len(chars))
				}
			}
			for _, w := range want {
				if !seen[w] {
					t.Failf("type %q: %s is never generated, only %v", typ, w, seen)
				}
			}
			t.Trace()
		}
	})

	colTypes := []interface{}{"string", "integer", "number", "boolean", "object", "array", "null", []interface{}{"integer", "string"}, []interface{}{"boolean"}, nil}
	r.Explore("tables", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(3, 4))
		var items []interface{}
		var ts []string
		for i := 0; i < n; i++ {
			ty := kit.Pick(c, colTypes)
			col := map[string]interface{}{"title": fmt.Sprintf("c%d", i)}
			switch x := ty.(type) {
			case string:
				col["type"] = x
				ts = append(ts, x)
			case []interface{}:
				col["type"] = x
				ts = append(ts, x[0].(string))
			default:
				ts = append(ts, "string")
			}
			items = append(items, col)
		}
		if items == nil {
			items = []interface{}{}
		}
		opt := c.Choose(4)
		rows := kit.Pick(c, []int{0, 1, 40})
		return func(t *kit.T) {
			sch := map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
			st := &dataset.Structure{Format: "json", Schema: sch}
			before := body.Show(sch)
			var opts []func(*generate.Config)
			maxLen := 64
			if opt&1 != 0 {
				opts = append(opts, generate.AssignSeed)
			}
			if opt&2 != 0 {
				opts = append(opts, generate.AssignMaxLen)
				maxLen = 8
			}
			es := generateRows(t, st, opts, rows)
			for i, e := range es {
				row, ok := e.Value.([]interface{})
				if !ok || len(row) != len(ts) || e.Index != i || e.Key != "" {
					t.Failf("entry %d of columns %v is %#v", i, ts, e)
				}
				for j, v := range row {
					if !is(ts[j], v, maxLen) {
						t.Failf("row %d of columns %v is %#v", i, ts, row)
					}
				}
			}
			if opt&1 != 0 {
				if again := generateRows(t, st, opts, rows); body.ShowEntries(again) != body.ShowEntries(es) {
					t.Failf("columns %v with the fixed seed give %s, then %s", ts, body.ShowEntries(es), body.ShowEntries(again))
				}
			}
			if after := body.Show(sch); after != before {
				t.Failf("generating changed the schema %s to %s", before, after)
			}
			if len(ts) > 0 {
				conform(t, st, ts, es)
			}
			t.Trace()
		}
	})
	r.Explore("not tables", func(c *kit.C) func(t *kit.T) {
		sch := kit.Pick(c, []map[string]interface{}{nil, {}, body.Arr(), body.Obj(), {"type": "array", "items": map[string]interface{}{"type": "string"}}})
		return func(t *kit.T) {
			t.Op(1)
			if g, err := generate.NewTabularGenerator(&dataset.Structure{Format: "json", Schema: sch}); err == nil {
				t.Failf("schema %s: a generator and no error: %v", body.Show(sch), g)
			}
			t.Trace()
		}
	})
	r.Explore("seeds", func(c *kit.C) func(t *kit.T) {
		seed := c.Choose(r.T0(64, 512))
		typ := kit.Pick(c, types[:7])
		max := kit.Pick(c, []int{1, 8, 64})
		return func(t *kit.T) {
			a := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(int64(seed))), MaxStringLength: max}
			b := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(int64(seed))), MaxStringLength: max}
			both := map[interface{}]bool{}
			for i := 0; i < 100; i++ {
				t.Op(2)
				v, w := a.Type(typ), b.Type(typ)
				if !is(typ, v, max) || !body.EqTyped(norm(v), norm(w)) {
					t.Failf("seed %d, value %d of type %q is %#v, repeated %#v", seed, i, typ, v, w)
				}
				if typ == "boolean" {
					both[v] = true
				}
			}
			if typ == "boolean" && len(both) != 2 {
				t.Failf("seed %d gives the same boolean 100 times", seed)
			}
			t.Trace()
		}
	})
}

// norm gives equality of rows with Go ints
func norm(v interface{}) interface{} {
	if i, ok := v.(int); ok {
		return int64(i)
	}
	return v
}

type replay struct {
	vals []int64
	n    int
}

func (s *replay) Int63() int64 {
	if s.n >= len(s.vals) {
		return 5<<32 | 1
	}
	s.n++
	return s.vals[s.n-1]
}
func (s *replay) Uint64() uint64 { return uint64(s.Int63())<<1 | 1 }
func (s *replay) Seed(int64)     {}

func generateRows(t *kit.T, st *dataset.Structure, opts []func(*generate.Config), rows int) []dsio.Entry {
	g, err := generate.NewTabularGenerator(st, opts...)
	if err != nil {
		t.Failf("schema %s: %v", body.Show(st.Schema), err)
	}
	if g.Structure() != st {
		t.Failf("the generator's structure is not the one given")
	}
	es := []dsio.Entry{}
	for i := 0; i < rows; i++ {
		t.Op(1)
		e, err := g.ReadEntry()
		if err != nil {
			t.Failf("row %d of %s: %v", i, body.Show(st.Schema), err)
		}
		es = append(es, e)
	}
	if err := g.Close(); err != nil {
		t.Failf("close: %v", err)
	}
	return es
}

func conform(t *kit.T, st *dataset.Structure, ts []string, es []dsio.Entry) {
	for _, f := range []string{"json", "ndjson", "cbor", "csv", "xlsx"} {
		if (f == "xlsx") && (len(es) > 1 || len(ts) > 2) {
			continue // the file takes long to build
		}
		st2 := &dataset.Structure{Format: f, Schema: st.Schema}
		var buf bytes.Buffer
		t.Op(2)
		if err := body.WriteBody(st2, &buf, body.CloneEntries(es)); err != nil {
			t.Failf("rows of columns %v cannot be written as %s: %v", ts, f, err)
		}
		data := append([]byte{}, buf.Bytes()...)
		back, err := body.ReadBody(st2, &buf, len(es)+1)
		if err != nil || len(back) != len(es) {
			t.Failf("rows of columns %v written as %s: %d of %d rows are read, error %v", ts, f, len(back), len(es), err)
		}
		hasNull := false
		for _, x := range ts {
			hasNull = hasNull || x == "null"
		}
		if hasNull && (f == "csv" || f == "xlsx") {
			continue // read as empty text
		}
		rd, err := dsio.NewEntryReader(st2, bytes.NewReader(data))
		if err != nil {
			t.Failf("%v", err)
		}
		errs, err := validate.EntryReader(rd)
		if err != nil || len(errs) > 0 {
			t.Failf("rows of columns %v written as %s do not validate: %v %v: %q", ts, f, errs, err, clip(data))
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}
