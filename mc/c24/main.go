// C24: statistics describe exactly the entries that were written.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C24", Level: "model_checking",
		Rule:   "every sequence of entries over small alphabets of values of every kind (rows, objects, scalars, nested ones, uneven rows, missing keys) is written to a real accumulator, closed and read in every pattern of repetition; the statistics are compared with a direct computation over the entries",
		Bounds: "columns of up to 5 values over 8 numbers, 8 strings or 11 values of mixed kinds (6 thorough); tables of up to 3 rows of up to 2 cells over 7 values; objects of up to 2 keys; nested ones of depth 2; streams of up to 2000 numbers and 1..250 distinct strings; bodies in every format",
		Assume: []string{"a column's class is that of its first value; means are compared with a relative tolerance of 1e-9, distinct counts above 200 with 2%"},
		Body:   run})
}

// col is the direct computation for one column.
type col struct {
	class string
	nums  []float64
	strs  []string
	t, f  int
	nulls int
	items []*col          // array
	keys  map[string]*col // object
}

func num(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint64:
		return float64(x), true
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func newCol(v interface{}) *col {
	c := &col{keys: map[string]*col{}}
	switch v.(type) {
	case string:
		c.class = "string"
	case bool:
		c.class = "boolean"
	case []interface{}:
		c.class = "array"
	case map[string]interface{}:
		c.class = "object"
	default:
		c.class = "null"
		if _, ok := num(v); ok {
			c.class = "numeric"
		}
	}
	return c
}

func (c *col) add(v interface{}) {
	switch c.class {
	case "numeric":
		if x, ok := num(v); ok {
			c.nums = append(c.nums, x)
		}
	case "string":
		if s, ok := v.(string); ok {
			c.strs = append(c.strs, s)
		}
	case "boolean":
		if b, ok := v.(bool); ok {
			if b {
				c.t++
			} else {
				c.f++
			}
		}
	case "null":
		if v == nil {
			c.nulls++
		}
	case "array":
		if a, ok := v.([]interface{}); ok {
			for i, x := range a {
				if i == len(c.items) {
					c.items = append(c.items, newCol(x))
				}
				c.items[i].add(x)
			}
		}
	case "object":
		if m, ok := v.(map[string]interface{}); ok {
			for k, x := range m {
				if c.keys[k] == nil {
					c.keys[k] = newCol(x)
				}
				c.keys[k].add(x)
			}
		}
	}
}

func near(a interface{}, b float64, scale float64) bool {
	x, ok := a.(float64)
	return ok && (x == b || math.Abs(x-b) <= 1e-9*scale)
}

// diff compares a reported stat with the direct computation; drop names keys
// the report adds at its level.
func (c *col) diff(m map[string]interface{}, extra map[string]string) string {
	want := map[string]bool{}
	for k, v := range extra {
		want[k] = true
		if m[k] != v {
			return fmt.Sprintf("%s is %v, not %q", k, m[k], v)
		}
	}
	need := func(k string, v interface{}) string {
		want[k] = true
		if !reflect.DeepEqual(m[k], v) {
			return fmt.Sprintf("%s is %v, computed %v", k, m[k], v)
		}
		return ""
	}
	var errs []string
	e := func(s string) {
		if s != "" {
			errs = append(errs, s)
		}
	}
	switch c.class {
	case "numeric":
		e(need("count", len(c.nums)))
		min, max, sum, abs := c.nums[0], c.nums[0], 0.0, 0.0
		times := map[float64]float64{}
		nan := false
		for _, x := range c.nums {
			nan = nan || math.IsNaN(x)
			min, max = math.Min(min, x), math.Max(max, x)
			sum += x
			abs += math.Abs(x)
			times[x]++
		}
		want["mean"], want["median"], want["histogram"], want["min"], want["max"] = true, true, true, true, true
		if nan {
			break // what is left has to be encodable, no more
		}
		// figures JSON cannot express are left out
		for name, x := range map[string]float64{"min": min, "max": max} {
			if !math.IsInf(x, 0) {
				e(need(name, x))
			} else if v, ok := m[name]; ok {
				e(fmt.Sprintf("%s is %v", name, v))
			}
		}
		n := float64(len(c.nums))
		if math.IsInf(abs, 0) {
			// how far the sum gets depends on the order
			if v, ok := m["mean"].(float64); ok && (math.IsNaN(v) || math.IsInf(v, 0)) {
				e(fmt.Sprintf("mean is %v", v))
			}
		} else if !near(m["mean"], sum/n, abs/n+1e-300) {
			e(fmt.Sprintf("mean is %v, computed %v", m["mean"], sum/n))
		}
		if md, ok := m["median"].(float64); !ok || md < min-1e-9*(max-min) || md > max+1e-9*(max-min) {
			// nothing lies between infinities
			if !(math.IsInf(min, 0) || math.IsInf(max, 0)) || ok && (math.IsNaN(md) || math.IsInf(md, 0)) {
				e(fmt.Sprintf("median is %v of numbers from %v to %v", m["median"], min, max))
			}
		}
		h, ok := m["histogram"].(map[string][]float64)
		if _, has := m["histogram"]; !has && (math.IsInf(min, 0) || math.IsInf(max, 0)) {
			break
		}
		if !ok {
			e(fmt.Sprintf("histogram is %v", m["histogram"]))
			break
		}
		bs, fs := h["bins"], h["frequencies"]
		total := 0.0
		for _, f := range fs {
			total += f
			if f < 0 {
				e(fmt.Sprintf("histogram frequencies %v", fs))
			}
		}
		if total != n || len(bs) != len(fs)+1 || len(fs) > 32 {
			e(fmt.Sprintf("histogram of %d bins, %d frequencies summing to %v for %v values", len(bs), len(fs), total, n))
		}
		for i := 1; i < len(bs); i++ {
			if bs[i] < bs[i-1] {
				e(fmt.Sprintf("histogram bins %v", bs))
				break
			}
		}
		if len(times) <= 32 {
			ok := len(fs) == len(times)
			for i := range fs {
				ok = ok && times[bs[i]] == fs[i]
			}
			if !ok {
				e(fmt.Sprintf("histogram bins %v frequencies %v of %v", bs, fs, times))
			}
		}
	case "string":
		e(need("count", len(c.strs)))
		min, max := len(c.strs[0]), 0
		times := map[string]int{}
		for _, s := range c.strs {
			if len(s) < min {
				min = len(s)
			}
			if len(s) > max {
				max = len(s)
			}
			times[s]++
		}
		e(need("minLength", min))
		e(need("maxLength", max))
		if len(times) <= 200 {
			e(need("unique", len(times)))
			e(need("frequencies", freqs(times)))
		} else {
			want["unique"], want["frequencies"] = true, true
			u, _ := m["unique"].(int)
			if d := math.Abs(float64(u - len(times))); d > 0.02*float64(len(times)) {
				e(fmt.Sprintf("unique is %v of %d distinct values", m["unique"], len(times)))
			}
			fr, _ := m["frequencies"].(map[string]int)
			if len(fr) == 0 || len(fr) > 200 {
				e(fmt.Sprintf("%d frequencies", len(fr)))
			}
		}
	case "boolean":
		e(need("count", c.t+c.f))
		e(need("trueCount", c.t))
		e(need("falseCount", c.f))
	case "null":
		e(need("count", c.nulls))
	case "array":
		want["values"] = true
		vs, ok := m["values"].([]map[string]interface{})
		if !ok || len(vs) != len(c.items) {
			e(fmt.Sprintf("values is %v, of %d columns", m["values"], len(c.items)))
			break
		}
		for i, it := range c.items {
			if d := it.diff(vs[i], nil); d != "" {
				e(fmt.Sprintf("item %d: %s", i, d))
			}
		}
	case "object":
		for k, it := range c.keys {
			want[k] = true
			if _, ok := extra[k]; ok {
				errs = append(errs, fmt.Sprintf("the statistics of key %q are lost", k))
				continue
			}
			sub, ok := m[k].(map[string]interface{})
			if !ok {
				e(fmt.Sprintf("key %q is %v", k, m[k]))
				continue
			}
			if d := it.diff(sub, nil); d != "" {
				e(fmt.Sprintf("key %q: %s", k, d))
			}
		}
	}
	for k := range m {
		if !want[k] {
			e(fmt.Sprintf("%s: %v is not a statistic of %s values", k, m[k], c.class))
		}
	}
	sort.Strings(errs)
	return strings.Join(errs, "; ")
}

// freqs: long values are abbreviated, with their rank to keep them apart.
func freqs(times map[string]int) map[string]int {
	var ks []string
	for k := range times {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if times[ks[i]] != times[ks[j]] {
			return times[ks[i]] > times[ks[j]]
		}
		return ks[i] < ks[j]
	})
	m := map[string]int{}
	for i, k := range ks {
		name := k
		if len(k) > 40 {
			name = fmt.Sprintf("%s... %d chars (%d)", k[:40], len(k), i)
		}
		m[name] = times[k]
	}
	return m
}

func report(c *col, got []map[string]interface{}) string {
	if c == nil {
		if got != nil {
			return fmt.Sprintf("statistics %v without entries", got)
		}
		return ""
	}
	type want struct {
		c     *col
		extra map[string]string
	}
	var ws []want
	switch c.class {
	case "array":
		for _, it := range c.items {
			ws = append(ws, want{it, map[string]string{"type": it.class}})
		}
	case "object":
		var ks []string
		for k := range c.keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ws = append(ws, want{c.keys[k], map[string]string{"type": c.keys[k].class, "key": k}})
		}
	default:
		ws = append(ws, want{c, map[string]string{"type": c.class}})
	}
	if len(ws) != len(got) {
		return fmt.Sprintf("%d statistics for %d columns: %v", len(got), len(ws), got)
	}
	for i, w := range ws {
		if d := w.c.diff(got[i], w.extra); d != "" {
			return fmt.Sprintf("column %d: %s", i, d)
		}
	}
	return ""
}

func compute(vs []interface{}) *col {
	var c *col
	for _, v := range vs {
		if c == nil {
			c = newCol(v)
		}
		c.add(v)
	}
	return c
}

// check writes values, closes and reads in the pattern given.
func check(t *kit.T, vs []interface{}, pattern string, key string) bool {
	acc := dsstats.NewAccumulator(body.St("json", "", body.Arr(), nil))
	for i, v := range vs {
		if err := acc.WriteEntry(dsio.Entry{Index: i, Value: v}); err != nil {
			t.Failf("writing %s: %v", body.Show(v), err)
			return false
		}
		if pattern == "peek" {
			dsstats.ToMap(acc) // reading early does not disturb
		}
	}
	t.Op(len(vs) + 1)
	want := compute(vs)
	show := func() string {
		s := body.Show(vs)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		return s
	}
	first := ""
	for i, p := range append([]byte("c"), []byte(strings.TrimPrefix(pattern, "peek"))...) {
		if p == 'c' {
			if err := acc.Close(); err != nil {
				t.Failf("closing after %s: %v", show(), err)
				return false
			}
		}
		m := dsstats.ToMap(acc)
		if d := report(want, m); d != "" {
			if key != "" && d == fmt.Sprintf("column 0: the statistics of key %q are lost", strings.TrimPrefix(key, "nested-")) {
				t.FailKey(key, "statistics of %s: %s", show(), d)
			} else {
				t.Failf("statistics of %s, after %q (step %d): %s", show(), "c"+pattern, i, d)
			}
			return false
		}
		b, err := json.Marshal(m)
		if err != nil {
			t.Failf("statistics of %s cannot be encoded: %v", show(), err)
			return false
		}
		if first == "" {
			first = string(b)
		} else if first != string(b) {
			t.Failf("statistics of %s, read again after %q: %s, before %s", show(), "c"+pattern, b, first)
			return false
		}
		// what was read belongs to the caller
		for _, s := range m {
			for k := range s {
				delete(s, k)
			}
		}
	}
	t.State(first)
	t.Trace()
	return true
}

var long = strings.Repeat("x", 40)


func run(r *kit.Run) {
	numbers := []interface{}{0, -1, int64(math.MaxInt64), int64(math.MinInt64), 0.5, 1e300, int32(7), float32(2.5), uint64(math.MaxUint64)}
	strs := []interface{}{"", "a", "b", "é", long, long + "y", long + "z", "true"}
	mixed := []interface{}{nil, 1, 2.5, "1", "x", true, false, []interface{}{1, "a"}, []interface{}{}, map[string]interface{}{"a": 1}, map[string]interface{}{"b": "s", "c": nil}}
	patterns := []string{"", "cr", "rcc", "peekc"}
	column := func(name string, alphabet []interface{}, max int) {
		r.Explore(name, func(c *kit.C) func(*kit.T) {
			n := c.Range(0, max)
			vs := make([]interface{}, n)
			for i := range vs {
				vs[i] = kit.Pick(c, alphabet)
			}
			wrap := c.Choose(3)
			p := ""
			if n <= 3 {
				p = kit.Pick(c, patterns)
			}
			return func(t *kit.T) {
				es := make([]interface{}, n)
				for i, v := range vs {
					switch wrap {
					case 0:
						es[i] = v
					case 1:
						es[i] = []interface{}{v}
					case 2:
						es[i] = map[string]interface{}{"k": v}
					}
				}
				check(t, body.Clone(es).([]interface{}), p, "")
			}
		})
	}
	column("columns of numbers", numbers, r.T0(4, 5))
	column("columns of strings", strs, r.T0(4, 5))
	column("columns of mixed kinds", mixed, r.T0(4, 5))
	column("columns of booleans", []interface{}{true, false, nil}, r.T0(6, 8))
	small := []interface{}{nil, 1, 2.5, "s", "t", true, []interface{}{"n", 3}}
	r.Explore("extreme numbers", func(c *kit.C) func(*kit.T) {
		n := c.Range(1, r.T0(3, 4))
		es := make([]interface{}, n)
		for i := range es {
			es[i] = kit.Pick(c, []interface{}{math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, math.Copysign(0, -1), int64(math.MinInt64), int64(1), nil})
		}
		return func(t *kit.T) {
			check(t, body.Clone(es).([]interface{}), "", "")
		}
	})
	r.Explore("tables with uneven rows", func(c *kit.C) func(*kit.T) {
		n := c.Range(1, 3)
		es := make([]interface{}, n)
		for i := range es {
			row := make([]interface{}, c.Range(0, r.T0(2, 3)-i/2))
			for j := range row {
				row[j] = kit.Pick(c, small)
			}
			es[i] = row
		}
		return func(t *kit.T) { check(t, body.Clone(es).([]interface{}), "cr", "") }
	})
	r.Explore("objects with missing keys", func(c *kit.C) func(*kit.T) {
		n := c.Range(1, 3)
		es := make([]interface{}, n)
		for i := range es {
			o := map[string]interface{}{}
			for _, k := range []string{"b", "a"} {
				if v := c.Choose(len(small) + 1); v > 0 {
					o[k] = small[v-1]
				}
			}
			es[i] = o
		}
		return func(t *kit.T) { check(t, body.Clone(es).([]interface{}), "r", "") }
	})
	r.Explore("nested", func(c *kit.C) func(*kit.T) {
		n := c.Range(1, 2)
		es := make([]interface{}, n)
		leaf := func() interface{} { return kit.Pick(c, []interface{}{1, "s", nil, true}) }
		node := func() interface{} {
			switch c.Choose(4) {
			case 0:
				return []interface{}{leaf(), leaf()}
			case 1:
				return map[string]interface{}{"x": leaf(), "count": leaf()}
			case 2:
				return []interface{}{map[string]interface{}{"values": leaf()}}
			}
			return leaf()
		}
		for i := range es {
			if c.Bool() {
				es[i] = []interface{}{node()}
			} else {
				es[i] = map[string]interface{}{"o": node()}
			}
		}
		return func(t *kit.T) { check(t, body.Clone(es).([]interface{}), "c", "") }
	})
	r.Explore("nested objects with keys of statistics", func(c *kit.C) func(*kit.T) {
		name := kit.Pick(c, []string{"key", "type", "count", "values", "min", "mean", "histogram", "frequencies"})
		arr := c.Bool()
		return func(t *kit.T) {
			in := map[string]interface{}{name: 1, "other": 2}
			var e interface{} = map[string]interface{}{"a": in}
			key := ""
			if arr {
				e = []interface{}{in}
				if name == "type" {
					key = "nested-type"
				}
			} else if name == "key" || name == "type" {
				key = "nested-" + name
			}
			check(t, []interface{}{e}, "c", key)
		}
	})
	r.Explore("long columns", func(c *kit.C) func(*kit.T) {
		n := kit.Pick(c, []int{1, 10, 31, 32, 33, 34, 64, 199, 200, 201, 250, 2000})
		kind := c.Choose(6)
		return func(t *kit.T) {
			es := make([]interface{}, n)
			x := uint64(11)
			for i := range es {
				x = x*6364136223846793005 + 1442695040888963407
				switch kind {
				case 0:
					es[i] = i
				case 1:
					es[i] = float64(x>>40)/1024 - 5000
				case 2:
					es[i] = int64(i % 32)
				case 3:
					es[i] = fmt.Sprint("value ", i)
				case 4:
					es[i] = fmt.Sprint("value ", x%200)
				case 5:
					es[i] = fmt.Sprint(long, i%150)
				}
			}
			check(t, es, "cr", "")
		}
	})
	type src struct{ format, comp, doc string }
	r.Explore("statistics of body files", func(c *kit.C) func(*kit.T) {
		n := c.Range(0, 3)
		format := kit.Pick(c, []string{"json", "ndjson", "cbor", "csv", "xlsx"})
		comp := ""
		if format != "xlsx" {
			comp = kit.Pick(c, []string{"", "gzip", "zst"})
		}
		vs := make([]interface{}, n)
		for i := range vs {
			vs[i] = []interface{}{kit.Pick(c, []interface{}{int64(3), int64(-4)}), kit.Pick(c, []interface{}{"u", "v"})}
		}
		return func(t *kit.T) {
			schema := body.Table("integer", "string")
			st := body.St(format, comp, schema, nil)
			var buf strings.Builder
			es := make([]dsio.Entry, n)
			for i := range es {
				es[i] = dsio.Entry{Index: i, Value: vs[i]}
			}
			if err := body.WriteBody(st, &buf, es); err != nil {
				panic(err)
			}
			ds := &dataset.Dataset{Structure: st}
			ds.SetBodyFile(qfs.NewMemfileBytes("body."+format, []byte(buf.String())))
			sa, err := dsstats.Calculate(ds)
			t.Op(1)
			if err != nil {
				t.Failf("statistics of a %s body of %s: %v", format, body.Show(vs), err)
				return
			}
			if sa.Qri != "sa:0" {
				t.Failf("statistics of a %s body have kind %q", format, sa.Qri)
			}
			got, _ := sa.Stats.([]map[string]interface{})
			if d := report(compute(vs), got); d != "" {
				t.Failf("statistics of a %s body of %s: %s", format, body.Show(vs), d)
			}
			t.Trace()
			t.State(format, comp, body.Show(vs))
		}
	})
	r.Explore("failing readers", func(c *kit.C) func(*kit.T) {
		n := c.Range(0, 3)
		bad := c.Range(-1, n)
		return func(t *kit.T) {
			rd := &list{bad: bad, n: n}
			sa, err := dsstats.CalculateFromEntryReader(rd)
			t.Op(1)
			if (err != nil) != (bad >= 0) || err != nil && sa != nil {
				t.Failf("%d entries, failing at %d: statistics %v, error %v", n, bad, sa, err)
			}
			if _, err := dsstats.Calculate(&dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: body.Arr()}}); err == nil {
				t.Failf("statistics without a body")
			}
			ds := &dataset.Dataset{}
			ds.SetBodyFile(qfs.NewMemfileBytes("b.json", []byte("[]")))
			if _, err := dsstats.Calculate(ds); err == nil {
				t.Failf("statistics without a structure")
			}
			t.Trace()
			t.State(n, bad)
		}
	})
}

type list struct{ bad, n, pos int }

func (l *list) Structure() *dataset.Structure { return body.St("json", "", body.Arr(), nil) }
func (l *list) Close() error                  { return nil }
func (l *list) ReadEntry() (dsio.Entry, error) {
	if l.pos == l.bad {
		return dsio.Entry{}, body.ErrFault
	}
	if l.pos == l.n {
		return dsio.Entry{}, io.EOF
	}
	l.pos++
	return dsio.Entry{Index: l.pos - 1, Value: l.pos}, nil
}
