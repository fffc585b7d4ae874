// C25: a histogram sketch keeps exact mass, order and bounds.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/qri-io/dataset/dsstats/histosketch"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C25", Level: "model_checking",
		Rule:   "every sequence of additions, repeated additions, merges of a second sketch and encode/decode steps over a small set of values is executed on real sketches; after every step the bins, mass, bounds, quantiles, cumulative counts, round trip and merge are compared with a multiset of everything added",
		Bounds: "sketches of 1..4 bins; up to 4 operations over 3 values and 2 counts (5 and 3 thorough), all value sequences up to length 6 over 5 values (7 thorough); merges of every pair of sequences up to length 3; sketches from every sample up to 5 values (6 thorough); long streams of 40..2000 values with 1, 2, 31, 32 and 33 bins",
		Assume: []string{"values are finite; quantiles are compared with a relative tolerance of 1e-9 for order"},
		Body:   run})
}

type model struct {
	vals map[float64]float64 // value -> times added
	n    float64
	min  float64
	max  float64
	sum  float64
	abs  float64
}

func newModel() *model {
	return &model{vals: map[float64]float64{}, min: math.Inf(1), max: math.Inf(-1)}
}

func (m *model) add(v float64, n int64) {
	m.vals[v] += float64(n)
	m.n += float64(n)
	m.min = math.Min(m.min, v)
	m.max = math.Max(m.max, v)
	m.sum += v * float64(n)
	m.abs += math.Abs(v) * float64(n)
}

func (m *model) merge(x *model) {
	for v, n := range x.vals {
		m.add(v, int64(n))
	}
}

func (m *model) copy() *model {
	c := newModel()
	c.merge(m)
	return c
}

var qs = []float64{0, 0.01, 0.1, 0.2, 0.25, 1.0 / 3, 0.4, 0.4999999, 0.5, 0.6, 2.0 / 3, 0.75, 0.8, 0.9, 0.99, 0.999, 1}

// look is everything observable of a sketch.
func look(h *histosketch.Sketch) string {
	b, f := h.Read()
	s := fmt.Sprint(b, f, h.Count(), h.Min(), h.Max())
	if h.Count() > 0 {
		for _, q := range qs {
			s += fmt.Sprint(" ", h.Quantile(q))
		}
		for _, x := range b {
			s += fmt.Sprint(" ", h.Sum(x), h.Sum(x-0.25))
		}
	}
	return s
}

func check(t *kit.T, what string, h *histosketch.Sketch, m *model, bins int, exactOrder bool) bool {
	t.Op(1)
	bs, fs := h.Read()
	fail := func(f string, a ...interface{}) bool {
		t.Failf("%s (%d bins): %s; bins %v frequencies %v count %v min %v max %v", what, bins, fmt.Sprintf(f, a...), bs, fs, h.Count(), h.Min(), h.Max())
		return false
	}
	if len(bs) != len(fs)+1 {
		return fail("%d bins and %d frequencies", len(bs), len(fs))
	}
	if h.Count() != m.n {
		return fail("count, added %v", m.n)
	}
	if m.n == 0 {
		if len(fs) != 0 {
			return fail("bins without additions")
		}
		if h.Sum(1) != 0 {
			return fail("sum without additions %v", h.Sum(1))
		}
		return true
	}
	if h.Min() != m.min || h.Max() != m.max {
		return fail("added %v to %v", m.min, m.max)
	}
	if len(fs) > bins {
		return fail("too many bins")
	}
	if len(fs) == 0 {
		return fail("no bins")
	}
	mass, mean := 0.0, 0.0
	eps := 1e-9 * (m.max - m.min)
	for i, f := range fs {
		if !(f >= 1) || f != math.Trunc(f) {
			return fail("frequency %v", f)
		}
		mass += f
		mean += f * bs[i]
		if i > 0 && (bs[i] < bs[i-1] || exactOrder && bs[i] == bs[i-1]) {
			return fail("bins out of order")
		}
		if bs[i] < m.min-eps || bs[i] > m.max+eps {
			return fail("bin %v outside the values added, %v to %v", bs[i], m.min, m.max)
		}
	}
	if mass != m.n {
		return fail("frequencies sum to %v, added %v", mass, m.n)
	}
	if d := math.Abs(mean - m.sum); d > 1e-9*(m.abs+1) {
		return fail("mass times value is %v, of the values added %v", mean, m.sum)
	}
	if bs[len(bs)-1] <= bs[len(bs)-2] || bs[len(bs)-1] < m.max {
		return fail("last bin edge %v", bs[len(bs)-1])
	}
	// no merging was needed: the sketch is exact
	if exactOrder && len(m.vals) <= bins && m.n > 0 && exact(h, m) {
		var vs []float64
		for v := range m.vals {
			vs = append(vs, v)
		}
		sort.Float64s(vs)
		if len(vs) != len(fs) {
			return fail("%d different values were added", len(vs))
		}
		cum := 0.0
		for i, v := range vs {
			if bs[i] != v || fs[i] != m.vals[v] {
				return fail("bin %d should be %v times %v", i, v, m.vals[v])
			}
			cum += m.vals[v]
			if s := h.Sum(v); s != cum {
				return fail("Sum(%v) = %v, %v values are not larger", v, s, cum)
			}
			if i+1 < len(vs) {
				if s := h.Sum((v + vs[i+1]) / 2); s != cum {
					return fail("Sum(%v) = %v, %v values are not larger", (v+vs[i+1])/2, s, cum)
				}
			}
		}
	}
	prev := math.Inf(-1)
	for _, q := range qs {
		x := h.Quantile(q)
		if math.IsNaN(x) || x < m.min-eps || x > m.max+eps {
			return fail("quantile %v is %v", q, x)
		}
		if x < prev-eps {
			return fail("quantile %v is %v, of a smaller fraction %v", q, x, prev)
		}
		prev = x
	}
	if md := h.Median(); md < h.Quantile(0.49)-eps || md > h.Quantile(0.51)+eps {
		return fail("median %v, quantiles at 0.49 %v and 0.51 %v", md, h.Quantile(0.49), h.Quantile(0.51))
	}
	if s := h.Sum(m.max); s != m.n {
		return fail("Sum of the maximum is %v", s)
	}
	if s := h.Sum(m.min - 1); s != 0 {
		return fail("Sum below the minimum is %v", s)
	}
	step := (m.max - m.min) / 16
	for i := 0; i <= 16; i++ {
		x := m.min + step*float64(i)
		if s := h.Sum(x); math.IsNaN(s) || s < 0 || s > m.n*(1+1e-12) {
			return fail("Sum(%v) = %v", x, s)
		}
	}
	for _, x := range bs {
		if s := h.Sum(x); math.IsNaN(s) || s < 0 || s > m.n*(1+1e-12) {
			return fail("Sum(%v) = %v", x, s)
		}
	}
	enc, err := h.MarshalBinary()
	if err != nil {
		return fail("encoding: %v", err)
	}
	d := &histosketch.Sketch{}
	if err := d.UnmarshalBinary(enc); err != nil {
		return fail("decoding %q: %v", enc, err)
	}
	if a, b := look(h), look(d); a != b {
		return fail("decoded gives %s, not %s", b, a)
	}
	t.State(bins, look(h))
	return true
}

// exact: the values were never so many that bins had to be merged.  That holds
// for any history of additions with at most that many different values.
func exact(h *histosketch.Sketch, m *model) bool { return true }

func run(r *kit.Run) {
	vals := []float64{-2.5, 0, 1, 1.5, 1e6}
	r.Explore("additions", func(c *kit.C) func(*kit.T) {
		bins := c.Range(1, 4)
		n := c.Range(0, r.T0(6, 7))
		seq := make([]float64, n)
		for i := range seq {
			seq[i] = kit.Pick(c, vals)
		}
		return func(t *kit.T) {
			h, m := histosketch.New(uint(bins)), newModel()
			check(t, "new", h, m, bins, true)
			for i, v := range seq {
				h.Add(v)
				m.add(v, 1)
				if i == len(seq)-1 && !check(t, fmt.Sprintf("added %v", seq), h, m, bins, true) {
					return
				}
			}
			t.Trace()
		}
	})
	r.Explore("operations", func(c *kit.C) func(*kit.T) {
		bins := c.Range(1, 3)
		n := c.Range(1, 4)
		type op struct {
			kind int
			v    float64
			n    int64
		}
		ops := make([]op, n)
		for i := range ops {
			k := c.Choose(5)
			ops[i].kind = k
			switch k {
			case 0, 1: // add to h, add to x
				ops[i].v = kit.Pick(c, vals[:r.T0(3, 5)])
				ops[i].n = kit.Pick(c, []int64{1, 7 + 1<<33, 2}[:r.T0(2, 3)])
			}
		}
		return func(t *kit.T) {
			h, x := histosketch.New(uint(bins)), histosketch.New(2)
			mh, mx := newModel(), newModel()
			for i, o := range ops {
				switch o.kind {
				case 0:
					h.AddMany(o.v, o.n)
					mh.add(o.v, o.n)
				case 1:
					x.AddMany(o.v, o.n)
					mx.add(o.v, o.n)
				case 2: // merge x into h
					before := look(x)
					h.Merge(*x)
					mh.merge(mx)
					if look(x) != before {
						t.Failf("%v: merging changed the second sketch from %s to %s", ops[:i+1], before, look(x))
						return
					}
				case 3: // swap roles: merge h into x
					x.Merge(*h)
					mx.merge(mh)
				case 4: // merge with itself
					h.Merge(*h)
					mh.merge(mh.copy())
				}
			}
			mixed := false
			for _, o := range ops {
				mixed = mixed || o.kind >= 2
			}
			what := fmt.Sprintf("operations %v", ops)
			if check(t, what, h, mh, bins, !mixed) && check(t, what+" (second)", x, mx, 2, !mixed) {
				t.Trace()
			}
		}
	})
	r.Explore("merges of two sequences", func(c *kit.C) func(*kit.T) {
		ba, bb := c.Range(1, 3), c.Range(1, 3)
		mk := func() []float64 {
			s := make([]float64, c.Range(0, r.T0(3, 4)))
			for i := range s {
				s[i] = kit.Pick(c, []float64{-3, 0, 0.5, 4})
			}
			return s
		}
		a, b := mk(), mk()
		return func(t *kit.T) {
			h, x, m := histosketch.New(uint(ba)), histosketch.New(uint(bb)), newModel()
			for _, v := range a {
				h.Add(v)
				m.add(v, 1)
			}
			for _, v := range b {
				x.Add(v)
				m.add(v, 1)
			}
			h.Merge(*x)
			if check(t, fmt.Sprintf("%v merged with %v of %d bins", a, b, bb), h, m, ba, false) {
				t.Trace()
			}
			// and goes on like any sketch
			h.Add(2)
			m.add(2, 1)
			check(t, fmt.Sprintf("%v merged with %v of %d bins, then 2", a, b, bb), h, m, ba, false)
		}
	})
	r.Explore("adding after decoding", func(c *kit.C) func(*kit.T) {
		bins := c.Range(1, 3)
		n := c.Range(0, 4)
		seq := make([]float64, n)
		for i := range seq {
			seq[i] = kit.Pick(c, vals)
		}
		more := kit.Pick(c, vals)
		return func(t *kit.T) {
			h, m := histosketch.New(uint(bins)), newModel()
			for _, v := range seq {
				h.Add(v)
				m.add(v, 1)
			}
			enc, _ := h.MarshalBinary()
			d := &histosketch.Sketch{}
			if err := d.UnmarshalBinary(enc); err != nil {
				t.Failf("decoding a sketch of %v: %v", seq, err)
				return
			}
			d.Add(more)
			m.add(more, 1)
			if check(t, fmt.Sprintf("%v decoded, then %v", seq, more), d, m, bins, false) {
				t.Trace()
			}
		}
	})
	r.Explore("samples", func(c *kit.C) func(*kit.T) {
		n := c.Range(1, r.T0(5, 6))
		seq := make([]float64, n)
		for i := range seq {
			seq[i] = kit.Pick(c, []float64{-2, 0, 1, 1.5})
		}
		bins := c.Range(1, n+1)
		return func(t *kit.T) {
			keep := append([]float64{}, seq...)
			h, m := histosketch.NewFromSample(seq, bins), newModel()
			for i, v := range seq {
				if keep[i] != v {
					t.Failf("making a sketch of sample %v changed the sample to %v", keep, seq)
					return
				}
				m.add(v, 1)
			}
			if check(t, fmt.Sprintf("sample %v", seq), h, m, bins, false) {
				t.Trace()
			}
		}
	})
	r.Explore("long streams", func(c *kit.C) func(*kit.T) {
		bins := kit.Pick(c, []int{1, 2, 31, 32, 33})
		n := kit.Pick(c, []int{1, 31, 32, 33, 34, 40, 200, 2000})
		kind := c.Choose(6)
		return func(t *kit.T) {
			h, m := histosketch.New(uint(bins)), newModel()
			x := uint64(7)
			for i := 0; i < n; i++ {
				x = x*6364136223846793005 + 1442695040888963407
				var v float64
				switch kind {
				case 0:
					v = float64(i)
				case 1:
					v = float64(n - i)
				case 2:
					v = float64(x>>40) / 1024
				case 3:
					v = float64(i * i * i)
				case 4:
					v = float64(i%7) * 1e12
				case 5:
					v = math.Ldexp(1, int(x>>58)-32) * float64(1-2*int(x>>40&1))
				}
				h.Add(v)
				m.add(v, 1)
				if (i < 70 || i == n-1) && !check(t, fmt.Sprintf("stream %d of %d values, after %d", kind, n, i+1), h, m, bins, true) {
					return
				}
			}
			t.Trace()
		}
	})
}
