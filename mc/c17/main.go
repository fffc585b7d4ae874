// C17: paging, limiting, copying and converting deliver exactly the right entries.
package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C17", Level: "model_checking",
		Rule:   "every combination of body length, offset, limit, source format, target format and compression: the page, the copy and the conversion are compared with the slice of the full list of entries; bodies broken at every entry check that failures inside the page are reported and failures after it are not reached",
		Bounds: "0..6 entries (0..9 thorough), offsets 0..n+2, limits -3..n+2, 7 sources by 11 targets by compressions; long bodies of 6000 entries at page boundaries; two levels of nested pages",
		Body:   run})
}

type shape struct {
	name, format, comp, indent string
	obj                        bool
	cfg                        map[string]interface{}
}

func (s shape) st() *dataset.Structure {
	schema := body.Arr()
	if s.obj {
		schema = body.Obj()
	}
	if s.format == "csv" || s.format == "xlsx" {
		schema = body.Table("integer", "string")
	}
	return body.St(s.format, s.comp, schema, s.cfg)
}

var hdr = map[string]interface{}{"headerRow": true}

var sources = []shape{
	{"json", "json", "", "", false, nil}, {"json object", "json", "", "", true, nil}, {"ndjson", "ndjson", "gzip", "", false, nil},
	{"cbor", "cbor", "", "", false, nil}, {"cbor object", "cbor", "zst", "", true, nil}, {"csv", "csv", "", "", false, hdr}, {"xlsx", "xlsx", "", "", false, nil},
}

var targets = []shape{
	{"json", "json", "", "", false, nil}, {"json object", "json", "", "", true, nil}, {"pretty json", "json", "", "", false, map[string]interface{}{"pretty": true}}, {"pretty json object", "json", "", "", true, map[string]interface{}{"pretty": true}},
	{"plain json", "json", "gzip", "", false, map[string]interface{}{"pretty": false}}, {"pretty compressed json", "json", "zst", "", false, map[string]interface{}{"pretty": true}},
	{"ndjson", "ndjson", "", "", false, nil}, {"cbor", "cbor", "", "", false, nil}, {"cbor object", "cbor", "", "", true, nil},
	{"csv", "csv", "zst", "", false, hdr}, {"xlsx", "xlsx", "", "", false, nil},
}

// entries of a kind: distinct rows, equal rows, nulls, or all sorts of empty values.
func entries(n int, obj bool, kind int) []dsio.Entry {
	es := make([]dsio.Entry, n)
	for i := range es {
		es[i] = dsio.Entry{Index: i, Value: []interface{}{int64(i * 11), fmt.Sprintf("row, \"%d\"", i)}}
		switch kind {
		case 1:
			es[i].Value = []interface{}{int64(0), "same"}
		case 2:
			es[i].Value = nil
		case 3:
			es[i].Value = []interface{}{nil, "", false, int64(0), []interface{}{}, map[string]interface{}{}}[i%6]
		}
		if obj {
			es[i].Key = fmt.Sprintf("k%05d", i)
		}
	}
	return es
}

func (s shape) table() bool { return s.format == "csv" || s.format == "xlsx" }

func kinds(tables ...bool) int {
	for _, t := range tables {
		if t {
			return 2
		}
	}
	return 4
}

func raw(s shape, es []dsio.Entry) []byte {
	buf := &bytes.Buffer{}
	if err := body.WriteBody(s.st(), buf, body.CloneEntries(es)); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func slice(es []dsio.Entry, off, lim int) []dsio.Entry {
	if off > len(es) {
		off = len(es)
	}
	es = es[off:]
	if lim >= 0 && lim < len(es) {
		es = es[:lim]
	}
	return es
}

func same(a, b []dsio.Entry, sorted, keys bool) bool {
	if len(a) != len(b) {
		return false
	}
	if sorted {
		a, b = append([]dsio.Entry{}, a...), append([]dsio.Entry{}, b...)
		sort.Slice(a, func(i, j int) bool { return a[i].Key < a[j].Key })
		sort.Slice(b, func(i, j int) bool { return b[i].Key < b[j].Key })
	}
	for i := range a {
		if keys && a[i].Key != b[i].Key || !body.Eq(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// list is a reader of given entries that fails at entry bad.
type list struct {
	st   *dataset.Structure
	es   []dsio.Entry
	bad  int
	pos  int
	read int
	shut int
}

func (l *list) Structure() *dataset.Structure { return l.st }
func (l *list) Close() error                  { l.shut++; return nil }
func (l *list) ReadEntry() (dsio.Entry, error) {
	if l.pos == l.bad {
		return dsio.Entry{}, body.ErrFault
	}
	if l.pos >= len(l.es) {
		return dsio.Entry{}, io.EOF
	}
	l.pos++
	return l.es[l.pos-1], nil
}

// flaky is a list whose reading fails some times at entry at, and then goes on.
type flaky struct {
	list
	at, times int
}

func (f *flaky) ReadEntry() (dsio.Entry, error) {
	if f.pos == f.at && f.times > 0 {
		f.times--
		return dsio.Entry{}, body.ErrFault
	}
	return f.list.ReadEntry()
}

// sink is a writer that fails at entry bad.
type sink struct {
	st  *dataset.Structure
	es  []dsio.Entry
	bad int
}

func (l *sink) Structure() *dataset.Structure { return l.st }
func (l *sink) Close() error                  { return nil }
func (l *sink) WriteEntry(e dsio.Entry) error {
	if len(l.es) == l.bad {
		return body.ErrFault
	}
	l.es = append(l.es, e)
	return nil
}

func run(r *kit.Run) {
	maxN := r.T0(6, 9)
	r.Explore("pages", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, sources)
		kind := c.Choose(kinds(s.table()))
		n := c.Range(0, maxN)
		off := c.Range(0, n+2)
		lim := c.Range(-3, n+2)
		return func(t *kit.T) {
			es := entries(n, s.obj, kind)
			rd, err := dsio.NewEntryReader(s.st(), bytes.NewReader(raw(s, es)))
			if err != nil {
				t.Failf("%v", err)
			}
			p := &dsio.PagedReader{Reader: rd, Offset: off, Limit: lim}
			got, err := body.Drain(p, n+5)
			t.Op(len(got) + 1)
			t.Trace()
			want := slice(es, off, lim)
			if err != nil || !same(want, got, false, true) {
				t.Failf("%s of %d entries, offset %d limit %d: got %s, error %v", s.name, n, off, lim, body.ShowEntries(got), err)
			}
			for i := 0; i < 3 && lim >= 0 && off+lim <= n; i++ {
				if _, err := p.ReadEntry(); err != io.EOF {
					t.Failf("%s of %d entries, offset %d limit %d: after the end of the page: error %v", s.name, n, off, lim, err)
				}
			}
			if p.Structure() != rd.Structure() || p.Close() != nil {
				t.Failf("structure or close")
			}
			t.State(s.name, n, off, lim)
		}
	})
	r.Explore("pages of pages and of failing readers", func(c *kit.C) func(t *kit.T) {
		kind := c.Choose(4)
		n := c.Range(0, 4)
		bad := c.Range(-1, n)
		o1, l1 := c.Range(0, n+1), c.Range(-1, n+1)
		o2, l2 := c.Range(0, n+1), c.Range(-1, n+1)
		return func(t *kit.T) {
			es := entries(n, false, kind)
			src := &list{st: sources[0].st(), es: es, bad: bad}
			p := &dsio.PagedReader{Reader: &dsio.PagedReader{Reader: src, Offset: o1, Limit: l1}, Offset: o2, Limit: l2}
			got, err := body.Drain(p, n+5)
			t.Op(len(got) + 1)
			t.Trace()
			inner := slice(es, o1, l1)
			want := slice(inner, o2, l2)
			fails := false
			if bad >= 0 {
				// how far into the list this page reaches
				end := o2 + len(want) // in the inner page
				if l2 < 0 || o2+l2 > len(inner) {
					end = -1 // reaches for the end of the inner page
				}
				if o2 > len(inner) {
					end = -1
				}
				reach := o1 + end
				if end < 0 {
					// the inner page tells its end from its limit, or from the end of the list
					if l1 >= 0 && o1+l1 <= n {
						reach = o1 + l1
					} else {
						reach = n + 1
					}
				}
				if l2 == 0 {
					// nothing is read beyond the offset
					reach = o1 + o2
					if l1 >= 0 && o2 > l1 {
						reach = o1 + l1
					}
					if o2 == 0 {
						reach = 0
					}
				}
				fails = bad < reach
				if fails {
					k := bad - o1 - o2
					if k < 0 {
						k = 0
					}
					if k < len(want) {
						want = want[:k]
					}
				}
			}
			if fails != (err != nil) || !same(want, got, false, true) {
				t.Failf("list of %d entries failing at %d, page %d+%d of page %d+%d: got %s, error %v; want %d entries, failing %v", n, bad, o2, l2, o1, l1, body.ShowEntries(got), err, len(want), fails)
			}
			t.State(n, bad, o1, l1, o2, l2)
		}
	})
	// a source that fails for a while: reading on never leaves the page
	r.Explore("pages of a source that recovers", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(5, 7))
		at := c.Range(0, n)
		times := c.Range(1, 3)
		off := c.Range(0, n+1)
		lim := c.Range(-1, n+1)
		return func(t *kit.T) {
			es := entries(n, false, 0)
			src := &flaky{list: list{st: sources[0].st(), es: es, bad: -1}, at: at, times: times}
			p := &dsio.PagedReader{Reader: src, Offset: off, Limit: lim}
			var got []dsio.Entry
			fails := 0
			for i := 0; ; i++ {
				e, err := p.ReadEntry()
				t.Op(1)
				if err == io.EOF {
					break
				} else if err != nil {
					fails++
				} else {
					got = append(got, e)
				}
				if i > n+5 {
					t.Failf("no end")
				}
			}
			t.Trace()
			want := slice(es, off, lim)
			if fails != times-src.times || len(got) > len(want) || len(got) < len(want)-fails || !same(want[:len(got)], got, false, true) {
				t.Failf("list of %d entries that fails %d times at %d, offset %d limit %d: %d failures, then %s", n, times, at, off, lim, fails, body.ShowEntries(got))
			}
			t.State(n, at, times, off, lim)
		}
	})
	r.Explore("copies", func(c *kit.C) func(t *kit.T) {
		kind := c.Choose(4)
		n := c.Range(0, maxN)
		rbad := c.Range(-1, n)
		wbad := c.Range(-1, n)
		return func(t *kit.T) {
			es := entries(n, true, kind)
			src := &list{st: sources[1].st(), es: es, bad: rbad}
			dst := &sink{st: targets[1].st(), bad: wbad}
			err := dsio.Copy(src, dst)
			t.Op(n + 1)
			t.Trace()
			want := n
			fails := false
			if rbad >= 0 && rbad <= n {
				fails, want = true, rbad
			}
			if wbad >= 0 && wbad < want {
				fails, want = true, wbad
			}
			if fails != (err != nil) || !body.EqEntries(dst.es, es[:want], true, body.EqTyped) {
				t.Failf("copy of %d entries, reader failing at %d, writer at %d: %d entries copied, error %v", n, rbad, wbad, len(dst.es), err)
			}
			// each entry in turn, and a callback that stops or fails
			src = &list{st: sources[1].st(), es: es, bad: rbad}
			var seen []dsio.Entry
			err = dsio.EachEntry(src, func(i int, e dsio.Entry, err error) error {
				if i != len(seen) || err != nil {
					t.Failf("entry %d is called number %d, error %v", len(seen), i, err)
				}
				if len(seen) == wbad {
					return body.ErrFault
				}
				seen = append(seen, e)
				return nil
			})
			if fails != (err != nil) || !body.EqEntries(seen, es[:want], true, body.EqTyped) {
				t.Failf("each of %d entries, reader failing at %d, callback at %d: %d entries, error %v", n, rbad, wbad, len(seen), err)
			}
			t.State(n, rbad, wbad)
		}
	})
	r.Explore("conversions", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, sources)
		o := kit.Pick(c, targets)
		if o.obj && !s.obj {
			return nil
		}
		kind := c.Choose(kinds(s.table(), o.table()))
		n := c.Range(0, r.T0(4, 7))
		all := c.Bool()
		off, lim := c.Range(0, n+1), c.Range(-1, n+1)
		return func(t *kit.T) {
			es := entries(n, s.obj, kind)
			data, err := dsio.ConvertFile(qfs.NewMemfileBytes("body."+s.format, raw(s, es)), s.st(), o.st(), lim, off, all)
			want := es
			if !all {
				want = slice(es, off, lim)
			}
			ctx := fmt.Sprintf("%s of %d entries to %s, offset %d limit %d all %v", s.name, n, o.name, off, lim, all)
			if err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			got, err := body.ReadBody(o.st(), bytes.NewReader(data), n+5)
			t.Op(len(got) + 1)
			t.Trace()
			if err != nil || !same(want, got, o.obj && o.format == "cbor", o.obj) {
				t.Failf("%s: converted to %q, which reads as %s, error %v", ctx, data, body.ShowEntries(got), err)
			}
			if o.format == "json" && o.comp == "" && len(want) > 0 {
				pretty, _ := o.cfg["pretty"].(bool)
				if pretty != bytes.Contains(data, []byte("\n")) {
					t.Failf("%s: pretty printing in %q", ctx, data)
				}
			}
			t.State(s.name, o.name, data)
		}
	})
	r.Explore("conversions of broken bodies", func(c *kit.C) func(t *kit.T) {
		o := kit.Pick(c, targets)
		if o.obj {
			return nil
		}
		n := c.Range(0, 3)
		bad := c.Range(0, n)
		all := c.Bool()
		off, lim := c.Range(0, n+1), c.Range(-1, n+1)
		kind := c.Choose(2)
		return func(t *kit.T) {
			// entry bad cannot be read (kind 0), or cannot be written as a table row (kind 1)
			doc := ""
			for i := 0; i < n+1; i++ {
				if i == bad {
					doc += []string{"[1,,\n", "\"no row\"\n"}[kind]
				} else {
					doc += fmt.Sprintf("[%d,\"s\"]\n", i)
				}
			}
			st := body.St("ndjson", "", body.Arr(), nil)
			data, err := dsio.ConvertFile(qfs.NewMemfileBytes("b.ndjson", []byte(doc)), st, o.st(), lim, off, all)
			t.Op(1)
			t.Trace()
			reached := all || bad < off || lim < 0 || bad < off+lim
			if !all && lim == 0 && bad >= off {
				reached = false
			}
			fails := reached
			if kind == 1 {
				// only tables refuse it, and only when it is in the page
				fails = (o.format == "csv" || o.format == "xlsx") && (all || bad >= off && (lim < 0 || bad < off+lim))
			}
			if fails != (err != nil) {
				t.Failf("%q to %s, offset %d limit %d all %v: %q, error %v", doc, o.name, off, lim, all, data, err)
			}
			t.State(doc, o.name, off, lim, all)
		}
	})
	r.Explore("long bodies", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, sources)
		off := kit.Pick(c, []int{0, 1, 99, 100, 2000, 4999, 5000, 5001, 5999, 6000})
		lim := kit.Pick(c, []int{-1, 0, 1, 100, 1000, 6000})
		if s.format == "xlsx" && !r.Thorough {
			return nil
		}
		return func(t *kit.T) {
			es := entries(6000, s.obj, 0)
			data, err := dsio.ConvertFile(qfs.NewMemfileBytes("b", raw(s, es)), s.st(), targets[6].st(), lim, off, false)
			if err != nil {
				t.Failf("%v", err)
			}
			got, err := body.ReadBody(targets[6].st(), bytes.NewReader(data), 7000)
			t.Op(len(got))
			t.Trace()
			if err != nil || !same(slice(es, off, lim), got, false, false) {
				t.Failf("6000 entries of %s, offset %d limit %d: %d entries, error %v", s.name, off, lim, len(got), err)
			}
		}
	})
	r.Explore("reading everything", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, sources)
		kind := c.Choose(kinds(s.table()))
		n := c.Range(0, maxN)
		return func(t *kit.T) {
			es := entries(n, s.obj, kind)
			rd, err := dsio.NewEntryReader(s.st(), bytes.NewReader(raw(s, es)))
			if err != nil {
				t.Failf("%v", err)
			}
			got, err := dsio.ReadAll(rd)
			var want interface{} = map[string]interface{}{}
			if s.obj {
				for _, e := range es {
					want.(map[string]interface{})[e.Key] = e.Value
				}
			} else {
				w := []interface{}{}
				for _, e := range es {
					w = append(w, e.Value)
				}
				want = w
			}
			t.Op(n)
			t.Trace()
			if err != nil || !body.Eq(want, got) {
				t.Failf("%s of %d entries read as %s, error %v", s.name, n, body.Show(got), err)
			}
		}
	})
}
