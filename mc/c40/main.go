// C40: an entry a writer refuses leaves the rest of the body as it was.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C40", Level: "model_checking",
		Rule:   "every sequence of entries, some of which a writer has to refuse (values that cannot be encoded, at the top or nested, keys that are empty or repeated, rows that are no rows), is written with every writer on the real code, ignoring the refusals; the finished document is read back and compared with the accepted entries",
		Bounds: "sequences of up to 4 entries (thorough 5) over 3 good and all kinds of bad entries of the format, in 21 formats and settings, directly and through an entry buffer",
		Body:   run})
}

type setting struct {
	format, comp string
	obj          bool
	cfg          map[string]interface{}
}

func (s setting) st() *dataset.Structure {
	sch := body.Arr()
	if s.obj {
		sch = body.Obj()
	}
	if s.format == "csv" || s.format == "xlsx" {
		sch = body.Table("string", "array")
	}
	return body.St(s.format, s.comp, sch, s.cfg)
}

func (s setting) String() string {
	return fmt.Sprintf("%s %s object=%v %v", s.format, s.comp, s.obj, s.cfg)
}

func settings() (out []setting) {
	for _, comp := range []string{"", "gzip", "zst"} {
		for _, f := range []string{"json", "ndjson", "cbor", "csv"} {
			out = append(out, setting{format: f, comp: comp})
			if f == "json" || f == "cbor" {
				out = append(out, setting{format: f, comp: comp, obj: true})
			}
			if f == "json" && comp == "" {
				pretty := map[string]interface{}{"pretty": true}
				out = append(out, setting{format: f, cfg: pretty}, setting{format: f, obj: true, cfg: pretty})
			}
		}
	}
	out = append(out, setting{format: "csv", cfg: map[string]interface{}{"headerRow": true}}, setting{format: "xlsx"})
	return
}

// entries a writer may be given: the good ones first.
func (s setting) entries() (good, bad []dsio.Entry) {
	vals := []interface{}{nil, "a", []interface{}{1.5, nil}, map[string]interface{}{"k": "v"}}
	var no []interface{}
	for _, v := range []interface{}{complex(1, 2), math.NaN(), func() {}, make(chan int)} {
		no = append(no, v)
	}
	no = append(no, []interface{}{"first", []interface{}{"x", map[string]interface{}{"b": no[0]}}})
	if s.format == "cbor" {
		no = nil // encoded when the writer is closed, if they can be
	}
	switch s.format {
	case "csv", "xlsx":
		for i, v := range vals {
			good = append(good, dsio.Entry{Value: []interface{}{fmt.Sprint("row", i), []interface{}{v}}})
		}
		for _, v := range []interface{}{"text", nil, map[string]interface{}{"a": 1}, []interface{}{"x", complex(1, 2)}, []interface{}{"x", []interface{}{math.NaN()}}, []interface{}{"x", make(chan int)}} {
			bad = append(bad, dsio.Entry{Value: v})
		}
	default:
		for i, v := range vals {
			e := dsio.Entry{Value: v}
			if s.obj {
				e.Key = fmt.Sprint("key", i)
			}
			good = append(good, e)
		}
		for _, v := range no {
			e := dsio.Entry{Value: v}
			if s.obj {
				e.Key = "key0"
			}
			bad = append(bad, e)
		}
		if s.obj {
			bad = append(bad, dsio.Entry{Value: "no key"})
		}
	}
	return
}

func run(r *kit.Run) {
	all := settings()
	r.Explore("refused entries", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, all)
		good, bad := s.entries()
		pool := append(append([]dsio.Entry{}, good...), bad...)
		max := r.T0(4, 5)
		if s.format == "xlsx" {
			max--
		}
		n := c.Range(1, max)
		buffer := s.format != "xlsx" && c.Bool()
		seq := make([]int, n)
		for i := range seq {
			seq[i] = c.Choose(len(pool))
		}
		return func(t *kit.T) {
			var shown []string
			for _, i := range seq {
				shown = append(shown, fmt.Sprintf("%q:%T%v", pool[i].Key, pool[i].Value, pool[i].Value))
			}
			ctx := fmt.Sprintf("%s buffer=%v entries %v", s, buffer, shown)
			st := s.st()
			buf := &bytes.Buffer{}
			var w dsio.EntryWriter
			var err error
			if buffer {
				w, err = dsio.NewEntryBuffer(st)
			} else {
				w, err = dsio.NewEntryWriter(st, buf)
			}
			if err != nil {
				t.Failf("%s: %v", ctx, err)
			}
			var want []dsio.Entry
			keys := map[string]bool{}
			for _, i := range seq {
				e := pool[i]
				err := w.WriteEntry(e)
				t.Op(1)
				ok := i < len(good) && !(s.obj && keys[e.Key])
				if ok && err != nil {
					t.Failf("%s: entry %q %v is refused: %v", ctx, e.Key, e.Value, err)
				}
				if !ok && err == nil {
					t.Failf("%s: entry %q %v is accepted", ctx, e.Key, e.Value)
				}
				if ok {
					keys[e.Key] = true
					e.Index = len(want)
					want = append(want, e)
				}
			}
			err = w.Close()
			if err != nil {
				t.Failf("%s: close: %v", ctx, err)
			}
			data := buf.Bytes()
			if buffer {
				data = w.(*dsio.EntryBuffer).Bytes()
			}
			got, err := body.ReadBody(st, bytes.NewReader(data), len(want)+3)
			t.Op(1)
			if err != nil || len(got) != len(want) {
				if len(data) > 300 {
					data = data[:300]
				}
				t.Failf("%s: %d entries accepted, %d read, error %v, of %q", ctx, len(want), len(got), err, data)
			}
			if s.format == "cbor" && s.obj {
				got, want = sorted(got), sorted(want)
			}
			for i := range want {
				if got[i].Key != want[i].Key || !body.Eq(got[i].Value, want[i].Value) {
					t.Failf("%s: entry %d is %s, want %s", ctx, i, body.ShowEntries(got[i:i+1]), body.ShowEntries(want[i:i+1]))
				}
			}
			t.State(s.String(), data)
			t.Trace()
		}
	})
}

func sorted(es []dsio.Entry) []dsio.Entry {
	out := append([]dsio.Entry{}, es...)
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].Key < out[i].Key {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
