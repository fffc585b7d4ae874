// C19: an identity reader delivers every entry once, then ends, and never hangs.
package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C19", Level: "model_checking",
		Rule:   "every sequence of reads and closes on an identity reader, every assignment of the operations to two calling goroutines and, on one processor, every choice of letting the producing goroutine run ahead before an operation; every operation has to return, every entry has to come exactly once and the producing goroutine has to end",
		Bounds: "bodies of 0..3 entries (4 thorough), up to 5 operations (7 thorough) with one or two callers; bodies of 10000 entries, copies and pages; up to 3 values of 8 kinds, null included",
		Assume: []string{"an operation that has not returned after 20 s never returns"},
		Body:   run})
}

const patience = 20 * time.Second

// goroutines waits for the number of goroutines to fall to base.
func settled(base int) bool {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		runtime.Gosched()
	}
	end := time.Now().Add(patience)
	for time.Now().Before(end) {
		if runtime.NumGoroutine() <= base {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func data(n int, obj bool) interface{} {
	if obj {
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", i)] = i
		}
		return m
	}
	s := make([]interface{}, n)
	for i := range s {
		s[i] = i
	}
	return s
}

type op struct {
	close bool
	by    int
	yield bool
}

// worker is a goroutine that performs operations when told to.
type worker struct {
	do   chan func()
	done chan struct{}
}

func newWorker() *worker {
	w := &worker{make(chan func()), make(chan struct{}, 1)}
	go func() {
		for f := range w.do {
			f()
			w.done <- struct{}{}
		}
	}()
	return w
}

// call runs f on the worker and reports whether it returned in time.
func (w *worker) call(f func()) bool {
	w.do <- f
	select {
	case <-w.done:
		return true
	case <-time.After(patience):
		return false
	}
}

func schedule(t *kit.T, n int, obj bool, ops []op) {
	base := runtime.NumGoroutine()
	src := data(n, obj)
	st := body.St("json", "", body.Arr(), nil)
	if obj {
		st = body.St("json", "", body.Obj(), nil)
	}
	rd, err := dsio.NewIdentityReader(st, src)
	if err != nil {
		t.Failf("%v", err)
	}
	ctx := func(i int) string {
		return fmt.Sprintf("body of %d entries (object %v), operations %+v, operation %d", n, obj, ops, i)
	}
	ws := []*worker{newWorker(), newWorker()}
	var got []dsio.Entry
	closed := false
	for i, o := range ops {
		if o.yield {
			for j := 0; j < 8; j++ {
				runtime.Gosched()
			}
		}
		var e dsio.Entry
		var err error
		if o.close {
			if !ws[o.by].call(func() { err = rd.Close() }) {
				t.Failf("%s: Close does not return", ctx(i))
			}
			if err != nil {
				t.Failf("%s: Close: %v", ctx(i), err)
			}
			closed = true
			continue
		}
		if !ws[o.by].call(func() { e, err = rd.ReadEntry() }) {
			t.Failf("%s: ReadEntry does not return", ctx(i))
		}
		t.Op(1)
		switch {
		case err == io.EOF:
			if !closed && len(got) != n {
				t.Failf("%s: end after %d entries", ctx(i), len(got))
			}
		case err != nil:
			t.Failf("%s: %v", ctx(i), err)
		case closed:
			t.Failf("%s: an entry after Close", ctx(i))
		default:
			if len(got) >= n {
				t.Failf("%s: more entries than the body has", ctx(i))
			}
			got = append(got, e)
		}
		t.State(n, obj, i, len(got), closed)
	}
	exact(t, ctx(len(ops)), n, obj, got, false)
	// closing at the end always lets the producer finish
	var cerr error
	if !ws[0].call(func() { cerr = rd.Close() }) || cerr != nil {
		t.Failf("%s: final Close: %v", ctx(len(ops)), cerr)
	}
	if rd.Structure() != st {
		t.Failf("structure")
	}
	close(ws[0].do)
	close(ws[1].do)
	if !settled(base) {
		t.Failf("%s: a goroutine is left behind", ctx(len(ops)))
	}
	t.Trace()
}

// exact checks that entries are a prefix (or all) of the body, each once.
func exact(t *kit.T, ctx string, n int, obj bool, got []dsio.Entry, all bool) {
	if all && len(got) != n {
		t.Failf("%s: %d entries of %d", ctx, len(got), n)
	}
	seen := map[string]bool{}
	for i, e := range got {
		if !obj {
			if e.Key != "" || e.Index != i || e.Value != i {
				t.Failf("%s: entry %d is %+v", ctx, i, e)
			}
			continue
		}
		v, ok := e.Value.(int)
		if !ok || e.Key != fmt.Sprintf("k%d", v) || v < 0 || v >= n || seen[e.Key] {
			t.Failf("%s: entry %d is %+v (repeated %v)", ctx, i, e, seen[e.Key])
		}
		seen[e.Key] = true
	}
}

func run(r *kit.Run) {
	r.Explore("schedules of two callers", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(3, 4))
		obj := c.Bool()
		k := c.Range(0, r.T0(5, 6))
		ops := make([]op, k)
		for i := range ops {
			ops[i].close = c.Bool()
			if i > 0 {
				ops[i].by = c.Choose(2)
			}
			ops[i].yield = c.Bool()
		}
		return func(t *kit.T) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
			schedule(t, n, obj, ops)
		}
	})
	r.Explore("sequences of one caller", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, 5)
		obj := c.Bool()
		k := c.Range(0, r.T0(8, 10))
		ops := make([]op, k)
		for i := range ops {
			ops[i].close = c.Bool()
		}
		procs := kit.Pick(c, []int{1, 4})
		return func(t *kit.T) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
			schedule(t, n, obj, ops)
		}
	})
	r.Explore("readers at the same time", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 1, 2, 100, 1000})
		obj := c.Bool()
		k := c.Range(1, 4)
		return func(t *kit.T) {
			rd, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), data(n, obj))
			if err != nil {
				t.Failf("%v", err)
			}
			var mu sync.Mutex
			var got []dsio.Entry
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						e, err := rd.ReadEntry()
						if err != nil {
							return
						}
						mu.Lock()
						got = append(got, e)
						mu.Unlock()
					}
				}()
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(patience):
				t.Failf("%d readers of %d entries do not end", k, n)
			}
			seen := map[string]bool{}
			for _, e := range got {
				seen[fmt.Sprint(e.Index, e.Key, e.Value)] = true
			}
			if len(got) != n || len(seen) != n {
				t.Failf("%d readers of %d entries got %d, %d of them distinct", k, n, len(got), len(seen))
			}
			t.Op(n)
			t.Trace()
		}
	})
	r.Explore("copies and pages", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, []int{0, 1, 2, 3, 500, 10000})
		obj := c.Bool()
		off, lim := kit.Pick(c, []int{0, 1, 3, 400}), kit.Pick(c, []int{-1, 0, 1, 2, 100})
		return func(t *kit.T) {
			base := runtime.NumGoroutine()
			rd, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), data(n, obj))
			if err != nil {
				t.Failf("%v", err)
			}
			var got []dsio.Entry
			done := make(chan error, 1)
			go func() {
				var err error
				got, err = body.Drain(&dsio.PagedReader{Reader: rd, Offset: off, Limit: lim}, n+1)
				if cerr := rd.Close(); err == nil {
					err = cerr
				}
				done <- err
			}()
			select {
			case err = <-done:
			case <-time.After(patience):
				t.Failf("page %d+%d of %d entries does not end", off, lim, n)
			}
			want := n - off
			if want < 0 {
				want = 0
			}
			if lim >= 0 && want > lim {
				want = lim
			}
			if err != nil || len(got) != want {
				t.Failf("page %d+%d of %d entries: %d entries, error %v", off, lim, n, len(got), err)
			}
			if !obj {
				for i, e := range got {
					if e.Index != off+i || e.Value != off+i {
						t.Failf("page %d+%d of %d entries: entry %d is %+v", off, lim, n, i, e)
					}
				}
			}
			if !settled(base) {
				t.Failf("page %d+%d of %d entries: a goroutine is left behind", off, lim, n)
			}
			t.Op(len(got))
			t.Trace()
		}
	})
	r.Explore("any values", func(c *kit.C) func(*kit.T) {
		vals := []interface{}{nil, "", 0, false, []interface{}{}, map[string]interface{}{}, dsio.Entry{}, error(io.EOF)}
		obj := c.Bool()
		list := make([]interface{}, c.Range(0, 3))
		m := map[string]interface{}{}
		for i := range list {
			list[i] = vals[c.Choose(len(vals))]
			m[[]string{"", "a", "b"}[i]] = list[i]
		}
		return func(t *kit.T) {
			var val interface{} = list
			if obj {
				val = m
			}
			rd, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), val)
			if err != nil {
				t.Failf("%v", err)
			}
			got, err := body.Drain(rd, len(list)+1)
			if err != nil || len(got) != len(list) {
				t.Failf("%#v gives %d entries, error %v", val, len(got), err)
			}
			seen := map[string]bool{}
			for i, e := range got {
				if !obj && (e.Index != i || !reflect.DeepEqual(e.Value, list[i])) {
					t.Failf("%#v: entry %d is %#v", val, i, e)
				}
				if v, ok := m[e.Key]; obj && (!ok || seen[e.Key] || !reflect.DeepEqual(e.Value, v)) {
					t.Failf("%#v: entry %d is %#v", val, i, e)
				}
				seen[e.Key] = true
			}
			if err := rd.Close(); err != nil {
				t.Failf("%v", err)
			}
			t.Op(len(got))
			t.Trace()
		}
	})
	r.Explore("other values are refused", func(c *kit.C) func(t *kit.T) {
		v := kit.Pick(c, []interface{}{nil, "s", 1, []string{"a"}, map[string]string{}, []byte("x")})
		return func(t *kit.T) {
			base := runtime.NumGoroutine()
			if _, err := dsio.NewIdentityReader(body.St("json", "", body.Arr(), nil), v); err == nil {
				t.Failf("%T accepted", v)
			}
			if !settled(base) {
				t.Failf("%T: a goroutine is left behind", v)
			}
			t.Op(1)
		}
	})
}
