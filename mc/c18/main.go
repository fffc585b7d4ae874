// C18: readers, writers and accumulators are independent of each other.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/qri-io/dataset"
	"vmc/kit"
	"vmc/mach"
)

func main() {
	kit.Main(kit.Def{Prop: "C18", Level: "model_checking",
		Rule:   "for every pair of machines (readers, writers and buffers of every format, pages, stats, sketches, detectors, the normaliser, generators, validators) all interleavings of their steps are executed and each machine's outcomes, the entries it returned, the inputs it was given and the package's shared base schemas are compared with what the machine gives alone; every machine is also preempted inside its operations, at each of its reads of the source and writes to the sink, for a run of the other's steps; every pair also runs freely in two goroutines under the race detector, where an unsynchronised access to anything shared is reported whatever the schedule",
		Bounds: "all ordered pairs of 49 machine kinds incl. two of the same kind with own and with shared structure and with equal input, 3 to 5 steps each, every interleaving of steps (pairs of different kinds: at most 3 switches in quick; with XLSX: at most 2); preemption inside an operation at every input or output operation, one preemption, at every position of the other; triples of the fast kinds with at most 2 switches in thorough",
		Assume: []string{"the race part relies on the happens-before detector of the Go toolchain: two goroutines with no synchronisation between them"},
		Body:   run})
}

var (
	mu   sync.Mutex
	solo = map[string][]string{}
)

func alone(k mach.Kind, v int) []string {
	mu.Lock()
	defer mu.Unlock()
	key := fmt.Sprint(k.Name, v)
	if solo[key] == nil {
		solo[key] = mach.Solo(k, v, nil)
	}
	return solo[key]
}

func base() string {
	b, _ := json.Marshal([]interface{}{dataset.BaseSchemaArray, dataset.BaseSchemaObject})
	return string(b)
}

const wantBase = `[{"type":"array"},{"type":"object"}]`

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// interleave draws an order of the instances' steps, with at most max switches
// of instance (max < 0: any number).
func interleave(c *kit.C, lens []int, max int) []int {
	left := append([]int{}, lens...)
	var order []int
	last := -1
	for {
		var can []int
		for i, n := range left {
			if n > 0 && (last < 0 || i == last || max != 0 || left[last] == 0) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			return order
		}
		i := can[c.Choose(len(can))]
		if last >= 0 && i != last && left[last] > 0 && max > 0 {
			max--
		}
		order = append(order, i)
		left[i]--
		last = i
	}
}

func check(t *kit.T, ks []mach.Kind, vs []int, order []int, st *dataset.Structure) {
	ins := make([]*mach.Inst, len(ks))
	var names []string
	for i := range ks {
		ins[i] = ks[i].New(vs[i], st)
		names = append(names, fmt.Sprintf("%s (input %d)", ks[i].Name, vs[i]))
	}
	pos := make([]int, len(ks))
	what := func(i int) string {
		s := ""
		if st != nil {
			s = ", structure shared"
		}
		return fmt.Sprintf("%s, steps in order %v%s: %s", strings.Join(names, " with "), order, s, names[i])
	}
	for _, i := range order {
		got := ins[i].Steps[pos[i]]()
		t.Op(1)
		if want := alone(ks[i], vs[i])[pos[i]]; got != want {
			t.Failf("%s step %d gave %s, alone %s", what(i), pos[i], cut(got), cut(want))
			return
		}
		pos[i]++
		t.State(names, pos)
	}
	for i := range ins {
		w := alone(ks[i], vs[i])
		if got, want := ins[i].Final(), w[len(w)-1]; got != want {
			t.Failf("%s in the end has %s, alone %s", what(i), cut(got), cut(want))
			return
		}
	}
	if b := base(); b != wantBase {
		t.Failf("%s: the base schemas became %s", what(0), b)
	}
	t.Trace()
}

func run(r *kit.Run) {
	kinds := mach.Kinds()
	r.Explore("alone twice", func(c *kit.C) func(*kit.T) {
		k := kit.Pick(c, kinds)
		v := c.Choose(2)
		return func(t *kit.T) {
			a, b := mach.Solo(k, v, nil), mach.Solo(k, v, nil)
			t.Op(2)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				t.Failf("%s (input %d) gave %s, then %s", k.Name, v, cut(fmt.Sprint(a)), cut(fmt.Sprint(b)))
			}
			for i, f := range a {
				if i == len(a)-1 && strings.Contains(f, "false") && !strings.HasPrefix(k.Name, "stats") && !strings.HasPrefix(k.Name, "gener") {
					t.Failf("%s (input %d) modified what it was given: %s", k.Name, v, cut(f))
				}
			}
			if b := base(); b != wantBase {
				t.Failf("%s (input %d): the base schemas became %s", k.Name, v, b)
			}
			t.Trace()
			t.State(k.Name, v)
		}
	})
	r.Explore("pairs", func(c *kit.C) func(*kit.T) {
		a := c.Choose(len(kinds))
		b := a + c.Choose(len(kinds)-a)
		share, equal := false, false
		if a == b {
			share, equal = c.Bool(), c.Bool()
			if share && kinds[a].St == nil {
				return nil
			}
		}
		max := -1
		if kinds[a].Slow || kinds[b].Slow {
			max = 2
		} else if a != b && !r.Thorough {
			max = 3
		}
		v := 1
		if equal {
			v = 0
		}
		ks := []mach.Kind{kinds[a], kinds[b]}
		order := interleave(c, []int{len(alone(ks[0], 0)) - 1, len(alone(ks[1], v)) - 1}, max)
		return func(t *kit.T) {
			var st *dataset.Structure
			if share {
				st = ks[0].St()
			}
			check(t, ks, []int{0, v}, order, st)
		}
	})
	// a machine is preempted inside an operation, at a point where it reads its
	// source or writes to its sink; there the other takes some or all of its steps
	var io []int
	points := map[int]int{}
	for i, k := range kinds {
		if !k.Plain || k.Slow {
			continue
		}
		in := k.New(0, nil)
		for _, s := range in.Steps {
			s()
		}
		if in.N > 0 {
			io = append(io, i)
			points[i] = in.N
		}
	}
	r.Explore("preempted at input and output", func(c *kit.C) func(*kit.T) {
		a := kit.Pick(c, io)
		b := c.Choose(len(kinds))
		if kinds[b].Slow {
			return nil
		}
		share := a == b && kinds[a].St != nil && c.Bool()
		at := c.Choose(points[a])
		n := len(alone(kinds[b], 1)) - 1
		from := c.Choose(n)
		to := n
		if r.Thorough || a == b || from == 0 {
			to = from + 1 + c.Choose(n-from)
		}
		return func(t *kit.T) {
			var st *dataset.Structure
			if share {
				st = kinds[a].St()
			}
			x, y := kinds[a].New(0, st), kinds[b].New(1, st)
			wx, wy := alone(kinds[a], 0), alone(kinds[b], 1)
			what := fmt.Sprintf("%s stopped at its input or output %d, where %s takes steps %d to %d, structure shared %v", kinds[a].Name, at, kinds[b].Name, from, to, share)
			pos := 0
			steps := func(n int) {
				for ; pos < n; pos++ {
					t.Op(1)
					if got := y.Steps[pos](); got != wy[pos] {
						t.Failf("%s: the second's step %d gave %s, alone %s", what, pos, cut(got), cut(wy[pos]))
					}
				}
			}
			steps(from)
			x.At = func() {
				if x.N == at+1 {
					steps(to)
				}
			}
			for i, s := range x.Steps {
				t.Op(1)
				if got := s(); got != wx[i] {
					t.Failf("%s: the first's step %d gave %s, alone %s", what, i, cut(got), cut(wx[i]))
				}
			}
			if pos != to {
				panic("the machine was not preempted")
			}
			steps(n)
			if got := x.Final(); got != wx[len(wx)-1] {
				t.Failf("%s: the first in the end has %s, alone %s", what, cut(got), cut(wx[len(wx)-1]))
			}
			if got := y.Final(); got != wy[n] {
				t.Failf("%s: the second in the end has %s, alone %s", what, cut(got), cut(wy[n]))
			}
			if b := base(); b != wantBase {
				t.Failf("%s: the base schemas became %s", what, b)
			}
			t.Trace()
		}
	})
	if r.Thorough {
		var fast []mach.Kind
		for _, k := range kinds {
			if !k.Slow {
				fast = append(fast, k)
			}
		}
		r.Explore("triples", func(c *kit.C) func(*kit.T) {
			a := c.Choose(len(fast))
			b := a + c.Choose(len(fast)-a)
			d := b + c.Choose(len(fast)-b)
			ks := []mach.Kind{fast[a], fast[b], fast[d]}
			order := interleave(c, []int{len(alone(ks[0], 0)) - 1, len(alone(ks[1], 1)) - 1, len(alone(ks[2], 2)) - 1}, 1)
			return func(t *kit.T) { check(t, ks, []int{0, 1, 2}, order, nil) }
		})
	}
	r.Explore("goroutines under the race detector", func(c *kit.C) func(*kit.T) {
		part := c.Choose(8)
		return func(t *kit.T) {
			bin := filepath.Join(os.Getenv("VERIF_DIR"), "build", "c18race")
			cmd := exec.Command(bin, fmt.Sprint(part))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			out, err := cmd.CombinedOutput()
			s := string(out)
			if err != nil {
				if i := strings.LastIndex(s, "PAIR "); i >= 0 {
					s = s[i:]
				}
				if len(s) > 3000 {
					s = s[:3000]
				}
				t.Failf("two goroutines, each with its own instance: %v\n%s", err, s)
				return
			}
			n := strings.Count(s, "PAIR ")
			if n < 100 {
				panic("race part did not run: " + s)
			}
			t.Op(n)
			t.Trace()
			t.State("race", part)
		}
	})
}
