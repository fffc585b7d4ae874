package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func ptr(b []byte) unsafe.Pointer { return unsafe.Pointer(&b[0]) }

func mapStatus(path string) []byte {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

var hangAfter = 150 * time.Second

type outcome struct {
	ok    bool
	hang  bool
	idx   int64
	errs  string
	state string
}

func runShard(dir string, shard, n int, only int64) outcome {
	st := mapStatus(filepath.Join(dir, fmt.Sprintf("status%d", shard)))
	atomicStore(st[0:], 0)
	atomicStore(st[8:], time.Now().UnixNano())
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), fmt.Sprintf("VMC_SHARD=%d/%d", shard, n), "VMC_DIR="+dir, fmt.Sprintf("VMC_ONLY=%d", only),
		"GOMAXPROCS=2", "GOTRACEBACK=all", "TMPDIR="+dir)
	var eb bytes.Buffer
	cmd.Stderr = &limited{w: &eb, n: 1 << 20}
	cmd.Stdout = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return outcome{errs: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hang := false
	for {
		select {
		case err := <-done:
			if err == nil {
				return outcome{ok: true, errs: eb.String()}
			}
			return outcome{hang: hang, idx: atomicLoad(st[0:]), errs: err.Error() + "\n" + eb.String()}
		case <-time.After(500 * time.Millisecond):
			if !hang && time.Now().UnixNano()-atomicLoad(st[8:]) > int64(hangAfter) {
				hang = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				cmd.Process.Kill()
			}
		}
	}
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

func parent(d Def) int {
	if d.Hang > 0 {
		hangAfter = d.Hang
	}
	start := time.Now()
	r := newRun(d)
	dir, err := os.MkdirTemp("", "vmc-"+d.Prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Setenv("VERIF_TIER", r.Tier)
	only := int64(envInt("VMC_ONLY", 0))
	if len(os.Args) > 2 && os.Args[1] == "-replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rp replay
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		only = rp.Index
		os.Setenv("VERIF_TIER", rp.Tier)
	}
	n := envInt("VMC_SHARDS", 8)
	if only != 0 {
		n = 1
	}
	outs := make([]outcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runShard(dir, i, n, only)
		}(i)
	}
	wg.Wait()
	var viol []violation
	known := map[string]int{}
	secs := map[string]*secStat{}
	var order []string
	unrep := 0
	capped := false
	states := map[uint64]struct{}{}
	for i, o := range outs {
		if !o.ok {
			if o.idx == 0 {
				// the child never reached an execution: an error of the check
				fmt.Fprintf(os.Stderr, "shard %d failed before any execution:\n%s\n", i, o.errs)
				if strings.Contains(o.errs, "/repo/") {
					viol = append(viol, violation{Section: "startup", Msg: "crash while preparing the check inside the code under test: " + tail(o.errs)})
					continue
				}
				return 2
			}
			kind := "crash"
			if o.hang {
				kind = "hang"
			}
			fmt.Fprintf(os.Stderr, "shard %d: %s at execution %d, replaying it alone\n", i, kind, o.idx)
			sub, _ := os.MkdirTemp(dir, "re")
			o2 := runShard(sub, 0, 1, o.idx)
			if o2.ok {
				if o3 := runShard(sub, i, n, 0); !o3.ok {
					o2 = o3
				}
			}
			if !o2.ok && strings.Contains(o2.errs, "kit: ") && !strings.Contains(o2.errs, "/repo/") {
				fmt.Fprintf(os.Stderr, "explorer error:\n%s\n", o2.errs)
				return 2
			}
			if !o2.ok {
				viol = append(viol, violation{Section: "process", Index: o.idx, Msg: kind + " of the process under test: " + tail(o2.errs)})
			} else {
				unrep++
				capped = true
				fmt.Fprintf(os.Stderr, "not reproduced: %s\n", tail(o.errs))
			}
			continue
		}
		if o.errs != "" {
			fmt.Fprint(os.Stderr, o.errs)
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result%d", i)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var res shardResult
		if err := json.Unmarshal(b, &res); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		viol = append(viol, res.Viol...)
		for k, v := range res.Known {
			known[k] += v
		}
		unrep += res.Unrep
		for _, s := range res.Secs {
			t := secs[s.Name]
			if t == nil {
				t = &secStat{Name: s.Name, Enum: s.Enum}
				secs[s.Name] = t
				order = append(order, s.Name)
			}
			t.Cases += s.Cases
			t.Inner += s.Inner
			t.Ops += s.Ops
			t.Traces += s.Traces
			if len(t.Samples) < 1 {
				t.Samples = append(t.Samples, s.Samples...)
				if len(t.Samples) > 1 {
					t.Samples = t.Samples[:1]
				}
			}
			t.Capped = t.Capped || s.Capped
			if s.WallMS > t.WallMS {
				t.WallMS = s.WallMS
			}
		}
		hb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states%d", i)))
		for k := 0; k+8 <= len(hb); k += 8 {
			var h uint64
			for j := 0; j < 8; j++ {
				h |= uint64(hb[k+j]) << (8 * j)
			}
			states[h] = struct{}{}
		}
	}
	var cases, inner, ops, traces int64
	samples := []string{}
	secOut := []map[string]interface{}{}
	for _, name := range order {
		s := secs[name]
		cases += s.Cases
		inner += s.Inner
		ops += s.Ops
		traces += s.Traces
		capped = capped || s.Capped
		if len(samples) < 12 {
			samples = append(samples, s.Samples...)
		}
		secOut = append(secOut, map[string]interface{}{"name": name, "enumerated": s.Enum, "run": s.Cases, "inner_executions": s.Inner, "operations": s.Ops, "capped": s.Capped, "ms": s.WallMS})
		fmt.Printf("  %-44s enumerated=%d inner=%d ops=%d traces=%d %dms%s\n", name, s.Enum, s.Inner, s.Ops, s.Traces, s.WallMS, map[bool]string{true: " CAPPED"}[s.Capped])
	}
	for k, n := range known {
		_ = n
		if r.knownSet[k] == "" {
			delete(known, k)
		}
	}
	cov := map[string]interface{}{"samples": samples, "exhaustive": !capped && unrep == 0 && os.Getenv("VMC_FILTER") == "" && len(viol) == 0,
		"sections": secOut, "bounds": d.Bounds, "unreproduced_failures": unrep, "known_findings_hit": len(known)}
	if d.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = ops
		cov["traces_validated_against_impl"] = traces
		cov["enumerated"] = d.Rule
		cov["cases"] = cases
	} else {
		cov["evaluations"] = cases + inner
		cov["distinct_nontrivial"] = len(states)
		cov["rule"] = d.Rule
		cov["operations"] = ops
		cov["fault_free_or_faulted_traces_compared"] = traces
	}
	ev := map[string]interface{}{"property": d.Prop, "tier": r.Tier, "seed": envInt("VERIF_SEED", 1), "level": d.Level, "coverage": cov,
		"assumptions": d.Assume, "wall_s": float64(time.Since(start).Milliseconds()) / 1000, "violations": len(viol)}
	if d.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if only == 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", d.Prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.Prop, r.knownSet[k])
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d executions=%d violations=%d unreproduced=%d exhaustive=%v wall=%.1fs\n",
		d.Prop, r.Tier, len(states), ops, traces, cases+inner, len(viol), unrep, cov["exhaustive"], time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(rdir, 0755)
	for i, v := range viol {
		if i >= 8 {
			fmt.Printf("… %d more violations\n", len(viol)-i)
			break
		}
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", d.Prop, i))
		b, _ := json.MarshalIndent(replay{Property: d.Prop, Tier: r.Tier, violation: v}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("violation %d: section %q choices %v\n    %s\n", i, v.Section, v.Choices, strings.ReplaceAll(v.Msg, "\n", "\n    "))
		for j, l := range v.Log {
			if j < 12 {
				fmt.Printf("      | %s\n", l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Prop, p)
	}
	return 1
}

type replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	violation
}

func tail(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if len(keep) < 3 || strings.Contains(l, "/repo/") {
			keep = append(keep, l)
		}
		if len(keep) > 14 {
			break
		}
	}
	return strings.Join(keep, "\n")
}
