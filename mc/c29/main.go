// C29: transform step files survive writing and reading.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C29", Level: "model_checking",
		Rule:   "every list of up to four scripts over all texts of a small alphabet of line pieces is written (as string, bytes, reader or file) and read back; every text is read and compared with a line based splitter, and written back",
		Bounds: "texts of up to 6 symbols of {x, -, ---, newline, CR, space, é} (7 thorough) as single scripts and as files; pairs of texts up to length 3 and triples up to length 2; separators at every position; large scripts up to 1 MiB; readers in chunks of 1",
		Body:   run})
}

// split is the reference: lines of exactly "---" between other lines separate.
func split(text string) []string {
	var out []string
	cur := []string{}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		// a separator line has text (or an empty line) of its step before it
		// and is ended by a newline
		if l == "---" && i > 0 && i < len(lines)-1 && len(cur) > 0 {
			out = append(out, strings.Join(cur, "\n"))
			cur = []string{}
			continue
		}
		cur = append(cur, l)
	}
	return append(out, strings.Join(cur, "\n"))
}

func clean(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if l == "---" {
			return false
		}
	}
	return true
}

var syms = []string{"x", "-", "---", "\n", "\r", " ", "é"}

func text(c *kit.C, max int) string {
	s := ""
	for n := c.Range(0, max); n > 0; n-- {
		s += kit.Pick(c, syms)
	}
	return s
}

func scripts(steps []*dataset.TransformStep) []string {
	out := make([]string, len(steps))
	for i, s := range steps {
		switch x := s.Script.(type) {
		case string:
			out[i] = x
		case []byte:
			out[i] = string(x)
		default:
			out[i] = fmt.Sprintf("%#v", x)
		}
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type closer struct {
	io.Reader
	closed *int
}

func (c closer) Close() error { *c.closed++; return nil }

func as(kind int, s string, closed *int) interface{} {
	switch kind {
	case 0:
		return s
	case 1:
		return []byte(s)
	case 2:
		return strings.NewReader(s)
	case 3:
		return closer{body.NewSource([]byte(s), 1, true), closed}
	}
	panic(kind)
}

func round(t *kit.T, texts []string, kind int) {
	closed := 0
	steps := make([]*dataset.TransformStep, len(texts))
	for i, s := range texts {
		steps[i] = &dataset.TransformStep{Name: "n", Script: as(kind, s, &closed)}
	}
	buf := &bytes.Buffer{}
	if err := stepfile.Write(steps, buf); err != nil {
		t.Failf("writing %q as kind %d: %v", texts, kind, err)
		return
	}
	if kind == 3 && closed != len(texts) {
		t.Failf("writing %q: %d of %d scripts closed", texts, closed, len(texts))
	}
	if want := strings.Join(texts, "\n---\n"); buf.String() != want {
		t.Failf("writing %q as kind %d gives %q", texts, kind, buf.String())
		return
	}
	got, err := stepfile.Read(body.NewSource(buf.Bytes(), 1+kind, kind > 1))
	if err != nil {
		t.Failf("reading %q: %v", buf.String(), err)
		return
	}
	if !same(scripts(got), texts) {
		t.Failf("%q written and read gives %q", texts, scripts(got))
	}
	t.Op(2)
	t.Trace()
}

func run(r *kit.Run) {
	r.Explore("texts", func(c *kit.C) func(*kit.T) {
		s := text(c, r.T0(6, 7))
		return func(t *kit.T) {
			got, err := stepfile.Read(strings.NewReader(s))
			if err != nil {
				t.Failf("reading %q: %v", s, err)
				return
			}
			if want := split(s); !same(scripts(got), want) {
				t.Failf("reading %q gives %q, its separator lines give %q", s, scripts(got), want)
				return
			}
			// reading and writing give the text back
			buf := &bytes.Buffer{}
			if err := stepfile.Write(got, buf); err != nil || buf.String() != s {
				t.Failf("%q read and written gives %q, error %v", s, buf.String(), err)
				return
			}
			t.Op(2)
			t.Trace()
			t.State(len(got), len(s))
			if clean(s) {
				round(t, []string{s}, 0)
			}
		}
	})
	list := func(name string, n, max int) {
		r.Explore(name, func(c *kit.C) func(*kit.T) {
			kind := c.Choose(4)
			texts := make([]string, n)
			for i := range texts {
				texts[i] = text(c, max)
				if !clean(texts[i]) {
					return nil
				}
			}
			return func(t *kit.T) { round(t, texts, kind); t.State(fmt.Sprint(texts)) }
		})
	}
	list("one script", 1, r.T0(4, 5))
	list("two scripts", 2, r.T0(2, 3))
	list("three scripts", 3, r.T0(1, 2))
	list("four scripts", 4, 1)
	r.Explore("many and large scripts", func(c *kit.C) func(*kit.T) {
		n := kit.Pick(c, []int{1, 2, 5, 100, 1000})
		size := kit.Pick(c, []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32768, 1 << 20})
		kind := c.Choose(4)
		if n*size > 4<<20 || kind == 3 && n*size > 1<<18 {
			return nil
		}
		return func(t *kit.T) {
			texts := make([]string, n)
			for i := range texts {
				texts[i] = strings.Repeat(fmt.Sprintf("line %d\n--- \n", i), size/12+1)[:size]
				if !clean(texts[i]) {
					texts[i] += "."
				}
			}
			round(t, texts, kind)
			t.State(n, size, kind)
		}
	})
	r.Explore("files, failures and odd scripts", func(c *kit.C) func(*kit.T) {
		s := text(c, 3)
		at := c.Range(0, len(s))
		return func(t *kit.T) {
			dir, err := os.MkdirTemp("", "vmc-c29-")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "steps.star")
			if err := os.WriteFile(p, []byte(s), 0600); err != nil {
				panic(err)
			}
			got, err := stepfile.ReadFile(p)
			if err != nil || !same(scripts(got), split(s)) {
				t.Failf("file of %q gives %q, error %v", s, scripts(got), err)
			}
			if got, err := stepfile.ReadFile(filepath.Join(dir, "none")); err == nil {
				t.Failf("a missing file gives %q", scripts(got))
			}
			src := body.NewSource([]byte(s), 1, false)
			src.Fail = at
			if got, err := stepfile.Read(src); !errors.Is(err, body.ErrFault) {
				t.Failf("source of %q failing at %d gives %q, error %v", s, at, scripts(got), err)
			}
			src = body.NewSource([]byte(s), 1, false)
			src.Fail = at
			if err := stepfile.Write([]*dataset.TransformStep{{Script: src}, {Script: "b"}}, io.Discard); !errors.Is(err, body.ErrFault) {
				t.Failf("writing a script failing at %d: error %v", at, err)
			}
			for _, odd := range []interface{}{nil, 3, []interface{}{s}, map[string]interface{}{}} {
				buf := &bytes.Buffer{}
				if err := stepfile.Write([]*dataset.TransformStep{{Script: odd}}, buf); err == nil {
					t.Failf("a script %#v is written as %q", odd, buf.String())
				}
			}
			t.Op(7)
			t.Trace()
			t.State(s, at)
		}
	})
}
