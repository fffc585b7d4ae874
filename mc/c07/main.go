// C07: opening and inlining body and script files follows the documented priority.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"vmc/comp"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C07", Level: "model_checking",
		Rule:   "every sequence of open / inline / open rendered / read operations, each with every resolver answer (no resolver, found, not found, file failing at an offset), from every combination of recorded fields; every read-fault offset and chunking of the stored file",
		Bounds: "sequences up to length 3 (4 thorough) over 9 operations; fields over {unset,set}; stored files up to 5000 bytes; fault at every offset of a 6-byte file and around buffer sizes of larger ones",
		Body:   body})
}

var errRead = errors.New("read fault")
var errGet = errors.New("resolver fault")

// source yields data in chunks and optionally fails at an offset.
type source struct {
	data  []byte
	fail  int // -1 never
	chunk int
	pos   int
}

func (s *source) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.pos >= s.fail {
		return 0, errRead
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	n := len(s.data) - s.pos
	if s.fail >= 0 && s.fail-s.pos < n {
		n = s.fail - s.pos
	}
	if n > len(p) {
		n = len(p)
	}
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

type resolver struct {
	files map[string][]byte
	err   error
	fail  int
	chunk int
	calls []string
}

func (r *resolver) Get(ctx context.Context, path string) (qfs.File, error) {
	r.calls = append(r.calls, path)
	if r.err != nil {
		return nil, r.err
	}
	d, ok := r.files[path]
	if !ok {
		return nil, qfs.ErrNotFound
	}
	return qfs.NewMemfileReader(path, &source{data: d, fail: r.fail, chunk: r.chunk}), nil
}

// script abstracts transform, readme and viz.
type script struct {
	name                 string
	text, path, rendered *string
	open, inline         func(qfs.PathResolver) error
	file                 func() qfs.File
	setFile              func(qfs.File)
	openRendered         func(qfs.PathResolver) error
	renderedFile         func() qfs.File
	whole                interface{}
}

func mk(kind int) *script {
	ctx := context.Background()
	switch kind {
	case 0:
		q := &dataset.Transform{Syntax: "starlark"}
		return &script{name: "transform", text: &q.Text, path: &q.ScriptPath, whole: q,
			open: func(r qfs.PathResolver) error { return q.OpenScriptFile(ctx, r) }, inline: func(r qfs.PathResolver) error { return q.InlineScriptFile(ctx, r) },
			file: q.ScriptFile, setFile: q.SetScriptFile}
	case 1:
		q := &dataset.Readme{Format: "md"}
		return &script{name: "readme", text: &q.Text, path: &q.ScriptPath, rendered: &q.RenderedPath, whole: q,
			open: func(r qfs.PathResolver) error { return q.OpenScriptFile(ctx, r) }, inline: func(r qfs.PathResolver) error { return q.InlineScriptFile(ctx, r) },
			file: q.ScriptFile, setFile: q.SetScriptFile,
			openRendered: func(r qfs.PathResolver) error { return q.OpenRenderedFile(ctx, r) }, renderedFile: q.RenderedFile}
	}
	q := &dataset.Viz{Format: "html"}
	return &script{name: "viz", text: &q.Text, path: &q.ScriptPath, rendered: &q.RenderedPath, whole: q,
		open: func(r qfs.PathResolver) error { return q.OpenScriptFile(ctx, r) }, inline: func(r qfs.PathResolver) error { return q.InlineScriptFile(ctx, r) },
		file: q.ScriptFile, setFile: q.SetScriptFile,
		openRendered: func(r qfs.PathResolver) error { return q.OpenRenderedFile(ctx, r) }, renderedFile: q.RenderedFile}
}

const stored, storedR = "stored\x00\xff script é\n", "rendered"

func mkResolver(kind int) *resolver {
	switch kind {
	case 1:
		return &resolver{files: map[string][]byte{"/s": []byte(stored), "/r": []byte(storedR)}, fail: -1}
	case 2:
		return &resolver{err: errGet, fail: -1}
	case 3:
		return &resolver{files: map[string][]byte{"/s": []byte(stored), "/r": []byte(storedR)}, fail: 5}
	}
	return nil
}

// pr avoids a typed nil interface.
func pr(r *resolver) qfs.PathResolver {
	if r == nil {
		return nil
	}
	return r
}

type fileModel struct {
	known   bool
	present bool
	rest    string
	fault   bool
}

type op struct {
	name string
	res  int
}

var ops = []op{{"open", 0}, {"open", 1}, {"open", 2}, {"open", 3}, {"inline", 0}, {"inline", 1}, {"inline", 2}, {"inline", 3}, {"read", 0}, {"rendered", 0}, {"rendered", 1}, {"rendered", 2}, {"set", 0}}

func runScript(t *kit.T, kind int, text, path, rendered, preset bool, seq []op) {
	s := mk(kind)
	mText, mPath, mRend := "", "", ""
	f := fileModel{known: true}
	if text {
		mText = "inline <text>\n"
		*s.text = mText
	}
	if path {
		mPath = "/s"
		*s.path = mPath
	}
	if rendered && s.rendered != nil {
		mRend = "/r"
		*s.rendered = mRend
	}
	if preset {
		s.setFile(qfs.NewMemfileBytes("p", []byte("preset")))
		f = fileModel{known: true, present: true, rest: "preset"}
	}
	t.Logf("%s text=%v path=%v rendered=%v preset=%v", s.name, text, path, rendered, preset)
	for _, o := range seq {
		t.Logf("op %v", o)
		r := mkResolver(o.res)
		var err error
		wantErr := error(nil)
		anyErr := false
		var wantCalls []string
		doOpen := func() {
			switch {
			case mText != "":
				f = fileModel{known: true, present: true, rest: mText}
			case mPath == "":
			case r == nil:
				wantErr = dataset.ErrNoResolver
			default:
				wantCalls = append(wantCalls, mPath)
				if o.res == 2 {
					anyErr = true
					f = fileModel{}
					return
				}
				f = fileModel{known: true, present: true, rest: stored}
				if o.res == 3 {
					f.rest, f.fault = stored[:5], true
				}
			}
		}
		switch o.name {
		case "open":
			err = s.open(pr(r))
			doOpen()
		case "inline":
			err = s.inline(pr(r))
			if r != nil {
				doOpen()
				if !anyErr && wantErr == nil && f.present {
					if f.fault {
						anyErr = true
						f.rest = ""
					} else {
						mText, mPath = f.rest, ""
						f.rest = ""
					}
				}
			}
		case "rendered":
			if s.openRendered == nil {
				continue
			}
			err = s.openRendered(pr(r))
			switch {
			case mRend == "":
			case r == nil:
				wantErr = dataset.ErrNoResolver
			default:
				wantCalls = append(wantCalls, "/r")
				if o.res == 2 {
					anyErr = true
				}
			}
			if err == nil && mRend != "" {
				b, e := io.ReadAll(s.renderedFile())
				if e != nil || string(b) != storedR {
					t.Failf("rendered file reads %q %v", b, e)
				}
			}
		case "set":
			s.setFile(qfs.NewMemfileBytes("p", []byte("preset")))
			f = fileModel{known: true, present: true, rest: "preset"}
		case "read":
			if !f.known {
				continue
			}
			if (s.file() != nil) != f.present {
				t.Failf("script file present: %v, want %v", s.file() != nil, f.present)
			}
			if !f.present {
				continue
			}
			b, e := io.ReadAll(s.file())
			if string(b) != f.rest || (e != nil) != f.fault {
				t.Failf("script file reads %q (%v), want %q (fault %v)", b, e, f.rest, f.fault)
			}
			f.rest = ""
		}
		t.Op(1)
		if anyErr || wantErr != nil {
			if err == nil {
				t.Failf("operation %v reported no error", o)
			}
			if wantErr != nil && !errors.Is(err, wantErr) {
				t.Failf("operation %v reported %v, want %v", o, err, wantErr)
			}
		} else if err != nil {
			t.Failf("operation %v reported %v", o, err)
		}
		if r != nil && fmt.Sprint(r.calls) != fmt.Sprint(wantCalls) {
			t.Failf("operation %v fetched %q, want %q", o, r.calls, wantCalls)
		}
		if *s.text != mText || *s.path != mPath || (s.rendered != nil && *s.rendered != mRend) {
			t.Failf("after %v: text %q path %q, want %q %q", o, *s.text, *s.path, mText, mPath)
		}
	}
	t.Trace()
	t.State(s.name, comp.Dump(s.whole), fmt.Sprint(f))
}

func body(r *kit.Run) {
	max := r.T0(3, 4)
	r.Explore("script-histories", func(c *kit.C) func(t *kit.T) {
		kind := c.Choose(3)
		text, path, preset := c.Bool(), c.Bool(), c.Bool()
		rendered := c.Bool()
		n := 1 + c.Choose(max)
		seq := make([]op, n)
		for i := range seq {
			seq[i] = kit.Pick(c, ops)
		}
		return func(t *kit.T) { runScript(t, kind, text, path, rendered, preset, seq) }
	})
	sizes := []int{0, 1, 511, 512, 513, 1023, 4095, 4096, 4097, 5000}
	r.Explore("inline-faults", func(c *kit.C) func(t *kit.T) {
		kind := c.Choose(3)
		size := 6
		var fail int
		if c.Bool() {
			fail = c.Choose(8) - 1
		} else {
			size = kit.Pick(c, sizes)
			switch c.Choose(4) {
			case 0:
				fail = -1
			case 1:
				fail = size
			case 2:
				fail = size / 2
			case 3:
				fail = max0(size - 1)
			}
		}
		chunk := kit.Pick(c, []int{0, 1, 3, 512})
		return func(t *kit.T) {
			data := pattern(size)
			s := mk(kind)
			*s.path = "/s"
			rs := &resolver{files: map[string][]byte{"/s": data}, fail: fail, chunk: chunk}
			err := s.inline(rs)
			t.Op(1)
			if fail >= 0 && fail <= size {
				if err == nil || *s.text != "" || *s.path != "/s" {
					t.Failf("%s inline with a read fault at %d of %d: err %v text %d bytes path %q", s.name, fail, size, err, len(*s.text), *s.path)
				}
			} else if err != nil || *s.text != string(data) || *s.path != "" {
				t.Failf("%s inline of %d bytes: err %v text %d bytes path %q", s.name, size, err, len(*s.text), *s.path)
			}
			if len(rs.calls) != 1 || rs.calls[0] != "/s" {
				t.Failf("fetched %v", rs.calls)
			}
			t.Trace()
			t.State(kind, size, fail, chunk, err == nil)
		}
	})
	// body files
	r.Explore("body-histories", func(c *kit.C) func(t *kit.T) {
		native, hasPath := c.Choose(3), c.Bool()
		bytesKind := c.Choose(3) // none, empty, some
		n := 1 + c.Choose(3)
		seq := make([]int, n)
		for i := range seq {
			seq[i] = c.Choose(6) // open with resolver 0..3, read, drop native body
		}
		return func(t *kit.T) {
			ds := &dataset.Dataset{Name: "n"}
			switch native {
			case 1:
				ds.Body = []interface{}{}
			case 2:
				ds.Body = map[string]interface{}{"a": 1}
			}
			if hasPath {
				ds.BodyPath = "/s"
			}
			var bb []byte
			switch bytesKind {
			case 1:
				bb = []byte{}
			case 2:
				bb = []byte("body,bytes\n\x00")
			}
			ds.BodyBytes = bb
			keep := append([]byte{}, bb...)
			f := fileModel{known: true}
			name := ""
			for _, o := range seq {
				if o == 5 {
					ds.Body = nil
					native = 0
					continue
				}
				if o == 4 {
					if !f.known {
						continue
					}
					if (ds.BodyFile() != nil) != f.present {
						t.Failf("body file present %v want %v", ds.BodyFile() != nil, f.present)
					}
					if f.present {
						if ds.BodyFile().FullPath() != name {
							t.Failf("body file is named %q, want %q", ds.BodyFile().FullPath(), name)
						}
						b, e := io.ReadAll(ds.BodyFile())
						if string(b) != f.rest || (e != nil) != f.fault {
							t.Failf("body reads %q %v, want %q", b, e, f.rest)
						}
						f.rest = ""
					}
					t.Op(1)
					continue
				}
				rs := mkResolver(o)
				var want error
				anyErr := false
				var calls []string
				err := ds.OpenBodyFile(context.Background(), pr(rs))
				t.Op(1)
				switch {
				case native != 0:
					want = dataset.ErrInlineBody
				case bytesKind != 0:
					f = fileModel{known: true, present: true, rest: string(keep)}
					name = "body"
					if hasPath {
						name = "/s"
					}
				case !hasPath:
				case rs == nil:
					want = dataset.ErrNoResolver
				default:
					calls = []string{"/s"}
					if o == 2 {
						anyErr = true
						f = fileModel{}
					} else {
						f = fileModel{known: true, present: true, rest: stored}
						name = "/s"
						if o == 3 {
							f.rest, f.fault = stored[:5], true
						}
					}
				}
				if want != nil && !errors.Is(err, want) || (want == nil && (err != nil) != anyErr) {
					t.Failf("open body (native %d, bytes %d, path %v, resolver %d): error %v, want %v/%v", native, bytesKind, hasPath, o, err, want, anyErr)
				}
				if rs != nil && fmt.Sprint(rs.calls) != fmt.Sprint(calls) {
					t.Failf("open body fetched %q, want %q", rs.calls, calls)
				}
				wantPath := ""
				if hasPath {
					wantPath = "/s"
				}
				if !bytes.Equal(ds.BodyBytes, keep) || (ds.BodyBytes == nil) != (bb == nil) || ds.BodyPath != wantPath || ds.Name != "n" {
					t.Failf("open body changed the dataset: %s", comp.Dump(ds))
				}
			}
			t.Trace()
			t.State(native, hasPath, bytesKind, fmt.Sprint(seq))
		}
	})
	r.Case("nil-dataset", func(t *kit.T) {
		var ds *dataset.Dataset
		if ds.BodyFile() != nil {
			t.Failf("nil dataset has a body file")
		}
		t.Op(1)
		t.Trace()
	})
}

func max0(x int) int {
	if x < 0 {
		return 0
	}
	return x
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}
