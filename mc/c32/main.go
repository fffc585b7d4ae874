// C32: line ending normalisation is exact.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C32", Level: "model_checking",
		Rule:   "every text over the stated symbols is read through the normaliser with every combination of source chunk size, end-of-file style, buffer size and read size (and every sequence of read sizes) and compared with the rule applied to the whole text; a source that fails after every byte; every table with every assignment of line endings to its rows read as CSV",
		Bounds: "texts of up to 6 (thorough 8) symbols of {a, CR, LF, quote}; the same of up to 3 placed at every offset around 16 and 4096 bytes; read sizes 1..5, 16, 4096 and all sequences of sizes 1..3 for texts up to 4; tables of up to 3 rows with 4 endings each, a header or not",
		Body:   run})
}

// norm is the rule
func norm(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if s[i] == '\r' && (i+1 == len(s) || s[i+1] != '\n') {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func read(r io.Reader, size func() int, limit int) (string, error, string) {
	var out []byte
	empty := 0
	for len(out) <= limit {
		n := size()
		p := make([]byte, n+2)
		for i := range p {
			p[i] = 0xEE
		}
		m, err := r.Read(p[:n:n])
		if m < 0 || m > n || p[n] != 0xEE || p[n+1] != 0xEE {
			return string(out), err, fmt.Sprintf("read of %d bytes returned %d", n, m)
		}
		out = append(out, p[:m]...)
		if err != nil {
			return string(out), err, ""
		}
		if m == 0 && n > 0 {
			if empty++; empty > 200 {
				return string(out), nil, "200 reads in a row gave nothing"
			}
		} else {
			empty = 0
		}
	}
	return string(out), nil, "reads more than the text holds"
}

func check(t *kit.T, s string, chunk int, together bool, buf int, size func() int) bool {
	t.Op(1)
	src := body.NewSource([]byte(s), chunk, together)
	var r io.Reader
	if buf == 0 {
		r = replacecr.Reader(src)
	} else {
		r = replacecr.ReaderWithSize(src, buf)
	}
	want := norm(s)
	got, err, prob := read(r, size, len(want)+8)
	if prob != "" || err != io.EOF || got != want {
		t.Failf("text %s (chunks of %d, together with EOF %v, buffer %d): read %s, not %s, error %v %s", short(s), chunk, together, buf, short(got), short(want), err, prob)
		return false
	}
	for i := 0; i < 2; i++ {
		p := make([]byte, 4)
		if n, err := r.Read(p); n != 0 || err != io.EOF {
			t.Failf("text %s: read after the end gives %q, error %v", short(s), p[:n], err)
			return false
		}
	}
	return true
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("(%d bytes)…%q", len(s), s[len(s)-30:])
	}
	return fmt.Sprintf("%q", s)
}

func seqs(syms []string, prefix string, n int, f func(string) bool) bool {
	if n == 0 {
		return f(prefix)
	}
	for _, s := range syms {
		if !seqs(syms, prefix+s, n-1, f) {
			return false
		}
	}
	return true
}

func fixed(n int) func() int { return func() int { return n } }

func run(r *kit.Run) {
	syms := []string{"a", "\r", "\n", `"`}
	max := r.T0(6, 8)
	r.Explore("texts", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, max)
		prefix := ""
		for i := 0; i < n && i < 2; i++ {
			prefix += kit.Pick(c, syms)
		}
		rest := n - len(prefix)
		chunk := kit.Pick(c, []int{0, 1, 2, 3})
		tog := c.Bool()
		buf := kit.Pick(c, []int{0, 1, 17})
		return func(t *kit.T) {
			seqs(syms, prefix, rest, func(s string) bool {
				for _, size := range []int{1, 2, 3, 4, 5, 16, 4096} {
					if !check(t, s, chunk, tog, buf, fixed(size)) {
						return false
					}
				}
				return true
			})
			t.Trace()
		}
	})
	r.Explore("read-sizes", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(3, 4))
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, syms[:3])
		}
		chunk := kit.Pick(c, []int{0, 1, 2})
		tog := c.Bool()
		return func(t *kit.T) {
			t.Dyn(-1, func(d *kit.C) {
				var sizes []int
				check(t, s, chunk, tog, 0, func() int {
					z := d.Choose(4)
					sizes = append(sizes, z)
					if len(sizes) > 12 || z == 0 && len(sizes) > 1 && sizes[len(sizes)-2] == 0 {
						z = 1
					}
					return z
				})
			})
			t.Trace()
		}
	})
	r.Explore("boundaries", func(c *kit.C) func(t *kit.T) {
		at := kit.Pick(c, []int{16, 4096, 32, 512, 8192}[:r.T0(2, 5)])
		off := c.Range(-4, 2)
		n := c.Range(1, 3)
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, syms[:3])
		}
		tail := kit.Pick(c, []string{"", "b", "b\rc"})
		buf := kit.Pick(c, []int{0, 16})
		chunk := kit.Pick(c, []int{0, 1, 7, 4096})
		size := kit.Pick(c, []int{1, 3, 16, 512, 4096, 4097})
		return func(t *kit.T) {
			check(t, strings.Repeat("x", at+off)+s+tail, chunk, false, buf, fixed(size))
			check(t, strings.Repeat("\r", at+off)+s+tail, chunk, true, buf, fixed(size))
			t.Trace()
		}
	})
	r.Explore("failing-source", func(c *kit.C) func(t *kit.T) {
		n := c.Range(1, 5)
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, syms[:3])
		}
		fail := c.Range(0, n)
		chunk := kit.Pick(c, []int{0, 1, 2})
		size := kit.Pick(c, []int{1, 2, 3, 16})
		return func(t *kit.T) {
			t.Op(1)
			src := body.NewSource([]byte(s), chunk, false)
			src.Fail = fail
			got, err, prob := read(replacecr.Reader(src), fixed(size), 64)
			// what the text can be after the failure decides whether a last CR gets its LF
			full := norm(s[:fail])
			alt := strings.TrimSuffix(full, "\n")
			ok := got == full || strings.HasSuffix(s[:fail], "\r") && got == alt
			if prob != "" || err == nil || err == io.EOF || !ok {
				t.Failf("text %q failing after %d bytes: read %q, error %v %s", s, fail, got, err, prob)
			}
			t.Trace()
		}
	})

	// CSV rows
	cells := []string{"a", "x y", `"q,r"`, `"l1` + "\n" + `l2"`, "1"}
	ends := []string{"\n", "\r\n", "\r", "\r\n\r\n", "\n\r", "\r\r"}
	r.Explore("csv", func(c *kit.C) func(t *kit.T) {
		rows := c.Range(1, r.T0(3, 4))
		header := c.Bool()
		var plain, mixed string
		for i := 0; i < rows; i++ {
			row := kit.Pick(c, cells) + "," + cells[(i+2)%len(cells)]
			if rows > 2 && i > 0 {
				row = cells[i%len(cells)] + ",z"
			}
			es := ends
			if !r.Thorough && rows > 2 {
				es = ends[:4]
			}
			end := kit.Pick(c, es)
			last := i == rows-1 && c.Bool()
			plain += row
			mixed += row
			if !last {
				plain += "\n"
				mixed += end
			}
		}
		chunk := kit.Pick(c, []int{0, 1, 3})
		return func(t *kit.T) {
			t.Op(2)
			st := &dataset.Structure{Format: "csv", FormatConfig: map[string]interface{}{"headerRow": header, "lazyQuotes": false}, Schema: body.Table("string", "string")}
			get := func(s string, chunk int) string {
				rd, err := dsio.NewEntryReader(st, body.NewSource([]byte(s), chunk, false))
				if err != nil {
					return err.Error()
				}
				es, err := body.Drain(rd, 20)
				return fmt.Sprintf("%s %v", body.ShowEntries(es), err)
			}
			a, b := get(plain, 0), get(mixed, chunk)
			if a != b {
				t.Failf("CSV %q gives %s, with line feeds it gives %s", mixed, b, a)
			}
			if !strings.Contains(a, "EOF") && !bytes.Contains([]byte(a), []byte("<nil>")) {
				t.Failf("CSV %q cannot be read: %s", plain, a)
			}
			t.Trace()
		}
	})
}
