// C33: compression is lossless and its format names are consistent.
package main

import (
	"bytes"
	stdgzip "compress/gzip"
	"fmt"
	"io"
	"os"
	"os/exec"

	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C33", Level: "model_checking",
		Rule:   "every payload is compressed under every split into writes and decompressed under every chunking of the source and every read size; every compressed stream is also given to the standard gzip and zstd decoders, theirs to this one, and every single bit of it flipped",
		Bounds: "all payloads of up to 4 bytes over 3 symbols with every composition into writes; 12 (thorough 20) payload sizes around 4 KiB, 64 KiB, 128 KiB, 256 KiB and 1 MiB in 3 patterns by 6 write sizes; all bit flips and cuts of streams of 5 payloads; 15 compression names by 5 formats by reader, writer and buffer; all names of up to 4 letters over the letters of the names",
		Assume: []string{"the zstd command, when installed, is the standard zstandard decoder"},
		Body:   run})
}

var names = map[string]compression.Format{"gzip": compression.FmtGZip, "gz": compression.FmtGZip, "zst": compression.FmtZStandard, "zstd": compression.FmtZStandard}

func compress(name string, pieces [][]byte) ([]byte, error) {
	var buf bytes.Buffer
	w, err := compression.Compressor(name, &buf)
	if err != nil {
		return nil, err
	}
	for _, p := range pieces {
		q := append([]byte{}, p...)
		n, err := w.Write(q)
		if err != nil {
			return nil, err
		}
		if n != len(p) {
			return nil, fmt.Errorf("write of %d bytes took %d", len(p), n)
		}
		if !bytes.Equal(p, q) {
			return nil, fmt.Errorf("write changed the bytes given")
		}
		// a writer must not keep what it was given
		for i := range q {
			q[i] = '#'
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func decompress(name string, r io.Reader, size int) ([]byte, error) {
	d, err := compression.Decompressor(name, r)
	if err != nil {
		return nil, err
	}
	var out []byte
	p := make([]byte, size)
	for {
		n, err := d.Read(p)
		out = append(out, p[:n]...)
		if err == io.EOF {
			for i := 0; i < 2; i++ {
				if n, err := d.Read(p); n != 0 || err != io.EOF {
					return out, fmt.Errorf("read after the end gives %d bytes, error %v", n, err)
				}
			}
			return out, d.Close()
		}
		if err != nil {
			d.Close()
			return out, err
		}
	}
}

func split(data []byte, size int) (ps [][]byte) {
	for len(data) > 0 {
		n := size
		if n <= 0 || n > len(data) {
			n = len(data)
		}
		ps = append(ps, data[:n])
		data = data[n:]
	}
	return
}

func show(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes %q…", len(b), b[:20])
	}
	return fmt.Sprintf("%q", b)
}

func std(name string, data []byte) ([]byte, error) {
	if names[name] == compression.FmtGZip {
		r, err := stdgzip.NewReader(bytes.NewReader(data))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}
	c := exec.Command("zstd", "-d", "-c", "-q")
	c.Stdin = bytes.NewReader(data)
	return c.Output()
}

func round(t *kit.T, name string, pieces [][]byte, chunk, size int, tog bool) []byte {
	t.Op(2)
	var want []byte
	for _, p := range pieces {
		want = append(want, p...)
	}
	z, err := compress(name, pieces)
	if err != nil {
		t.Failf("compressing %s with %s in %d writes: %v", show(want), name, len(pieces), err)
	}
	var r io.Reader = body.NewSource(z, chunk, tog)
	if chunk < 0 {
		r = bytes.NewBuffer(append([]byte{}, z...))
	}
	got, err := decompress(name, r, size)
	if err != nil || !bytes.Equal(got, want) {
		t.Failf("%s compressed with %s in %d writes, read in chunks of %d by %d: %s, error %v", show(want), name, len(pieces), chunk, size, show(got), err)
	}
	return z
}

func payload(n, pat int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		switch pat {
		case 1:
			b[i] = byte(i % 251)
		case 2:
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b[i] = byte(x)
		}
	}
	return b
}

func run(r *kit.Run) {
	keys := []string{"gzip", "gz", "zst", "zstd"}
	_, zerr := exec.LookPath("zstd")
	haveZstd := zerr == nil

	r.Explore("small", func(c *kit.C) func(t *kit.T) {
		name := kit.Pick(c, []string{"gzip", "zst", "gz", "zstd"}[:r.T0(2, 4)])
		n := c.Range(0, r.T0(3, 4))
		data := []byte{}
		for i := 0; i < n; i++ {
			data = append(data, kit.Pick(c, []byte{0, 'a', 0xff}))
		}
		// every composition into writes, empty writes included
		var ps [][]byte
		if c.Bool() {
			ps = append(ps, nil)
		}
		last := 0
		for i := 1; i <= n; i++ {
			if i == n || c.Bool() {
				ps = append(ps, data[last:i])
				last = i
				if c.Bool() {
					ps = append(ps, []byte{})
				}
			}
		}
		chunk := kit.Pick(c, []int{-1, 0, 1, 3})
		size := kit.Pick(c, []int{1, 2, 512})
		tog := chunk >= 0 && c.Bool()
		return func(t *kit.T) {
			z := round(t, name, ps, chunk, size, tog)
			if names[name] == compression.FmtGZip {
				g, err := std(name, z)
				if err != nil || !bytes.Equal(g, data) {
					t.Failf("standard decoder reads %s stream of %q as %q, error %v", name, data, g, err)
				}
			}
			t.Trace()
		}
	})
	sizes := []int{1, 100, 4095, 4096, 4097, 65536, 65537, 131072, 131073, 262144, 262145, 1 << 20}
	if r.Thorough {
		sizes = append(sizes, 5, 6, 65535, 131071, 262143, 1<<20+1, 3<<20, 8<<20+1)
	}
	r.Explore("large", func(c *kit.C) func(t *kit.T) {
		name := kit.Pick(c, []string{"gzip", "zst", "gz", "zstd"}[:r.T0(2, 4)])
		n := kit.Pick(c, sizes)
		pat := c.Choose(3)
		w := kit.Pick(c, []int{0, 1, 1000, 4096, 65536, 131073})
		k := kit.Pick(c, [][2]int{{0, 4096}, {4096, 512}, {7, 100000}, {-1, 1 << 20}, {1, 65537}})
		tog := c.Bool()
		if w == 1 && n > 70000 || k[0] == 1 && n > 300000 {
			return nil
		}
		return func(t *kit.T) {
			data := payload(n, pat)
			z := round(t, name, split(data, w), k[0], k[1], tog)
			if names[name] == compression.FmtGZip || haveZstd && k[0] == 0 && tog {
				t.Op(1)
				g, err := std(name, z)
				if err != nil || !bytes.Equal(g, data) {
					t.Failf("standard decoder reads %s stream of %s as %s, error %v", name, show(data), show(g), err)
				}
			}
			t.Trace()
		}
	})
	r.Explore("standard-encoder", func(c *kit.C) func(t *kit.T) {
		n := kit.Pick(c, append([]int{0, 3}, sizes...))
		pat := c.Choose(3)
		gz := c.Bool()
		level := kit.Pick(c, []int{1, 6, 9})
		multi := c.Bool()
		chunk := kit.Pick(c, []int{0, 13})
		if !gz && !haveZstd {
			return nil
		}
		return func(t *kit.T) {
			data := payload(n, pat)
			enc := func(d []byte) []byte {
				if gz {
					var b bytes.Buffer
					w, _ := stdgzip.NewWriterLevel(&b, level)
					w.Write(d)
					w.Close()
					return b.Bytes()
				}
				cmd := exec.Command("zstd", "-c", "-q", fmt.Sprintf("-%d", level))
				cmd.Stdin = bytes.NewReader(d)
				cmd.Stderr = os.Stderr
				out, err := cmd.Output()
				if err != nil {
					t.Logf("zstd: %v", err)
				}
				return out
			}
			z := enc(data)
			want := data
			if multi {
				z = append(z, enc([]byte("second"))...)
				want = append(append([]byte{}, data...), "second"...)
			}
			name := "gzip"
			if !gz {
				name = "zst"
			}
			t.Op(1)
			got, err := decompress(name, body.NewSource(z, chunk, false), 5000)
			if err != nil || !bytes.Equal(got, want) {
				t.Failf("standard %s stream (level %d, two members %v) of %s read as %s, error %v", name, level, multi, show(want), show(got), err)
			}
			t.Trace()
		}
	})
	r.Explore("damaged", func(c *kit.C) func(t *kit.T) {
		name := kit.Pick(c, []string{"gzip", "zst"})
		data := kit.Pick(c, [][]byte{{}, []byte("a"), []byte("hello hello hello hello"), payload(300, 2), payload(5000, 1)})
		return func(t *kit.T) {
			z, err := compress(name, [][]byte{data})
			if err != nil {
				t.Failf("%v", err)
			}
			for i := 1; i < len(z); i++ {
				for _, src := range []io.Reader{bytes.NewBuffer(append([]byte{}, z[:i]...)), bytes.NewReader(z[:i]), body.NewSource(z[:i], 1, false), body.NewSource(z[:i], 0, true)} {
					t.Op(1)
					if got, err := decompress(name, src, 4096); err == nil {
						t.Failf("%s stream of %s cut after %d of %d bytes reads from a %T as %s without an error", name, show(data), i, len(z), src, show(got))
					}
				}
			}
			for i := range z {
				for bit := 0; bit < 8; bit++ {
					t.Op(1)
					d := append([]byte{}, z...)
					d[i] ^= 1 << uint(bit)
					got, err := decompress(name, body.NewSource(d, 0, false), 4096)
					if err == nil && !bytes.Equal(got, data) {
						t.Failf("%s stream of %s with bit %d of byte %d flipped reads as %s without an error", name, show(data), bit, i, show(got))
					}
				}
			}
			t.Trace()
		}
	})
	// a body in a compression that is not supported is refused on every way in and out
	r.Explore("bodies", func(c *kit.C) func(t *kit.T) {
		format := kit.Pick(c, []string{"json", "ndjson", "csv", "cbor", "xlsx"})
		s := kit.Pick(c, []string{"", "gzip", "gz", "zst", "zstd", "GZIP", "zip", "bz2", "xz", "gzip ", " gz", "gz.", "none", "zst.gz", "\x00"})
		return func(t *kit.T) {
			_, ok := names[s]
			ok = ok || s == ""
			st := body.St(format, s, body.Table("string"), nil)
			var out bytes.Buffer
			w, werr := dsio.NewEntryWriter(st, &out)
			if format != "xlsx" && ok != (werr == nil) || !ok && werr == nil {
				t.Failf("writer of %s in %q: error %v", format, s, werr)
			}
			if w != nil && werr == nil {
				w.WriteEntry(dsio.Entry{Value: []interface{}{"a"}})
				w.Close()
			}
			data := out.Bytes()
			_, rerr := dsio.NewEntryReader(st, bytes.NewReader(data))
			if !ok && rerr == nil || ok && format != "xlsx" && rerr != nil {
				t.Failf("reader of %s in %q: error %v", format, s, rerr)
			}
			_, berr := dsio.NewEntryBuffer(st)
			if !ok && berr == nil || s == "" && format != "xlsx" && berr != nil {
				t.Failf("buffer of %s in %q: error %v", format, s, berr)
			}
			t.Op(3)
			t.Trace()
		}
	})
	letters := []string{"g", "z", "i", "p", "s", "t", "d", "G", "."}
	r.Explore("names", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, r.T0(4, 5))
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, letters)
		}
		s = kit.Pick(c, []string{"", "", "x", " "}) + s
		return func(t *kit.T) {
			t.Op(1)
			want, ok := names[s]
			f, err := compression.ParseFormat(s)
			if ok != (err == nil) || ok && f != want {
				t.Failf("format name %q: %q, error %v", s, f, err)
			}
			if ok {
				g, err := compression.ParseFormat(f.String())
				_, sup := compression.SupportedFormats[f]
				if err != nil || g != f || !sup {
					t.Failf("format %q: name %q parses to %q, error %v, supported %v", s, f.String(), g, err, sup)
				}
			}
			var buf bytes.Buffer
			w, werr := compression.Compressor(s, &buf)
			if ok != (werr == nil) || ok != (w != nil) {
				t.Failf("compressor for %q: error %v", s, werr)
			}
			if w != nil {
				w.Close()
			}
			if !ok {
				if d, derr := compression.Decompressor(s, &buf); derr == nil || d != nil {
					t.Failf("decompressor for %q: error %v", s, derr)
				}
			}
			t.Trace()
		}
	})
	r.Case("formats", func(t *kit.T) {
		if len(compression.SupportedFormats) != 2 {
			t.Failf("%d supported formats", len(compression.SupportedFormats))
		}
		for f := range compression.SupportedFormats {
			if g, err := compression.ParseFormat(f.String()); err != nil || g != f {
				t.Failf("supported format %q parses to %q, error %v", f, g, err)
			}
		}
		t.Op(2)
		t.Trace()
	})
	// streams are independent: two at once, and names of the same format are interchangeable
	r.Explore("aliases", func(c *kit.C) func(t *kit.T) {
		a, b := kit.Pick(c, keys), kit.Pick(c, keys)
		n := kit.Pick(c, []int{0, 1, 5000})
		return func(t *kit.T) {
			t.Op(2)
			data := payload(n, 1)
			z, err := compress(a, [][]byte{data})
			if err != nil {
				t.Failf("%v", err)
			}
			got, err := decompress(b, bytes.NewReader(z), 999)
			same := names[a] == names[b]
			if same && (err != nil || !bytes.Equal(got, data)) || !same && n > 0 && err == nil {
				t.Failf("%s compressed as %s and read as %s: %s, error %v", show(data), a, b, show(got), err)
			}
			t.Trace()
		}
	})
}
