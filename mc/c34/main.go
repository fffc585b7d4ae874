// C34: format names, file names and format options translate without loss.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C34", Level: "model_checking",
		Rule:   "every format value, every name and every edit of a name, every structure by base name by extension combination and every combination of options and wrongly typed options is translated there and back on the real code and compared with the table of names",
		Bounds: "format values 0..300; all single edits (and pairs, thorough) of the 15 names over 12 symbols and all names of up to 4 letters over 9; 6 formats by 5 compressions by 14 base names; all 2^3 CSV flags by 14 separators; 10 values for each option key",
		Body:   run})
}

var table = map[string]dataset.DataFormat{"": dataset.UnknownDataFormat, "csv": dataset.CSVDataFormat, "json": dataset.JSONDataFormat, "ndjson": dataset.NDJSONDataFormat,
	"jsonl": dataset.NDJSONDataFormat, "cbor": dataset.CBORDataFormat, "xml": dataset.XMLDataFormat, "xlsx": dataset.XLSXDataFormat}
var canon = map[dataset.DataFormat]string{dataset.CSVDataFormat: "csv", dataset.JSONDataFormat: "json", dataset.NDJSONDataFormat: "ndjson", dataset.CBORDataFormat: "cbor", dataset.XMLDataFormat: "xml", dataset.XLSXDataFormat: "xlsx"}

func lookup(s string) (dataset.DataFormat, bool) {
	if s == "." {
		return 0, false
	}
	f, ok := table[strings.TrimPrefix(s, ".")]
	return f, ok
}

func checkName(t *kit.T, s string) {
	t.Op(1)
	want, ok := lookup(s)
	f, err := dataset.ParseDataFormatString(s)
	if ok != (err == nil) || f != want {
		t.Failf("format name %q: %d, error %v", s, f, err)
	}
	if g := (&dataset.Structure{Format: s}).DataFormat(); g != want {
		t.Failf("structure of format %q has data format %d", s, g)
	}
	q, _ := json.Marshal(s)
	var u dataset.DataFormat
	if err := json.Unmarshal(q, &u); ok != (err == nil) || u != want {
		t.Failf("format %s in JSON: %d, error %v", q, u, err)
	}
	if ok && f != dataset.UnknownDataFormat {
		if g, err := dataset.ParseDataFormatString(f.String()); err != nil || g != f {
			t.Failf("format %q is called %q, which is %d, error %v", s, f.String(), g, err)
		}
	}
}

// fileRef is the reference for the formats of a file name
func fileRef(path string) (dataset.DataFormat, compression.Format, bool) {
	ext := func(p string) string {
		for i := len(p) - 1; i >= 0 && p[i] != '/'; i-- {
			if p[i] == '.' {
				return p[i:]
			}
		}
		return ""
	}
	e := ext(path)
	comp := map[string]compression.Format{".gzip": "gzip", ".gz": "gzip", ".zst": "zst", ".zstd": "zst"}[e]
	if comp != "" {
		e = ext(path[:len(path)-len(e)])
	}
	f, ok := table[strings.TrimPrefix(e, ".")]
	return f, comp, ok && len(e) > 1
}

func checkFile(t *kit.T, path string) {
	t.Op(1)
	f, c, ok := fileRef(path)
	g, d, err := detect.FormatFromFilename(path)
	if ok != (err == nil) || g != f || d != c {
		t.Failf("file name %q: format %d compression %q error %v, not %d %q %v", path, g, d, err, f, c, ok)
	}
}

func run(r *kit.Run) {
	r.Explore("formats", func(c *kit.C) func(t *kit.T) {
		f := dataset.DataFormat(c.Range(-5, 300))
		return func(t *kit.T) {
			t.Op(1)
			if f.String() != canon[f] {
				t.Failf("format %d is called %q", f, f.String())
			}
			if f == dataset.UnknownDataFormat {
				if data, err := json.Marshal(f); err == nil {
					t.Failf("the unknown format encodes to %s", data)
				}
			}
			if canon[f] != "" {
				data, err := json.Marshal(f)
				var u dataset.DataFormat
				if err != nil || string(data) != `"`+canon[f]+`"` || json.Unmarshal(data, &u) != nil || u != f {
					t.Failf("format %d encodes to %s, error %v, decodes to %d", f, data, err, u)
				}
			}
			sup := 0
			for _, s := range dataset.SupportedDataFormats() {
				if s == f {
					sup++
				}
			}
			want := 0
			if canon[f] != "" && f != dataset.XMLDataFormat {
				want = 1
			}
			if sup != want {
				t.Failf("format %d is listed %d times as supported", f, sup)
			}
			t.Trace()
		}
	})
	r.Explore("json-kinds", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, []string{"1", "1.5", "true", "false", "{}", "[]", `["csv"]`, `{"format":"csv"}`, `"CSV"`, `" csv"`})
		return func(t *kit.T) {
			t.Op(1)
			u := dataset.JSONDataFormat
			if err := json.Unmarshal([]byte(s), &u); err == nil || u != dataset.JSONDataFormat {
				t.Failf("%s decodes to format %d, error %v", s, u, err)
			}
			t.Trace()
		}
	})
	var names []string
	for n := range table {
		names = append(names, n, "."+n)
	}
	sortStrings(names)
	syms := []string{"", ".", "c", "s", "v", "j", "x", "l", "n", "C", " ", "é"}
	r.Explore("edits", func(c *kit.C) func(t *kit.T) {
		s := kit.Pick(c, names)
		for k, n := 0, r.T0(1, 2); k < n; k++ {
			i := c.Range(0, len(s))
			del := c.Choose(2)
			if i+del > len(s) {
				return nil
			}
			s = s[:i] + kit.Pick(c, syms) + s[i+del:]
		}
		return func(t *kit.T) { checkName(t, s); checkFile(t, "f"+s); checkFile(t, "body."+s); t.Trace() }
	})
	r.Explore("short-names", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, 4)
		s := ""
		for i := 0; i < n; i++ {
			s += kit.Pick(c, []string{"c", "s", "v", "j", "o", "n", "x", "m", "l", "."})
		}
		return func(t *kit.T) { checkName(t, s); checkFile(t, s); checkFile(t, "a."+s); t.Trace() }
	})

	bases := []string{"body", "", "a.b", "a.gz", "a.csv", "x.json.gz", "dir.csv/body", "/ipfs/Qm/body", "sp ace", "é", ".hidden", "a..", "dir/", "v1.2.3"}
	r.Explore("file-names", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, []dataset.DataFormat{dataset.CSVDataFormat, dataset.JSONDataFormat, dataset.NDJSONDataFormat, dataset.CBORDataFormat, dataset.XMLDataFormat, dataset.XLSXDataFormat})
		comp := kit.Pick(c, []string{"", "gzip", "gz", "zst", "zstd"})
		base := kit.Pick(c, bases)
		return func(t *kit.T) {
			t.Op(1)
			st := &dataset.Structure{Format: f.String(), Compression: comp, Schema: body.Arr()}
			cf := compression.FmtNone
			want := "." + canon[f]
			if comp != "" {
				cf, _ = compression.ParseFormat(comp)
				want += "." + comp
			}
			for _, name := range []string{st.AddFileFormatExtensions(base), st.BodyFilename()} {
				g, d, err := detect.FormatFromFilename(name)
				if err != nil || g != f || d != cf {
					t.Failf("structure of format %q compression %q gives file name %q, recognised as %q %q, error %v", f, comp, name, g, d, err)
				}
				if !strings.HasSuffix(name, want) {
					t.Failf("structure of format %q compression %q gives file name %q", f, comp, name)
				}
			}
			if st.BodyFilename() != "body"+want || st.AddFileFormatExtensions(base) != base+want {
				t.Failf("structure of format %q compression %q gives file names %q and %q", f, comp, st.BodyFilename(), st.AddFileFormatExtensions(base))
			}
			if (&dataset.Structure{}).AddFileFormatExtensions(base) != base || (&dataset.Structure{}).BodyFilename() != "body" {
				t.Failf("empty structure adds extensions")
			}
			t.Trace()
		}
	})
	exts := []string{"", ".csv", ".json", ".ndjson", ".jsonl", ".cbor", ".xml", ".xlsx", ".gz", ".gzip", ".zst", ".zstd", ".txt", ".CSV", ".", ".tar", "/", ".csv/x"}
	r.Explore("extensions", func(c *kit.C) func(t *kit.T) {
		n := c.Range(0, 3)
		p := kit.Pick(c, bases)
		for i := 0; i < n; i++ {
			p += kit.Pick(c, exts)
		}
		return func(t *kit.T) { checkFile(t, p); t.Trace() }
	})

	// options
	seps := []rune{0, ',', '\t', ';', '|', ':', ' ', '"', 'a', 'é', '☃', '😀', 1, '\\'}
	r.Explore("csv-options", func(c *kit.C) func(t *kit.T) {
		o := &dataset.CSVOptions{HeaderRow: c.Bool(), LazyQuotes: c.Bool(), VariadicFields: c.Bool(), Separator: kit.Pick(c, seps)}
		return func(t *kit.T) {
			t.Op(1)
			if o.Format() != dataset.CSVDataFormat {
				t.Failf("CSV options are of format %d", o.Format())
			}
			options(t, dataset.CSVDataFormat, o, o.Map())
		}
	})
	r.Explore("xlsx-options", func(c *kit.C) func(t *kit.T) {
		o := &dataset.XLSXOptions{SheetName: kit.Pick(c, []string{"", "Sheet1", "a b", "é<&>", `"`, "null", "😀"})}
		return func(t *kit.T) {
			t.Op(1)
			if o.Format() != dataset.XLSXDataFormat {
				t.Failf("XLSX options are of format %d", o.Format())
			}
			options(t, dataset.XLSXDataFormat, o, o.Map())
		}
	})
	vs := []interface{}{true, false, "", "x", "xy", 1, 1.5, nil, []interface{}{}, map[string]interface{}{"a": true}}
	r.Explore("json-options", func(c *kit.C) func(t *kit.T) {
		m := map[string]interface{}{}
		for _, k := range []string{"pretty", "other"} {
			if c.Bool() {
				m[k] = kit.Pick(c, vs)
			}
		}
		return func(t *kit.T) {
			t.Op(1)
			o := &dataset.JSONOptions{Options: m}
			if o.Format() != dataset.JSONDataFormat {
				t.Failf("JSON options are of format %d", o.Format())
			}
			want := body.Show(m)
			fc, err := dataset.ParseFormatConfigMap(dataset.JSONDataFormat, o.Map())
			if err != nil || body.Show(fc.Map()) != want {
				t.Failf("JSON options %s parsed: %v, error %v", want, fc, err)
			}
			structure(t, "json", m)
			t.Trace()
		}
	})
	r.Explore("typed", func(c *kit.C) func(t *kit.T) {
		f := kit.Pick(c, []dataset.DataFormat{dataset.CSVDataFormat, dataset.XLSXDataFormat, dataset.JSONDataFormat, dataset.UnknownDataFormat, dataset.CBORDataFormat, dataset.NDJSONDataFormat, dataset.XMLDataFormat})
		keys := []string{"headerRow", "lazyQuotes", "variadicFields", "separator", "sheetName", "unknown", "headerrow"}
		m := map[string]interface{}{}
		for i, n := 0, c.Choose(3); i < n; i++ {
			m[kit.Pick(c, keys)] = kit.Pick(c, vs)
		}
		if c.Bool() && len(m) == 0 {
			m = nil
		}
		return func(t *kit.T) {
			t.Op(1)
			before := body.Show(m)
			ok := f == dataset.CSVDataFormat || f == dataset.XLSXDataFormat || f == dataset.JSONDataFormat
			var csv dataset.CSVOptions
			var xlsx dataset.XLSXOptions
			for k, v := range m {
				if v == nil {
					continue
				}
				switch {
				case f == dataset.CSVDataFormat && (k == "headerRow" || k == "lazyQuotes" || k == "variadicFields"):
					b, isB := v.(bool)
					ok = ok && isB
					switch k {
					case "headerRow":
						csv.HeaderRow = b
					case "lazyQuotes":
						csv.LazyQuotes = b
					default:
						csv.VariadicFields = b
					}
				case f == dataset.CSVDataFormat && k == "separator":
					s, isS := v.(string)
					ok = ok && isS && len([]rune(s)) == 1
					if isS && len(s) == 1 {
						csv.Separator = rune(s[0])
					}
				case f == dataset.XLSXDataFormat && k == "sheetName":
					s, isS := v.(string)
					ok = ok && isS
					xlsx.SheetName = s
				}
			}
			fc, err := dataset.ParseFormatConfigMap(f, m)
			if ok != (err == nil) {
				t.Failf("options %s of format %q: error %v", before, f, err)
			}
			if body.Show(m) != before {
				t.Failf("parsing changed the options %s to %s", before, body.Show(m))
			}
			var direct dataset.FormatConfig
			derr := err
			switch f {
			case dataset.CSVDataFormat:
				direct, derr = dataset.NewCSVOptions(m)
			case dataset.XLSXDataFormat:
				direct, derr = dataset.NewXLSXOptions(m)
			case dataset.JSONDataFormat:
				direct, derr = dataset.NewJSONOptions(m)
			}
			if (derr == nil) != (err == nil) || ok && fmt.Sprintf("%T %+v", direct, direct) != fmt.Sprintf("%T %+v", fc, fc) {
				t.Failf("options %s of format %q: %v, %v by the format's own function, %v, %v by its name", before, f, direct, derr, fc, err)
			}
			if ok {
				if fc.Format() != f {
					t.Failf("options %s of format %q parsed as format %q", before, f, fc.Format())
				}
				switch x := fc.(type) {
				case *dataset.CSVOptions:
					ok = *x == csv
				case *dataset.XLSXOptions:
					ok = *x == xlsx
				case *dataset.JSONOptions:
					ok = body.Show(x.Options) == before || m == nil && len(x.Options) == 0
				default:
					ok = false
				}
				if !ok {
					t.Failf("options %s of format %q parsed as %+v", before, f, fc)
				}
			}
			t.Trace()
		}
	})
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// structure records options in a structure document and reads them back
func structure(t *kit.T, format string, m map[string]interface{}) map[string]interface{} {
	st := &dataset.Structure{Format: format, FormatConfig: m, Schema: body.Arr()}
	data, err := json.Marshal(st)
	if err != nil {
		t.Failf("structure with options %s cannot be encoded: %v", body.Show(m), err)
	}
	back := &dataset.Structure{}
	if err := json.Unmarshal(data, back); err != nil {
		t.Failf("structure %s cannot be decoded: %v", data, err)
	}
	if back.Format != format || !(len(m) == 0 && len(back.FormatConfig) == 0) && !body.Eq(mp(back.FormatConfig), mp(m)) {
		t.Failf("structure with options %s decoded has %s", body.Show(m), body.Show(back.FormatConfig))
	}
	return back.FormatConfig
}

func mp(m map[string]interface{}) interface{} { return m }

func options(t *kit.T, f dataset.DataFormat, o dataset.FormatConfig, m map[string]interface{}) {
	show := fmt.Sprintf("%+v", o)
	fc, err := dataset.ParseFormatConfigMap(f, m)
	if err != nil || !reflect.DeepEqual(fc, o) {
		t.Failf("options %s as map %s parse to %+v, error %v", show, body.Show(m), fc, err)
	}
	if s := fmt.Sprintf("%+v", o); s != show {
		t.Failf("options %s became %s", show, s)
	}
	rec := structure(t, f.String(), m)
	fc, err = dataset.ParseFormatConfigMap(f, rec)
	if err != nil || !reflect.DeepEqual(fc, o) {
		t.Failf("options %s recorded as %s parse to %+v, error %v", show, body.Show(rec), fc, err)
	}
	t.Trace()
}
