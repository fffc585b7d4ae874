// C23: dataset, structure, commit and name rules are enforced for every document.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/validate"
	"vmc/body"
	"vmc/kit"
)

func main() {
	kit.Main(kit.Def{Prop: "C23", Level: "model_checking",
		Rule:   "every name, commit title, structure and combination of components over the stated alphabets is judged by the real validators and by the rules written out directly; the error must name the first broken rule and the document must be unchanged",
		Bounds: "names of up to 4 (thorough 5) symbols of 13 and of length 140..150 with every symbol at every end; titles of 0..130 bytes in 1 to 4 byte characters; 22 format texts by 6 schemas by other fields; all products of commit and structure choices with other components",
		Body:   run})
}

func letter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

func nameOK(s string) bool {
	if s == "" || len(s) > 144 || !letter(s[0]) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if b := s[i]; !letter(b) && b != '_' && !(b >= '0' && b <= '9') {
			return false
		}
	}
	return true
}

func checkName(t *kit.T, s string) {
	t.Op(1)
	if err := validate.ValidName(s); nameOK(s) != (err == nil) {
		t.Failf("name %q (%d bytes): error %v", s, len(s), err)
	}
}

var formats = map[string]bool{"csv": true, "json": true, "ndjson": true, "jsonl": true, "cbor": true, "xml": true, "xlsx": true}

// the rules: "" when met, else the word the error has to contain
func structureRule(st *dataset.Structure) string {
	switch {
	case st == nil:
		return ""
	case !formats[strings.TrimPrefix(st.Format, ".")]:
		return "format"
	case st.Schema == nil:
		return "schema"
	}
	return ""
}

func commitRule(cm *dataset.Commit) string {
	if cm != nil && len(cm.Title) > 100 {
		return "title"
	}
	return ""
}

func judge(t *kit.T, what string, err error, rule, part string) {
	t.Op(1)
	if (rule == "") != (err == nil) {
		t.Failf("%s: broken rule %q, error %v", what, rule, err)
	}
	if err != nil && (!strings.Contains(err.Error(), rule) || !strings.Contains(err.Error(), part)) {
		t.Failf("%s: the error is %q, the first broken rule is about %q in %q", what, err, rule, part)
	}
}

func run(r *kit.Run) {
	syms := []string{"a", "z", "A", "Z", "0", "9", "_", "-", " ", ".", "\n", "é", "@"}
	r.Explore("names", func(c *kit.C) func(t *kit.T) {
		s := ""
		for i, n := 0, c.Range(0, r.T0(4, 5)); i < n; i++ {
			s += kit.Pick(c, syms)
		}
		return func(t *kit.T) { checkName(t, s); t.Trace() }
	})
	r.Explore("long names", func(c *kit.C) func(t *kit.T) {
		n := c.Range(140, 150)
		a, b, fill := kit.Pick(c, syms), kit.Pick(c, syms), kit.Pick(c, []string{"a", "_", "5", "é"})
		return func(t *kit.T) {
			s := a + strings.Repeat(fill, n-len(a)-len(b)) + b
			checkName(t, s)
			checkName(t, "\n"+s)
			checkName(t, s+"\n"+s)
			t.Trace()
		}
	})
	r.Explore("bytes", func(c *kit.C) func(t *kit.T) {
		b := byte(c.Choose(256))
		return func(t *kit.T) {
			for _, s := range []string{string([]byte{b}), string([]byte{'a', b}), string([]byte{b, 'a'}), string([]byte{'a', b, 'a'})} {
				checkName(t, s)
			}
			t.Trace()
		}
	})

	title := func(c *kit.C) string {
		ch := kit.Pick(c, []string{"a", "é", "☃", "😀", "\n"})
		n := c.Range(0, 130)
		if n%len(ch) != 0 && ch != "a" {
			return strings.Repeat(ch, n/len(ch)) + strings.Repeat("b", n%len(ch))
		}
		return strings.Repeat(ch, n/len(ch))
	}
	r.Explore("commits", func(c *kit.C) func(t *kit.T) {
		cm := &dataset.Commit{Title: title(c)}
		if c.Bool() {
			cm.Message = strings.Repeat("m", 500)
			cm.Author = &dataset.User{ID: "x"}
			cm.Timestamp = time.Unix(0, 0)
			cm.Signature = "s"
		}
		return func(t *kit.T) {
			before := *cm
			judge(t, fmt.Sprintf("commit with a title of %d bytes", len(cm.Title)), validate.Commit(cm), commitRule(cm), "")
			err := validate.Dataset(&dataset.Dataset{Commit: cm})
			judge(t, fmt.Sprintf("dataset with a commit title of %d bytes", len(cm.Title)), err, commitRule(cm), "commit")
			if *cm != before {
				t.Failf("validation changed the commit")
			}
			t.Trace()
		}
	})
	texts := []string{"", "csv", "json", "ndjson", "jsonl", "cbor", "xml", "xlsx", ".csv", ".json", ".ndjson", ".jsonl", ".cbor", ".xml", ".xlsx", "CSV", "csv ", "unknown", ".", "..csv", "js", "txt"}
	schemas := []map[string]interface{}{nil, {}, body.Arr(), body.Obj(), body.Table("string"), {"type": "nonsense"}}
	structure := func(c *kit.C) *dataset.Structure {
		st := &dataset.Structure{Format: kit.Pick(c, texts), Schema: kit.Pick(c, schemas)}
		if c.Bool() {
			st.Compression, st.Length, st.FormatConfig, st.Strict = "gzip", 5, map[string]interface{}{"headerRow": true}, true
		}
		return st
	}
	r.Explore("structures", func(c *kit.C) func(t *kit.T) {
		st := structure(c)
		return func(t *kit.T) {
			before := fmt.Sprintf("%+v", *st)
			judge(t, fmt.Sprintf("structure of format %q with schema %v", st.Format, st.Schema), validate.Structure(st), structureRule(st), "")
			if fmt.Sprintf("%+v", *st) != before {
				t.Failf("validation changed the structure %s", before)
			}
			rule := ""
			if st.Schema == nil {
				rule = "schema"
			}
			judge(t, fmt.Sprintf("schema %v", st.Schema), validate.Schema(st.Schema), rule, "")
			t.Trace()
		}
	})
	r.Case("nil", func(t *kit.T) {
		judge(t, "nil dataset", validate.Dataset(nil), "", "")
		judge(t, "nil commit", validate.Commit(nil), "", "")
		judge(t, "nil structure", validate.Structure(nil), "", "")
		judge(t, "empty dataset", validate.Dataset(&dataset.Dataset{}), "commit", "")
		judge(t, "empty structure", validate.Structure(&dataset.Structure{}), "format", "")
		judge(t, "empty commit", validate.Commit(&dataset.Commit{}), "", "")
		t.Trace()
	})
	r.Explore("datasets", func(c *kit.C) func(t *kit.T) {
		ds := &dataset.Dataset{}
		switch c.Choose(5) {
		case 1:
			ds.Commit = &dataset.Commit{}
		case 2:
			ds.Commit = &dataset.Commit{Title: "ok"}
		case 3:
			ds.Commit = &dataset.Commit{Title: strings.Repeat("x", 100)}
		case 4:
			ds.Commit = &dataset.Commit{Title: strings.Repeat("x", 101)}
		}
		if c.Bool() {
			ds.Structure = structure(c)
		}
		if c.Bool() {
			ds.Name, ds.Meta, ds.Transform, ds.Readme, ds.Viz = "Not valid!", &dataset.Meta{}, &dataset.Transform{}, &dataset.Readme{}, &dataset.Viz{}
			ds.BodyPath, ds.PreviousPath = "/b", "/p"
		}
		return func(t *kit.T) {
			rule, part := commitRule(ds.Commit), "commit"
			if ds.Commit == nil {
				rule = "commit"
			}
			if rule == "" {
				rule, part = structureRule(ds.Structure), "structure"
			}
			judge(t, fmt.Sprintf("dataset with commit %v structure %+v", ds.Commit, ds.Structure), validate.Dataset(ds), rule, part)
			t.Trace()
		}
	})
}
