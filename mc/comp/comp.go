// Package comp describes, independently of the code under test, the fields of
// every dataset component: their published JSON names, their roles and a small
// alphabet of values.
package comp

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/qri-io/dataset"
)

// Role of a field.
type Role int

// Field roles.
const (
	Content Role = iota
	Path
	Qri
	Secret // content for emptiness, never written
	Custom // custom metadata key
)

// Field of a component.
type Field struct {
	Name   string // JSON key
	Go     string // Go field
	Role   Role
	Vals   []func() interface{}
	Trans  bool // cleared by DropTransientValues
	Deriv  bool // cleared by DropDerivedValues
	Always bool // written even when unset
}

// Kind of component.
type Kind struct {
	Name   string
	Qri    string
	New    func() interface{}
	Fields []Field
}

func lit(vs ...interface{}) (out []func() interface{}) {
	for _, v := range vs {
		v := v
		out = append(out, func() interface{} { return v })
	}
	return
}

func strs() []func() interface{}          { return lit("a", "é\"<&\n\u2028 b") }
func paths(n string) []func() interface{} { return lit("/ipfs/Qm"+n, "mem://"+n+" x") }
func js(ss ...string) (out []func() interface{}) {
	for _, s := range ss {
		s := s
		out = append(out, func() interface{} {
			var v interface{}
			if err := json.Unmarshal([]byte(s), &v); err != nil {
				panic(err)
			}
			return v
		})
	}
	return
}

// T1, T2 are commit times.
var (
	T1 = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	T2 = time.Date(2021, 12, 31, 23, 59, 59, 123456789, time.FixedZone("", 5*3600+1800))
)

func f(name, goName string, vals []func() interface{}) Field {
	return Field{Name: name, Go: goName, Vals: vals}
}
func (fl Field) role(r Role) Field { fl.Role = r; return fl }
func (fl Field) trans() Field      { fl.Trans = true; return fl }
func (fl Field) deriv() Field      { fl.Deriv = true; return fl }
func (fl Field) always() Field     { fl.Always = true; return fl }

// Commit and friends are the component kinds.
var (
	Commit = Kind{"commit", "cm:0", func() interface{} { return &dataset.Commit{} }, []Field{
		f("author", "Author", []func() interface{}{
			func() interface{} { return &dataset.User{ID: "u1"} },
			func() interface{} { return &dataset.User{ID: "u2", Fullname: "n", Email: "e@x"} }}),
		f("message", "Message", strs()),
		f("path", "Path", paths("cm")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("cm:0", "cm:1")).role(Qri).deriv(),
		f("runID", "RunID", strs()),
		f("signature", "Signature", strs()),
		f("timestamp", "Timestamp", lit(T1, T2)).always(),
		f("title", "Title", strs()).always(),
	}}
	Meta = Kind{"meta", "md:0", func() interface{} { return &dataset.Meta{} }, []Field{
		f("accessURL", "AccessURL", strs()),
		f("accrualPeriodicity", "AccrualPeriodicity", strs()),
		f("citations", "Citations", []func() interface{}{
			func() interface{} { return []*dataset.Citation{{Name: "c"}} },
			func() interface{} { return []*dataset.Citation{{Name: "c", URL: "u", Email: "e"}, {URL: "z"}} }}),
		f("contributors", "Contributors", []func() interface{}{
			func() interface{} { return []*dataset.User{{ID: "c"}} },
			func() interface{} { return []*dataset.User{{Fullname: "c"}, {Email: "z"}} }}),
		f("description", "Description", strs()),
		f("downloadURL", "DownloadURL", strs()),
		f("homeURL", "HomeURL", strs()),
		f("identifier", "Identifier", strs()),
		f("keywords", "Keywords", []func() interface{}{
			func() interface{} { return []string{"k"} }, func() interface{} { return []string{"k", "", "<l>"} }}),
		f("language", "Language", []func() interface{}{
			func() interface{} { return []string{"en"} }, func() interface{} { return []string{"fr", "en"} }}),
		f("license", "License", []func() interface{}{
			func() interface{} { return &dataset.License{Type: "MIT"} }, func() interface{} { return &dataset.License{Type: "x", URL: "u"} }}),
		f("path", "Path", paths("md")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("md:0", "md:1")).role(Qri).deriv(),
		f("readmeURL", "ReadmeURL", strs()),
		f("theme", "Theme", []func() interface{}{
			func() interface{} { return []string{"t"} }, func() interface{} { return []string{"t", "u"} }}),
		f("title", "Title", strs()),
		f("version", "Version", strs()),
		f("custom", "", js(`"x"`, `{"b":[1.5,null,{"z":true,"a":"q"}],"a":2}`)).role(Custom),
	}}
	Structure = Kind{"structure", "st:0", func() interface{} { return &dataset.Structure{} }, []Field{
		f("checksum", "Checksum", strs()).deriv(),
		f("compression", "Compression", lit("gzip", "zst")),
		f("depth", "Depth", lit(1, 1<<40)).deriv(),
		f("encoding", "Encoding", strs()),
		f("entries", "Entries", lit(1, 1<<40)).deriv(),
		f("errCount", "ErrCount", lit(1, 1<<40)).deriv(),
		f("format", "Format", lit("csv", "json")).always(),
		f("formatConfig", "FormatConfig", js(`{"headerRow":true}`, `{"z":1,"a":{"y":[1],"b":"c"}}`)),
		f("length", "Length", lit(1, 1<<40)).deriv(),
		f("path", "Path", paths("st")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("st:0", "st:1")).role(Qri).deriv(),
		f("schema", "Schema", js(`{"type":"array"}`, `{"type":"array","items":{"type":"array","items":[{"title":"a","type":["string","null"]},{"type":"integer","maximum":3}]}}`)),
		f("strict", "Strict", lit(true)),
	}}
	Stats = Kind{"stats", "sa:0", func() interface{} { return &dataset.Stats{} }, []Field{
		f("path", "Path", paths("sa")).role(Path).deriv(),
		f("qri", "Qri", lit("sa:0", "sa:1")).role(Qri).deriv(),
		f("stats", "Stats", js(`[{"count":1,"type":"string"}]`, `{"b":{"max":1.5},"a":[null,false]}`)),
	}}
	Transform = Kind{"transform", "tf:0", func() interface{} { return &dataset.Transform{} }, []Field{
		f("config", "Config", js(`{"a":"b"}`, `{"z":1,"c":{"y":[1],"b":"c"}}`)),
		f("path", "Path", paths("tf")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("tf:0", "tf:1")).role(Qri).deriv(),
		f("resources", "Resources", []func() interface{}{
			func() interface{} { return map[string]*dataset.TransformResource{"a": {Path: "/a"}} },
			func() interface{} { return map[string]*dataset.TransformResource{"b": {Path: "/b"}, "c": {Path: ""}} }}),
		f("scriptPath", "ScriptPath", strs()),
		f("text", "Text", strs()).trans(),
		f("secrets", "Secrets", []func() interface{}{
			func() interface{} { return map[string]string{"k": "hush-hush-1"} },
			func() interface{} { return map[string]string{"l": "hush-hush-2", "m": ""} }}).role(Secret).trans(),
		f("steps", "Steps", []func() interface{}{
			func() interface{} {
				return []*dataset.TransformStep{{Name: "s", Syntax: "starlark", Category: "setup", Script: "x = 1"}}
			},
			func() interface{} {
				return []*dataset.TransformStep{{Name: "s", Path: "/p", Script: map[string]interface{}{"b": 1.0, "a": nil}}, {Script: ""}}
			}}),
		f("syntax", "Syntax", strs()),
		f("syntaxVersion", "SyntaxVersion", strs()),
		f("syntaxes", "Syntaxes", []func() interface{}{
			func() interface{} { return map[string]string{"starlark": "1"} },
			func() interface{} { return map[string]string{"z": "2", "b": ""} }}),
	}}
	Readme = Kind{"readme", "rm:0", func() interface{} { return &dataset.Readme{} }, []Field{
		f("format", "Format", lit("md", "html")),
		f("path", "Path", paths("rm")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("rm:0", "rm:1")).role(Qri).deriv(),
		f("renderedPath", "RenderedPath", strs()),
		f("scriptPath", "ScriptPath", strs()),
		f("text", "Text", strs()).trans(),
	}}
	Viz = Kind{"viz", "vz:0", func() interface{} { return &dataset.Viz{} }, []Field{
		f("format", "Format", lit("md", "html")),
		f("path", "Path", paths("vz")).role(Path).trans().deriv(),
		f("qri", "Qri", lit("vz:0", "vz:1")).role(Qri).deriv(),
		f("renderedPath", "RenderedPath", strs()),
		f("scriptPath", "ScriptPath", strs()),
		f("text", "Text", strs()).trans(),
	}}
	Dataset = Kind{"dataset", "ds:0", func() interface{} { return &dataset.Dataset{} }, []Field{
		f("body", "Body", js(`[["a",1.5,null,true]]`, `{"b":{"c":[]},"a":"<&>"}`)).trans(),
		f("bodyBytes", "BodyBytes", []func() interface{}{
			func() interface{} { return []byte("a,b\n") }, func() interface{} { return []byte{0, 255, 10} }}).trans(),
		f("bodyPath", "BodyPath", paths("bd")),
		f("commit", "Commit", subs(&Commit)),
		f("id", "ID", strs()),
		f("meta", "Meta", subs(&Meta)),
		f("name", "Name", strs()).trans(),
		f("numVersions", "NumVersions", lit(1, 1<<40)).trans(),
		f("path", "Path", paths("ds")).role(Path).trans().deriv(),
		f("peername", "Peername", strs()).trans(),
		f("previousPath", "PreviousPath", strs()),
		f("profileID", "ProfileID", strs()).trans(),
		f("qri", "Qri", lit("ds:0", "ds:1")).role(Qri).deriv(),
		f("readme", "Readme", subs(&Readme)),
		f("stats", "Stats", subs(&Stats)),
		f("structure", "Structure", subs(&Structure)),
		f("transform", "Transform", subs(&Transform)),
		f("viz", "Viz", subs(&Viz)),
	}}
	// Components lists all kinds but Dataset.
	Components = []*Kind{&Commit, &Meta, &Structure, &Stats, &Transform, &Readme, &Viz}
	// All lists all kinds.
	All = append(append([]*Kind{}, Components...), &Dataset)
)

// subs are sub component values of a dataset: a full one and a reference.
func subs(k *Kind) []func() interface{} {
	return []func() interface{}{
		func() interface{} { return k.Build(k.Uniform(1)) },
		func() interface{} { return k.Build(k.Only("path", 1)) },
	}
}

// A is an assignment: per field, 0 unset or 1+i for value i.
type A []int

// Same is a variant of the text fields only: all have the same value.
const (
	Same     = 99
	sameText = "/ipfs/QmSame"
)

// IsText says whether field i holds a text.
func (k *Kind) IsText(i int) bool {
	_, ok := k.Fields[i].Vals[0]().(string)
	return ok && k.Fields[i].Role != Qri && k.Fields[i].Role != Custom
}

// Uniform sets every field to its variant v (1-based, clipped); with Same the
// text fields to the same text and the others to their first variant.
func (k *Kind) Uniform(v int) A {
	a := make(A, len(k.Fields))
	for i, fl := range k.Fields {
		a[i] = v
		if v == Same {
			if !k.IsText(i) {
				a[i] = 1
			}
			continue
		}
		if v > len(fl.Vals) {
			a[i] = len(fl.Vals)
		}
	}
	return a
}

// Only sets a single field.
func (k *Kind) Only(name string, v int) A {
	a := make(A, len(k.Fields))
	a[k.Index(name)] = v
	return a
}

// Index of a field by JSON name.
func (k *Kind) Index(name string) int {
	for i := range k.Fields {
		if k.Fields[i].Name == name {
			return i
		}
	}
	return -1
}

// CustomKey is the custom metadata key used by variant v.
func CustomKey(v int) string { return []string{"", "foo", "Zeta <k>"}[v] }

// Build makes a fresh component.
func (k *Kind) Build(a A) interface{} {
	c := k.New()
	for i, fl := range k.Fields {
		if a[i] == 0 {
			continue
		}
		k.Set(c, i, a[i])
		_ = fl
	}
	return c
}

// Set gives field i of c its variant v.
func (k *Kind) Set(c interface{}, i, v int) {
	fl := k.Fields[i]
	if v == Same {
		reflect.ValueOf(c).Elem().FieldByName(fl.Go).SetString(sameText)
		return
	}
	val := fl.Vals[v-1]()
	if fl.Role == Custom {
		if err := c.(*dataset.Meta).Set(CustomKey(v), val); err != nil {
			panic(err)
		}
		return
	}
	reflect.ValueOf(c).Elem().FieldByName(fl.Go).Set(reflect.ValueOf(val))
}

// Get dumps field i of c ("" when unset).
func (k *Kind) Get(c interface{}, i int) string {
	fl := k.Fields[i]
	if fl.Role == Custom {
		return Dump(c.(*dataset.Meta).Meta())
	}
	return Dump(reflect.ValueOf(c).Elem().FieldByName(fl.Go).Interface())
}

// Fieldwise dumps all fields.
func (k *Kind) Fieldwise(c interface{}) []string {
	out := make([]string, len(k.Fields))
	for i := range k.Fields {
		out[i] = k.Get(c, i)
	}
	return out
}

// ValDump is the dump of variant v of field i, "" for 0.
func (k *Kind) ValDump(i, v int) string {
	if v == 0 {
		return ""
	}
	if v == Same {
		return Dump(sameText)
	}
	if k.Fields[i].Role == Custom {
		return Dump(map[string]interface{}{CustomKey(v): k.Fields[i].Vals[v-1]()})
	}
	return Dump(k.Fields[i].Vals[v-1]())
}

// HasContent says whether the assignment sets any content field.
func (k *Kind) HasContent(a A) bool {
	for i, fl := range k.Fields {
		if a[i] != 0 && fl.Role != Path && fl.Role != Qri {
			return true
		}
	}
	return false
}

// String describes an assignment.
func (k *Kind) String(a A) string {
	var s []string
	for i, fl := range k.Fields {
		if a[i] != 0 {
			s = append(s, fmt.Sprintf("%s=%d", fl.Name, a[i]))
		}
	}
	return k.Name + "{" + strings.Join(s, ",") + "}"
}

// Dump prints a value canonically: maps sorted, pointers followed, unset fields
// and empty top level containers alike (""), times with their offset.
func Dump(v interface{}) string { return string(dump(nil, reflect.ValueOf(v), false)) }

// dump appends v; elem says that v sits in a dynamic container, where zero
// values are values of their own.
func dump(b []byte, v reflect.Value, elem bool) []byte {
	if !v.IsValid() {
		if elem {
			b = append(b, "nil"...)
		}
		return b
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if elem {
				b = append(b, "nil"...)
			}
			return b
		}
		if m, ok := v.Interface().(*dataset.Meta); ok {
			b = append(b, "custom:"...)
			b = dump(b, reflect.ValueOf(m.Meta()), false)
		}
		b = append(b, '&')
		return dump(b, v.Elem(), elem)
	case reflect.Interface:
		if v.IsNil() {
			if elem {
				b = append(b, "nil"...)
			}
			return b
		}
		return dump(b, v.Elem(), true)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if !t.IsZero() || elem {
				b = append(b, t.Format(time.RFC3339Nano)...)
			}
			return b
		}
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			n := len(b)
			b = append(b, v.Type().Field(i).Name...)
			b = append(b, ':')
			m := len(b)
			b = dump(b, v.Field(i), false)
			if len(b) == m { // unset: drop the name
				b = b[:n]
				continue
			}
			b = append(b, ';')
		}
		return append(b, '}')
	case reflect.Map:
		if v.Len() == 0 && !elem {
			return b
		}
		ks := make([]string, 0, v.Len())
		m := make(map[string]reflect.Value, v.Len())
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		b = append(b, "map["...)
		for _, k := range ks {
			b = strconv.AppendQuote(b, k)
			b = append(b, ':')
			b = dump(b, m[k], true)
			b = append(b, ',')
		}
		return append(b, ']')
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 && !elem {
			return b
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			return append(b, fmt.Sprintf("bytes:%x", v.Bytes())...)
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = dump(b, v.Index(i), true)
			b = append(b, ',')
		}
		return append(b, ']')
	case reflect.String:
		if v.Len() > 0 || elem {
			b = strconv.AppendQuote(b, v.String())
		}
		return b
	case reflect.Bool:
		if v.Bool() || elem {
			b = strconv.AppendBool(b, v.Bool())
		}
		return b
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 || elem {
			b = append(b, v.Kind().String()...)
			b = append(b, '(')
			b = strconv.AppendInt(b, v.Int(), 10)
			b = append(b, ')')
		}
		return b
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 || elem {
			b = append(b, v.Kind().String()...)
			b = append(b, '(')
			b = strconv.AppendUint(b, v.Uint(), 10)
			b = append(b, ')')
		}
		return b
	case reflect.Float32, reflect.Float64:
		b = append(b, v.Kind().String()...)
		b = append(b, '(')
		b = strconv.AppendFloat(b, v.Float(), 'g', -1, 64)
		return append(b, ')')
	case reflect.Func, reflect.Chan:
		return b
	}
	return append(b, fmt.Sprintf("%v", v)...)
}
