// Package body holds what the checks of body formats share: sources and sinks
// with chosen chunking and faults, reading helpers and value comparison.
package body

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
)

// ErrFault is the error an injected fault reports.
var ErrFault = errors.New("injected fault")

// Source yields Data in chunks of at most Chunk bytes (0: as asked), fails with
// ErrFault at offset Fail (negative: never), and ends with EOF, together with
// the last data when Together.
type Source struct {
	Data     []byte
	Chunk    int
	Fail     int
	Together bool
	Err      error
	Once     bool // fail once, and then go on
	// Chunker, when set, decides the size of each read.
	Chunker func(max int) int
	pos     int
	Reads   int
}

// NewSource is a source without faults.
func NewSource(data []byte, chunk int, together bool) *Source {
	return &Source{Data: data, Chunk: chunk, Fail: -1, Together: together}
}

func (s *Source) Read(p []byte) (int, error) {
	s.Reads++
	if s.Fail >= 0 && s.pos >= s.Fail {
		if s.Once {
			s.Fail = -1
		}
		if s.Err != nil {
			return 0, s.Err
		}
		return 0, ErrFault
	}
	if s.pos >= len(s.Data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(s.Data) - s.pos
	if s.Fail >= 0 && s.Fail-s.pos < n {
		n = s.Fail - s.pos
	}
	if n > len(p) {
		n = len(p)
	}
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	if s.Chunker != nil {
		n = s.Chunker(n)
	}
	copy(p, s.Data[s.pos:s.pos+n])
	s.pos += n
	if s.Together {
		if s.Fail >= 0 && s.pos >= s.Fail {
			if s.Once {
				s.Fail = -1
			}
			if s.Err != nil {
				return n, s.Err
			}
			return n, ErrFault
		}
		if s.pos >= len(s.Data) && s.Fail < 0 {
			return n, io.EOF
		}
	}
	return n, nil
}

// Sink accepts bytes and fails at offset Fail (negative: never): the write that
// crosses it is accepted up to there and reports ErrFault; with Once, only that
// write fails and later ones are accepted again.
type Sink struct {
	buf    bytes.Buffer // not embedded: every byte goes through Write
	Fail   int
	Once   bool
	failed bool
	Writes int
}

func (s *Sink) Write(p []byte) (int, error) {
	s.Writes++
	if s.Fail >= 0 && !(s.failed && s.Once) {
		if s.failed {
			return 0, ErrFault
		}
		if s.buf.Len()+len(p) > s.Fail {
			n := s.Fail - s.buf.Len()
			s.failed = true
			s.buf.Write(p[:n])
			return n, ErrFault
		}
	}
	return s.buf.Write(p)
}

// Bytes and Len of what was accepted.
func (s *Sink) Bytes() []byte { return s.buf.Bytes() }

// Len is the number of bytes accepted.
func (s *Sink) Len() int { return s.buf.Len() }

// Failed reports whether a write was refused.
func (s *Sink) Failed() bool { return s.failed }

// ErrTooMany is returned when a reader gives more entries than plausible.
var ErrTooMany = errors.New("reader gives no end of entries")

// Drain reads entries until an error; the error is nil for a clean end.
func Drain(r dsio.EntryReader, max int) (es []dsio.Entry, err error) {
	for {
		e, err := r.ReadEntry()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return es, err
		}
		es = append(es, e)
		if len(es) > max {
			return es, ErrTooMany
		}
	}
}

// ReadBody opens, drains and closes a body.
func ReadBody(st *dataset.Structure, r io.Reader, max int) ([]dsio.Entry, error) {
	rd, err := dsio.NewEntryReader(st, r)
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	es, err := Drain(rd, max)
	if cerr := rd.Close(); err == nil && cerr != nil {
		err = fmt.Errorf("close: %w", cerr)
	}
	return es, err
}

// WriteBody writes entries and closes.
func WriteBody(st *dataset.Structure, w io.Writer, es []dsio.Entry) error {
	wr, err := dsio.NewEntryWriter(st, w)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	for i, e := range es {
		if err := wr.WriteEntry(e); err != nil {
			return fmt.Errorf("entry %d: %w", i, err)
		}
	}
	if err := wr.Close(); err != nil {
		return fmt.Errorf("close: %w", err)
	}
	return nil
}

func asNum(v interface{}) (*big.Float, bool) {
	switch x := v.(type) {
	case int:
		return new(big.Float).SetPrec(200).SetInt64(int64(x)), true
	case int64:
		return new(big.Float).SetPrec(200).SetInt64(x), true
	case int32:
		return new(big.Float).SetPrec(200).SetInt64(int64(x)), true
	case uint64:
		return new(big.Float).SetPrec(200).SetUint64(x), true
	case uint:
		return new(big.Float).SetPrec(200).SetUint64(uint64(x)), true
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(x), true
	case float32:
		return asNum(float64(x))
	}
	return nil, false
}

// Eq is equality of content, numbers by numeric value.
func Eq(a, b interface{}) bool {
	if x, ok := asNum(a); ok {
		y, ok := asNum(b)
		return ok && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !Eq(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Eq(v, w) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// EqTyped is Eq where, in addition, whole numbers and floats differ in kind.
func EqTyped(a, b interface{}) bool {
	if _, ok := asNum(a); ok {
		return Eq(a, b) && isFloat(a) == isFloat(b)
	}
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !EqTyped(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !EqTyped(v, w) {
				return false
			}
		}
		return true
	}
	return Eq(a, b)
}

func isFloat(v interface{}) bool {
	switch v.(type) {
	case float64, float32:
		return true
	}
	return false
}

// Show prints a value with types.
func Show(v interface{}) string {
	switch x := v.(type) {
	case []interface{}:
		var p []string
		for _, e := range x {
			p = append(p, Show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var p []string
		for _, k := range ks {
			p = append(p, fmt.Sprintf("%q:%s", k, Show(x[k])))
		}
		return "{" + strings.Join(p, " ") + "}"
	case string:
		if len(x) > 80 {
			return fmt.Sprintf("%q…(%d bytes)", x[:80], len(x))
		}
		return fmt.Sprintf("%q", x)
	case []byte:
		if len(x) > 80 {
			return fmt.Sprintf("bytes %x…(%d bytes)", x[:80], len(x))
		}
		return fmt.Sprintf("bytes %x", x)
	case nil:
		return "null"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// ShowEntries prints entries.
func ShowEntries(es []dsio.Entry) string {
	var p []string
	for i, e := range es {
		if i >= 12 {
			p = append(p, fmt.Sprintf("… %d in all", len(es)))
			break
		}
		p = append(p, fmt.Sprintf("%d/%q=%s", e.Index, e.Key, Show(e.Value)))
	}
	return strings.Join(p, " ")
}

// EqEntries compares entries; index false ignores indexes.
func EqEntries(a, b []dsio.Entry, index bool, eq func(a, b interface{}) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || index && a[i].Index != b[i].Index || !eq(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// Clone deep copies a dynamic value.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		if x == nil {
			return x
		}
		o := make([]interface{}, len(x))
		for i := range x {
			o[i] = Clone(x[i])
		}
		return o
	case map[string]interface{}:
		if x == nil {
			return x
		}
		o := make(map[string]interface{}, len(x))
		for k, e := range x {
			o[k] = Clone(e)
		}
		return o
	case []byte:
		if x == nil {
			return x
		}
		return append([]byte{}, x...)
	}
	return v
}

// CloneEntries deep copies entries.
func CloneEntries(es []dsio.Entry) []dsio.Entry {
	o := make([]dsio.Entry, len(es))
	for i, e := range es {
		o[i] = dsio.Entry{Index: e.Index, Key: e.Key, Value: Clone(e.Value)}
	}
	return o
}

// Arr and Obj are base schemas made afresh, so that no check shares them.
func Arr() map[string]interface{} { return map[string]interface{}{"type": "array"} }

// Obj is an object schema.
func Obj() map[string]interface{} { return map[string]interface{}{"type": "object"} }

// Table is a tabular schema of the given column types, titled c0, c1, ….
func Table(types ...string) map[string]interface{} {
	items := make([]interface{}, len(types))
	for i, t := range types {
		items[i] = map[string]interface{}{"title": fmt.Sprintf("c%d", i), "type": t}
	}
	return map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
}

// St is a structure.
func St(format, comp string, schema, cfg map[string]interface{}) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: schema, FormatConfig: cfg}
}

// JSON decodes JSON text with every number at its value: whole numbers that a
// float64 would round are int64.
func JSON(text string) (interface{}, bool) {
	var x interface{}
	if json.Unmarshal([]byte(text), &x) != nil {
		return nil, false
	}
	var y interface{}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if d.Decode(&y) != nil {
		return nil, false
	}
	return exact(y), true
}

func exact(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		f, _ := x.Float64()
		if i, err := x.Int64(); err == nil && (i > 1<<53 || i < -(1<<53)) {
			return i
		}
		return f
	case []interface{}:
		for i := range x {
			x[i] = exact(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = exact(x[k])
		}
	}
	return v
}
