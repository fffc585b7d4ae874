From dd2059f60a0564805ce629137497ed6ab26700ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 01/98] fix: structure with a path and content other than
 encoding or schema was encoded as a bare path

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From ecf1ac22fa42c71d3dd71eafb884ae9637b0466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 02/98] fix: meta with a path and only custom keys was
 considered empty and encoded as a bare path

---
 meta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index e648efc..1aae811 100644
--- a/meta.go
+++ b/meta.go
@@ -91,7 +91,8 @@ func (md *Meta) IsEmpty() bool {
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
 		md.Theme == nil &&
-		md.Version == ""
+		md.Version == "" &&
+		len(md.meta) == 0
 }
 
 // NewMetaRef creates a Meta pointer with the internal
-- 
2.43.0


From 1ff0782779a334aad1c78a08d2c6c57d38418196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 03/98] fix: decoding meta duplicated keywords into custom
 metadata and dropped a custom "keyword" key

---
 meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index 1aae811..d950459 100644
--- a/meta.go
+++ b/meta.go
@@ -406,7 +406,7 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"homeURL",
 		"identifier",
 		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-- 
2.43.0


From 4ff56ad529d431039e56aa2babe0313e901b625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 04/98] fix: decoding meta dropped custom keys named data,
 image, length and timestamp

---
 meta.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/meta.go b/meta.go
index d950459..635a1f6 100644
--- a/meta.go
+++ b/meta.go
@@ -400,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
 		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From 2c5873d47b5e0404def5a57aad1a2372cd711e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 05/98] fix: encoding a readme or viz modified its qri field,
 and MarshalJSONObject wrote an empty kind

---
 readme.go | 9 +++++----
 viz.go    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/readme.go b/readme.go
index e8a4685..79a8e2f 100644
--- a/readme.go
+++ b/readme.go
@@ -197,9 +197,6 @@ func (r *Readme) MarshalJSON() ([]byte, error) {
 	if r.Path != "" && r.IsEmpty() {
 		return json.Marshal(r.Path)
 	}
-	if r.Qri == "" {
-		r.Qri = KindReadme.String()
-	}
 
 	return r.MarshalJSONObject()
 }
@@ -246,8 +243,12 @@ func UnmarshalReadme(v interface{}) (*Readme, error) {
 // MarshalJSONObject always marshals to a json Object, even if Readme is empty or
 // a reference
 func (r *Readme) MarshalJSONObject() ([]byte, error) {
+	kind := r.Qri
+	if kind == "" {
+		kind = KindReadme.String()
+	}
 	data := map[string]interface{}{
-		"qri": r.Qri,
+		"qri": kind,
 	}
 
 	if r.Format != "" {
diff --git a/viz.go b/viz.go
index 13d34d1..e63c700 100644
--- a/viz.go
+++ b/viz.go
@@ -200,9 +200,6 @@ func (v *Viz) MarshalJSON() ([]byte, error) {
 	if v.Path != "" && v.IsEmpty() {
 		return json.Marshal(v.Path)
 	}
-	if v.Qri == "" {
-		v.Qri = KindViz.String()
-	}
 
 	return v.MarshalJSONObject()
 }
@@ -248,8 +245,12 @@ func UnmarshalViz(v interface{}) (*Viz, error) {
 // MarshalJSONObject always marshals to a json Object, even if Viz is empty or
 // a reference
 func (v *Viz) MarshalJSONObject() ([]byte, error) {
+	kind := v.Qri
+	if kind == "" {
+		kind = KindViz.String()
+	}
 	data := map[string]interface{}{
-		"qri": v.Qri,
+		"qri": kind,
 	}
 
 	if v.Format != "" {
-- 
2.43.0


From 0cd77eebde7d459ad569e9287e8d9703c63ea3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 06/98] fix: encoding a dataset modified its qri field

---
 dataset.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..eddb018 100644
--- a/dataset.go
+++ b/dataset.go
@@ -436,11 +436,12 @@ func (ds *Dataset) MarshalJSON() ([]byte, error) {
 	if ds.Path != "" && ds.IsEmpty() {
 		return json.Marshal(ds.Path)
 	}
-	if ds.Qri == "" {
-		ds.Qri = KindDataset.String()
+	d := _dataset(*ds)
+	if d.Qri == "" {
+		d.Qri = KindDataset.String()
 	}
 
-	return json.Marshal(_dataset(*ds))
+	return json.Marshal(d)
 }
 
 // internal struct for json unmarshaling
-- 
2.43.0


From 20a13b3b3b51889a2f17ace4d9e80c298d928d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 07/98] fix: dataset with a path and a version count was
 considered empty and encoded as a bare path

---
 dataset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataset.go b/dataset.go
index eddb018..bf8d1a4 100644
--- a/dataset.go
+++ b/dataset.go
@@ -105,6 +105,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
+		ds.NumVersions == 0 &&
 		ds.Structure == nil &&
 		ds.Transform == nil &&
 		ds.Readme == nil &&
-- 
2.43.0


From 5c397278028706ebb200fef773c1078dd65b578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 08/98] fix: assigning several datasets modified the components
 of the first source

---
 dataset.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/dataset.go b/dataset.go
index bf8d1a4..59ac0e8 100644
--- a/dataset.go
+++ b/dataset.go
@@ -371,16 +371,18 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		}
 
 		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+			ds.Commit = &Commit{}
+		}
+		if ds.Commit != nil {
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
 		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+			ds.Meta = &Meta{}
+		}
+		if ds.Meta != nil {
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -399,28 +401,33 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.ProfileID = d.ProfileID
 		}
 		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+			ds.Stats = &Stats{}
+		}
+		if ds.Stats != nil {
 			ds.Stats.Assign(d.Stats)
 		}
 		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+			ds.Structure = &Structure{}
+		}
+		if ds.Structure != nil {
 			ds.Structure.Assign(d.Structure)
 		}
 		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+			ds.Transform = &Transform{}
+		}
+		if ds.Transform != nil {
 			ds.Transform.Assign(d.Transform)
 		}
 		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+			ds.Viz = &Viz{}
+		}
+		if ds.Viz != nil {
 			ds.Viz.Assign(d.Viz)
 		}
 		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+			ds.Readme = &Readme{}
+		}
+		if ds.Readme != nil {
 			ds.Readme.Assign(d.Readme)
 		}
 
-- 
2.43.0


From 40657e14b801cf0cc9249feba55ba29d942bf2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 09/98] fix: dataset Assign skipped the version count and the
 kind

---
 dataset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataset.go b/dataset.go
index 59ac0e8..160d3f1 100644
--- a/dataset.go
+++ b/dataset.go
@@ -400,6 +400,12 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
+		if d.Qri != "" {
+			ds.Qri = d.Qri
+		}
 		if ds.Stats == nil && d.Stats != nil {
 			ds.Stats = &Stats{}
 		}
-- 
2.43.0


From 90421973a236c5bddffc266d9792bce4d5126fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 10/98] fix: assigning meta with custom keys erased the custom
 keys already set and shared the map of the source

---
 meta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index 635a1f6..a38fac7 100644
--- a/meta.go
+++ b/meta.go
@@ -245,7 +245,11 @@ func (md *Meta) Assign(metas ...*Meta) {
 		}
 
 		if m.meta != nil {
-			md.meta = m.meta
+			merged := md.Meta()
+			for key, val := range m.meta {
+				merged[key] = val
+			}
+			md.meta = merged
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From fc76fb108c0e52153a2768b5d2619e10d7d0febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 11/98] fix: readme and viz Assign dropped the rendered file

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index 79a8e2f..f09bef4 100644
--- a/readme.go
+++ b/readme.go
@@ -187,6 +187,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.RenderedPath != "" {
 			r.RenderedPath = rs.RenderedPath
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 	}
 }
 
diff --git a/viz.go b/viz.go
index e63c700..499f2cc 100644
--- a/viz.go
+++ b/viz.go
@@ -187,6 +187,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.RenderedPath != "" {
 			v.RenderedPath = vs.RenderedPath
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 	}
 }
 
-- 
2.43.0


From faeda8d3853cf224e0666287a60b489f908db03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:28 +0000
Subject: [PATCH 12/98] fix: JSON reader swallowed an error in the first
 element of a nested array

---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..1ebc761 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -452,7 +452,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 78065e05a9ed3cf3ceb343846aa34dd15a681858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:36 +0000
Subject: [PATCH 13/98] fix: JSON reader panicked when the input ended right
 after an escaped character at the end of its buffer

---
 dsio/json.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 1ebc761..168fa82 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -352,11 +352,11 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
+		for i >= len(buff) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
-				break
+				return "", fmt.Errorf("Expected: closing '\"' for string")
 			}
 		}
 		if buff[i] == '\\' {
@@ -372,7 +372,6 @@ func (r *JSONReader) readString() (string, error) {
 		}
 		i++
 	}
-	return "", fmt.Errorf("Expected: closing '\"' for string")
 }
 
 func (r *JSONReader) readNumber() (interface{}, error) {
-- 
2.43.0


From 7dca1c2f136d240eff90051ef934d45533652eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:39 +0000
Subject: [PATCH 14/98] fix: JSON reader panicked on an escape sequence cut
 short by the end of its string

---
 dsio/json.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 168fa82..1f8b155 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -302,10 +302,14 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
-				hexChars := srcBuff[s+1 : s+3]
-				s += 3
+				end := s + 3
+				if end > limit {
+					end = limit
+				}
+				hexChars := srcBuff[s+1 : end]
+				s = end
 				bs, err := hex.DecodeString(string(hexChars))
-				if err == nil {
+				if err == nil && len(bs) == 1 {
 					dstBuff[d] = bs[0]
 				} else {
 					dstBuff[d] = '?'
@@ -314,8 +318,12 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
-				s += 5
+				end := s + 5
+				if end > limit {
+					end = limit
+				}
+				hexChars := srcBuff[s+1 : end]
+				s = end
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
 					for _, b := range []byte(res) {
-- 
2.43.0


From 8dfcf085bc5fefa15aac53ad4fcf98bf74eac353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 15/98] fix: JSON reader replaced escaped surrogate pairs with
 question marks

---
 dsio/json.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index 1f8b155..b8e4eb9 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -324,6 +326,17 @@ func unquoteJSONString(srcBuff []byte) string {
 				}
 				hexChars := srcBuff[s+1 : end]
 				s = end
+				// Two escapes may form one code-point, as a surrogate pair
+				if hi, err := strconv.ParseUint(string(hexChars), 16, 16); err == nil && utf16.IsSurrogate(rune(hi)) &&
+					s+6 <= limit && srcBuff[s] == '\\' && srcBuff[s+1] == 'u' {
+					lo, err := strconv.ParseUint(string(srcBuff[s+2:s+6]), 16, 16)
+					ch := utf16.DecodeRune(rune(hi), rune(lo))
+					if err == nil && ch != utf8.RuneError {
+						s += 6
+						d += utf8.EncodeRune(dstBuff[d:], ch)
+						continue
+					}
+				}
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
 					for _, b := range []byte(res) {
-- 
2.43.0


From 00608dac84f7bc073e710e0ef33bb929e902463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:46 +0000
Subject: [PATCH 16/98] fix: JSON reader failed on whole numbers beyond 64 bits

---
 dsio/json.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index b8e4eb9..323bd85 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -422,11 +423,16 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
 		if err != nil {
+			if errors.Is(err, strconv.ErrRange) {
+				// too large for an integer
+				return strconv.ParseFloat(text, 64)
+			}
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
-- 
2.43.0


From c62362319e569a4edbe79417ea3788f5057590fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 17/98] fix: JSON reader exhausted the stack on deeply nested
 bodies

---
 dsio/json.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 323bd85..e12d257 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -24,6 +24,7 @@ type JSONReader struct {
 	objKey      string
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
+	depth       int          // number of containers around the value being read
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
 }
 
@@ -69,6 +70,9 @@ func (r *JSONReader) Structure() *dataset.Structure {
 
 const blockSize = 4096
 
+// maxNestingDepth limits how deep containers in a body can be nested, values are read recursively
+const maxNestingDepth = 10000
+
 // ReadEntry reads one JSON record from the reader
 func (r *JSONReader) ReadEntry() (Entry, error) {
 	ent := Entry{}
@@ -198,9 +202,15 @@ func (r *JSONReader) readValue() (interface{}, error) {
 		return r.readString()
 	case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		return r.readNumber()
-	case '{':
-		return r.readObject()
-	case '[':
+	case '{', '[':
+		if r.depth >= maxNestingDepth {
+			return nil, fmt.Errorf("exceeded maximum nesting depth %d", maxNestingDepth)
+		}
+		r.depth++
+		defer func() { r.depth-- }()
+		if b == '{' {
+			return r.readObject()
+		}
 		return r.readArray()
 	default:
 		return nil, nil
-- 
2.43.0


From a7255140025e7af6b651f48a225a3616c52b92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 18/98] fix: CBOR reader failed on strings longer than its
 buffer and returned byte strings that later reads overwrite

---
 dsio/cbor.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..4a822c3 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -430,15 +430,14 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
+	if num < 0 {
+		return nil, fmt.Errorf("invalid length")
 	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
+	buff := bytes.Buffer{}
+	if _, err := io.CopyN(&buff, r.rdr, int64(num)); err != nil {
 		return nil, err
 	}
-	return buff, nil
+	return buff.Bytes(), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From 4254a58cebff161cf23745cd92d870ab4923ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:02 +0000
Subject: [PATCH 19/98] fix: CBOR reader could not read negative integers of
 more than one byte, and read large unsigned integers as negative

---
 dsio/cbor.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 4a822c3..dfcffbd 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -202,9 +202,18 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	}
 
 	if b < 0x1c {
-		return r.getVarLenInt(b)
-	} else if b >= 0x20 && b < 0x38 {
-		return -int64(b - 0x1f), nil
+		num, err := r.getVarLenInt(b)
+		if err == nil && num < 0 {
+			// too large for a signed integer
+			return uint64(num), nil
+		}
+		return num, err
+	} else if b >= 0x20 && b < 0x3c {
+		num, err := r.getVarLenInt(b)
+		if err == nil && num < 0 {
+			return nil, fmt.Errorf("negative integer out of range")
+		}
+		return -1 - num, err
 	}
 
 	switch b {
-- 
2.43.0


From 95c0d4026cfd2c962469c7c22bb5e1b7e8a56d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 20/98] fix: CBOR reader read half and single precision floats
 as wrong numbers

---
 dsio/cbor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index dfcffbd..da7c210 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -431,8 +431,26 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		bits := binary.BigEndian.Uint16(data)
+		exp, frac := int(bits>>10)&0x1f, float64(bits&0x3ff)
+		var f float64
+		if exp == 0 {
+			f = math.Ldexp(frac, -24)
+		} else if exp < 0x1f {
+			f = math.Ldexp(frac+1024, exp-25)
+		} else if frac == 0 {
+			f = math.Inf(1)
+		} else {
+			f = math.NaN()
+		}
+		if bits&0x8000 != 0 {
+			f = -f
+		}
+		return f, nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
 	}
 	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
 }
-- 
2.43.0


From c40d12cbea4227115ee1c65740e83e9d1b46397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 21/98] fix: CBOR reader read tags, and simple values of more
 than one byte, as null and their content as further values

---
 dsio/cbor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index da7c210..d7cbdf4 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -311,10 +311,16 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// Tags only annotate the value that follows, skip them
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		case cborBaseSimple:
-			// TODO: Implement me
+			// TODO: Implement me, other simple values are read as nil
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
 			return nil, nil
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
-- 
2.43.0


From 4e85d3c5a54ffc6fd950a2fd3c17d91a5fb2df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 22/98] fix: CBOR reader failed on map keys of indefinite
 length

---
 dsio/cbor.go | 63 +++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index d7cbdf4..40976a4 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -181,6 +181,11 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
+	if b == cborBdIndefiniteString {
+		buff, err := r.readIndefiniteBytes()
+		return string(buff), err
+	}
+
 	length, err := r.getVarLenInt(b)
 	if err != nil {
 		return "", err
@@ -230,39 +235,17 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	case cborBdFloat64:
 		return r.readFloatBytes(8)
 	case cborBdIndefiniteBytes:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
+		buff, err := r.readIndefiniteBytes()
+		if err != nil {
+			return nil, err
 		}
-		return concat.Bytes(), nil
+		return buff, nil
 	case cborBdIndefiniteString:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
+		buff, err := r.readIndefiniteBytes()
+		if err != nil {
+			return nil, err
 		}
-		return string(concat.Bytes()), nil
+		return string(buff), nil
 	case cborBdIndefiniteArray:
 		array, err := r.readArray(indefiniteLength)
 		if err != nil {
@@ -341,6 +324,26 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 	return false
 }
 
+// readIndefiniteBytes joins the chunks of bytes or text up to a sequence break
+func (r *CBORReader) readIndefiniteBytes() ([]byte, error) {
+	concat := bytes.Buffer{}
+	for {
+		if r.readIndefiniteSequenceBreak() {
+			break
+		}
+		b, err := r.rdr.ReadByte()
+		if err != nil {
+			return nil, err
+		}
+		buff, err := r.readLengthPrefixedBytes(b)
+		if err != nil {
+			return nil, err
+		}
+		concat.Write(buff)
+	}
+	return concat.Bytes(), nil
+}
+
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 	length, err := r.getVarLenInt(b)
-- 
2.43.0


From a58e6d1266ef4fbb472693660593ae4880e7a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:17 +0000
Subject: [PATCH 23/98] fix: CBOR reader allocated whatever length a nested
 array claims to have, and took a huge length for an indefinite one

---
 dsio/cbor.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 40976a4..c9132a1 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -162,12 +162,12 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 		return t, indefiniteLength, err
 	}
 
-	length, err := r.getVarLenInt(b)
+	length, err := r.getLength(b)
 	if err != nil {
 		return 0, 0, err
 	}
 
-	return t, int(length), nil
+	return t, length, nil
 }
 
 // readStringKey reads a key for a map from the input stream
@@ -274,21 +274,21 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return buff, nil
 		case cborBaseArray:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			array, err := r.readArray(int(length))
+			array, err := r.readArray(length)
 			if err != nil {
 				return nil, err
 			}
 			return array, nil
 		case cborBaseMap:
-			length, err := r.getVarLenInt(b)
+			length, err := r.getLength(b)
 			if err != nil {
 				return nil, err
 			}
-			assoc, err := r.readMap(int(length))
+			assoc, err := r.readMap(length)
 			if err != nil {
 				return nil, err
 			}
@@ -359,12 +359,7 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
-	var array []interface{}
-	if length > 0 {
-		array = make([]interface{}, 0, length)
-	} else {
-		array = make([]interface{}, 0)
-	}
+	array := make([]interface{}, 0)
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
 			break
@@ -422,6 +417,15 @@ func (r *CBORReader) getVarLenInt(b byte) (int64, error) {
 	}
 }
 
+// getLength is getVarLenInt for the length of a container
+func (r *CBORReader) getLength(b byte) (int, error) {
+	length, err := r.getVarLenInt(b)
+	if err == nil && length < 0 {
+		err = fmt.Errorf("invalid length")
+	}
+	return int(length), err
+}
+
 // readIntBytes returns an int by reading num bytes from the input stream
 func (r *CBORReader) readIntBytes(num int) (int64, error) {
 	data, err := r.readBytes(num)
-- 
2.43.0


From 7a942339a0f85b13deeb9b0303d84062fc66ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:46 +0000
Subject: [PATCH 24/98] fix: CBOR reader read empty byte strings as a nil
 slice, which encodes as null

---
 dsio/cbor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index c9132a1..24a2bac 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -326,7 +326,7 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 
 // readIndefiniteBytes joins the chunks of bytes or text up to a sequence break
 func (r *CBORReader) readIndefiniteBytes() ([]byte, error) {
-	concat := bytes.Buffer{}
+	concat := bytes.NewBuffer([]byte{})
 	for {
 		if r.readIndefiniteSequenceBreak() {
 			break
@@ -473,8 +473,8 @@ func (r *CBORReader) readBytes(num int) ([]byte, error) {
 	if num < 0 {
 		return nil, fmt.Errorf("invalid length")
 	}
-	buff := bytes.Buffer{}
-	if _, err := io.CopyN(&buff, r.rdr, int64(num)); err != nil {
+	buff := bytes.NewBuffer([]byte{})
+	if _, err := io.CopyN(buff, r.rdr, int64(num)); err != nil {
 		return nil, err
 	}
 	return buff.Bytes(), nil
-- 
2.43.0


From 64a838965473d557beea58fe7f1b3a88d2eb5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 25/98] fix: CBOR reader exhausted the stack on deeply nested
 bodies

---
 dsio/cbor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 24a2bac..44f7724 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	depth    int // number of containers and tags around the value being read
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -201,6 +202,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 
 // readValue reads a value of any type from the input stream
 func (r *CBORReader) readValue() (interface{}, error) {
+	if r.depth >= maxNestingDepth {
+		return nil, fmt.Errorf("exceeded maximum nesting depth %d", maxNestingDepth)
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1bba1cbdaeb4b0fd0b8edb3a2676a9e0fc376279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 26/98] fix: CBOR reader took a body cut short for a complete
 one

---
 dsio/cbor.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 44f7724..e871031 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -15,6 +15,7 @@ import (
 // CBORReader implements the RowReader interface for the CBOR data format
 type CBORReader struct {
 	rowsRead int
+	started  bool
 	rdr      *bufio.Reader
 	close    func() error // close func from wrapped reader
 	st       *dataset.Structure
@@ -69,23 +70,31 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
-	if r.rowsRead == 0 {
+	if !r.started {
 		top, length, err := r.readTopLevel()
 		if err != nil {
-			return ent, err
+			return ent, noEOF(err)
 		}
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
+		// TODO(dustmop): Length is not used right now to check that max(r.rowsRead) == r.length
 		r.length = length
+		r.started = true
 	}
 
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
 		return ent, io.EOF
 	}
 
+	// The input can only end here if all entries have been read
+	if r.length != indefiniteLength && r.rowsRead >= r.length {
+		if _, err = r.rdr.Peek(1); err != nil {
+			return ent, err
+		}
+	}
+	defer func() { err = noEOF(err) }()
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
@@ -104,6 +113,14 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 	return
 }
 
+// noEOF reports an end of input within the body as an error that isn't the end of the body
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // Close finalizes the reader
 func (r *CBORReader) Close() error {
 	if r.close != nil {
-- 
2.43.0


From 312937e764f26d3a4ce43c3b84f74478f5a9f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:26 +0000
Subject: [PATCH 27/98] fix: carriage return at the end of the reader's buffer
 was not followed by a line feed

---
 dsio/replacecr/replace_cr.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..f2e9502 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,11 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	lf  bool // a \n is due before the next byte of rdr
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,17 +47,23 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.lf {
+			c.lf = false
+			p[n] = '\n'
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
+		// any time we encounter \r, check to see if \n follows
 		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				c.lf = true
 			}
 		}
 
-- 
2.43.0


From 8a4c8bbcd34fe550e0ce356cbaf94b738c978ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 28/98] fix: NDJSON reader dropped the last entry when it is
 not followed by a newline

---
 dsio/ndjson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..1cef173 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -57,7 +58,7 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	if err != nil && (err != io.EOF || len(bytes.TrimSpace(line)) == 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From 79e7337011c4c4d82c85ebc1e9fa9e54c6d9b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 29/98] fix: ConvertFile reported success when reading or
 writing entries failed

---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..18b38e7 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,7 +220,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From 27d32466eef735f0d28515dafbb1a325393352dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 30/98] fix: CSV writer did not report a failed write

---
 dsio/csv.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..bf2421c 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -220,7 +220,9 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			if err := writer.Write(cols.Titles()); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -286,8 +288,11 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	err := w.w.Error()
 	if w.close != nil {
-		return w.close()
+		if cerr := w.close(); err == nil {
+			err = cerr
+		}
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 66ee39b2b8e17f70562cabab3c07c211a1da8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 31/98] fix: CSV writer wrote values it cannot encode as empty
 cells

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index bf2421c..5d2aee9 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -263,13 +263,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -278,6 +282,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("unrecognized encoding type: %#v", v)
 		}
 	}
 
-- 
2.43.0


From 6d2d377a284c4ed34141d1b8f771bf0f8a1c46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 32/98] fix: pretty JSON writer did not report a failed write
 of the last newline

---
 dsio/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index e12d257..23a7014 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -688,7 +688,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
-- 
2.43.0


From 30b0d7d1da6f47e2ba6e0a3621024617fd56e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 33/98] fix: identity reader blocked forever at the end of its
 entries

---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From daef8d74e6fc2bd63abae7533bce2019b7a099bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 34/98] fix: entry buffers could not be used with a compressed
 structure

---
 dsio/entry_buffer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dsio/entry_buffer.go b/dsio/entry_buffer.go
index 337adb2..9c0cd7f 100644
--- a/dsio/entry_buffer.go
+++ b/dsio/entry_buffer.go
@@ -24,10 +24,13 @@ type EntryBuffer struct {
 // reading / writing
 func NewEntryBuffer(st *dataset.Structure) (*EntryBuffer, error) {
 	buf := &bytes.Buffer{}
-	r, err := NewEntryReader(st, buf)
-	if err != nil {
-		log.Debug(err.Error())
-		return nil, err
+	var r EntryReader
+	if st.Compression == "" {
+		var err error
+		if r, err = NewEntryReader(st, buf); err != nil {
+			log.Debug(err.Error())
+			return nil, err
+		}
 	}
 	w, err := NewEntryWriter(st, buf)
 	if err != nil {
@@ -50,6 +53,15 @@ func (b *EntryBuffer) Structure() *dataset.Structure {
 
 // ReadEntry reads one "row" from the buffer
 func (b *EntryBuffer) ReadEntry() (Entry, error) {
+	if b.r == nil {
+		// a decompressor reads right away, needs to have something to read
+		r, err := NewEntryReader(b.structure, b.buf)
+		if err != nil {
+			log.Debug(err.Error())
+			return Entry{}, err
+		}
+		b.r = r
+	}
 	return b.r.ReadEntry()
 }
 
-- 
2.43.0


From 1cd84ea0312858483acf624ee1356f38d5e2162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 35/98] fix: CSV writer lost rows of a single empty cell

---
 dsio/csv.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsio/csv.go b/dsio/csv.go
index 5d2aee9..9eb5275 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -177,6 +177,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	dst         io.Writer // where w writes to
 	st          *dataset.Structure
 	close       func() error
 
@@ -214,6 +215,7 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		dst:   cw,
 		types: types,
 		close: close,
 	}
@@ -242,6 +244,15 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		if len(strs) == 1 && strs[0] == "" {
+			// csv.Writer leaves the line empty, and readers skip empty lines
+			w.w.Flush()
+			if err := w.w.Error(); err != nil {
+				return err
+			}
+			_, err := io.WriteString(w.dst, "\"\"\n")
+			return err
+		}
 		return w.w.Write(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
-- 
2.43.0


From a8a568445fe9d952127113233eb21b269cea29c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:14 +0000
Subject: [PATCH 36/98] fix: the map of CSV options held a separator that
 cannot be parsed back

---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From 0863f2585109c4ac2d026b28e6eff776596c14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 37/98] fix: CSV separators beyond ASCII were rejected

---
 data_format_config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data_format_config.go b/data_format_config.go
index ae265ef..70beea2 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -52,10 +52,11 @@ func NewCSVOptions(opts map[string]interface{}) (*CSVOptions, error) {
 
 	if opts["separator"] != nil {
 		if sep, ok := opts["separator"].(string); ok {
-			if len(sep) != 1 {
+			chars := []rune(sep)
+			if len(chars) != 1 {
 				return nil, fmt.Errorf("separator must be a single character")
 			}
-			o.Separator = rune(sep[0])
+			o.Separator = chars[0]
 		} else {
 			return nil, fmt.Errorf("invalid separator value: %v", opts["separator"])
 		}
-- 
2.43.0


From a1c1810d042fb5497e2c1061fb3281118f76ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:25 +0000
Subject: [PATCH 38/98] fix: CSV writer wrote a header of a single empty title
 as an empty line, which readers skip

---
 dsio/csv.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9eb5275..5332f2b 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -222,7 +222,7 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			if err := writer.Write(cols.Titles()); err != nil {
+			if err := wr.writeRecord(cols.Titles()); err != nil {
 				return nil, err
 			}
 		}
@@ -244,18 +244,22 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
-		if len(strs) == 1 && strs[0] == "" {
-			// csv.Writer leaves the line empty, and readers skip empty lines
-			w.w.Flush()
-			if err := w.w.Error(); err != nil {
-				return err
-			}
-			_, err := io.WriteString(w.dst, "\"\"\n")
+		return w.writeRecord(strs)
+	}
+	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
+}
+
+func (w *CSVWriter) writeRecord(strs []string) error {
+	if len(strs) == 1 && strs[0] == "" {
+		// csv.Writer leaves the line empty, and readers skip empty lines
+		w.w.Flush()
+		if err := w.w.Error(); err != nil {
 			return err
 		}
-		return w.w.Write(strs)
+		_, err := io.WriteString(w.dst, "\"\"\n")
+		return err
 	}
-	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
+	return w.w.Write(strs)
 }
 
 // encode uses specified types from structure's schema to go values to strings
-- 
2.43.0


From 473db353c44e770d25659a74a2d57d1f343f614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 39/98] fix: XLSX writer silently cut off cells of more than
 32767 bytes

---
 dsio/xlsx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..4d57b16 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -12,6 +12,10 @@ import (
 	"github.com/qri-io/dataset/vals"
 )
 
+// maxXLSXCellLength is the number of bytes that fit in one cell of a spreadsheet,
+// excelize silently cuts off everything beyond
+const maxXLSXCellLength = 32767
+
 // XLSXReader implements the RowReader interface for the XLSX data format
 type XLSXReader struct {
 	err       error
@@ -207,6 +211,11 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		for i, str := range strs {
+			if len(str) > maxXLSXCellLength {
+				return fmt.Errorf("error encoding entry: column %d is longer than the %d bytes an xlsx cell can hold", i, maxXLSXCellLength)
+			}
+		}
 		for i, str := range strs {
 			w.f.SetCellValue(w.sheetName, w.axis(i), str)
 		}
-- 
2.43.0


From f5dce7708a571ef3d36e5424644122296bb03d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:12 +0000
Subject: [PATCH 40/98] fix: JSON detection took the unused part of its buffer
 for content

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From f64d5e05b95228ad9bf0876ecbd9b335c9d29654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:15 +0000
Subject: [PATCH 41/98] fix: CSV detection split rows with a quote after white
 space unlike the reader does

---
 detect/determineFields.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..0f4c7e4 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -55,7 +56,6 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	tr := dsio.NewTrackedReader(data)
 	r := csv.NewReader(replacecr.Reader(tr))
 	r.FieldsPerRecord = -1
-	r.TrimLeadingSpace = true
 	r.LazyQuotes = true
 
 	opt := map[string]interface{}{
@@ -69,6 +69,7 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	if err != nil {
 		return nil, tr.BytesRead(), err
 	}
+	trimLeadingSpace(header)
 
 	fields := make([]*field, len(header))
 	types := make([]map[vals.Type]int, len(header))
@@ -107,6 +108,7 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 			return nil, tr.BytesRead(), fmt.Errorf("error reading csv file: %s", err.Error())
 		}
 
+		trimLeadingSpace(rec)
 		if len(rec) == len(types) {
 			for i, cell := range rec {
 				types[i][vals.ParseType([]byte(cell))]++
@@ -143,6 +145,15 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	return sch, tr.BytesRead(), nil
 }
 
+// trimLeadingSpace removes white space at the start of each cell. csv.Reader has
+// an option for that, but it also makes it recognise quotes after the space, which
+// splits rows in other places than dsio.CSVReader does
+func trimLeadingSpace(rec []string) {
+	for i, cell := range rec {
+		rec[i] = strings.TrimLeftFunc(cell, unicode.IsSpace)
+	}
+}
+
 func getKeys(m map[vals.Type]int) []vals.Type {
 	keys := make([]vals.Type, 0, len(m))
 	for k := range m {
-- 
2.43.0


From 7c6606732a26afceaacbd8b65bb3af005691cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:05 +0000
Subject: [PATCH 42/98] fix: detection read compressed bodies without
 decompressing them

---
 detect/determineFields.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 0f4c7e4..4ffe8b0 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -11,6 +11,7 @@ import (
 	"unicode"
 
 	"github.com/qri-io/dataset"
+	"github.com/qri-io/dataset/compression"
 	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/dataset/dsio/replacecr"
 	"github.com/qri-io/dataset/vals"
@@ -29,6 +30,19 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 		return
 	}
 
+	if r.Compression != "" && r.DataFormat() != dataset.XLSXDataFormat {
+		tr := dsio.NewTrackedReader(data)
+		dr, e := compression.Decompressor(r.Compression, tr)
+		if e != nil {
+			return nil, tr.BytesRead(), e
+		}
+		defer func() {
+			dr.Close()
+			n = tr.BytesRead()
+		}()
+		data = dr
+	}
+
 	switch r.DataFormat() {
 	case dataset.CBORDataFormat:
 		return CBORSchema(r, data)
-- 
2.43.0


From 4e3282d19ec354bd77afb96f32284af5eaa848db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:31 +0000
Subject: [PATCH 43/98] fix: detection handed out the shared base schemas

---
 detect/cbor.go            |  4 ++--
 detect/determineFields.go | 10 ++++++++++
 detect/json.go            |  6 +++---
 detect/xlsx.go            |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..11269a9 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return copySchema(dataset.BaseSchemaArray), n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return copySchema(dataset.BaseSchemaObject), n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/determineFields.go b/detect/determineFields.go
index 4ffe8b0..0eb54a3 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -60,6 +60,16 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 	}
 }
 
+// copySchema keeps callers that modify a detected schema from changing the base
+// schema for everyone
+func copySchema(sch map[string]interface{}) map[string]interface{} {
+	cp := make(map[string]interface{}, len(sch))
+	for key, val := range sch {
+		cp[key] = val
+	}
+	return cp
+}
+
 type field struct {
 	Title string    `json:"title,omitempty"`
 	Type  vals.Type `json:"type,omitempty"`
diff --git a/detect/json.go b/detect/json.go
index 83a4e12..b8c157a 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf[:count] {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return copySchema(dataset.BaseSchemaArray), n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return copySchema(dataset.BaseSchemaObject), n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,5 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return copySchema(dataset.BaseSchemaArray), 0, nil
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..a374f23 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return copySchema(dataset.BaseSchemaArray), 0, nil
 }
-- 
2.43.0


From 44766dd584f68e7204de2f12cded81c4964b5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:34 +0000
Subject: [PATCH 44/98] fix: failed detection left the body file partly read

---
 detect/detect.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..ed9bdbb 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -46,6 +46,16 @@ func Structure(ds *dataset.Dataset) error {
 	// use a TeeReader that writes to a buffer to preserve data
 	buf := &bytes.Buffer{}
 	tr := io.TeeReader(body, buf)
+	// glue whatever we just read back onto the reader, also when detection fails
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	defer func() {
+		size := int64(-1)
+		if sizef, ok := body.(qfs.SizeFile); ok {
+			size = sizef.Size()
+		}
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+	}()
 	var df dataset.DataFormat
 
 	df, comp, err := FormatFromFilename(body.FileName())
@@ -77,14 +87,6 @@ func Structure(ds *dataset.Dataset) error {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
 
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From d20b5d64bb831f779b3fd595d366bd9b1e866abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:11 +0000
Subject: [PATCH 45/98] fix: zstandard stream cut short in its frame header was
 read as empty

---
 compression/compression.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/compression/compression.go b/compression/compression.go
index 23279a4..f1e8a38 100644
--- a/compression/compression.go
+++ b/compression/compression.go
@@ -3,6 +3,8 @@
 package compression
 
 import (
+	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 
@@ -72,6 +74,10 @@ func Compressor(compressionFormat string, w io.Writer) (io.WriteCloser, error) {
 	return nil, fmt.Errorf("no available compressor for %q format", f)
 }
 
+// minZStandardHeader is the length of the shortest zstandard frame header. The
+// decoder takes a stream that ends within it for an empty one
+const minZStandardHeader = 6
+
 // Decompressor wraps a reader of compressed data with a decompressor
 // callers must .Close() the reader
 func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error) {
@@ -82,6 +88,17 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 
 	switch f {
 	case FmtZStandard:
+		if b, ok := r.(*bytes.Buffer); ok {
+			if n := b.Len(); n > 0 && n < minZStandardHeader {
+				return nil, io.ErrUnexpectedEOF
+			}
+		} else if r != nil {
+			br := bufio.NewReader(r)
+			if p, err := br.Peek(minZStandardHeader); err == io.EOF && len(p) > 0 {
+				return nil, io.ErrUnexpectedEOF
+			}
+			r = br
+		}
 		rdr, err := zstd.NewReader(r)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 11a1f3fa564949bf9aa87602c74e19b13931539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 46/98] fix: zstandard stream whose source failed with an
 unexpected end of file at its start was read as empty

---
 compression/compression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compression/compression.go b/compression/compression.go
index f1e8a38..cb61092 100644
--- a/compression/compression.go
+++ b/compression/compression.go
@@ -96,6 +96,8 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 			br := bufio.NewReader(r)
 			if p, err := br.Peek(minZStandardHeader); err == io.EOF && len(p) > 0 {
 				return nil, io.ErrUnexpectedEOF
+			} else if err != nil && err != io.EOF {
+				return nil, err
 			}
 			r = br
 		}
-- 
2.43.0


From f2ce147804769a713498ad117b4639e386d5b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:50 +0000
Subject: [PATCH 47/98] fix: step file writer did not report a failed write of
 a separator

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 7e5c9cab7806d9e087d8061f928d63bd79cdf18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 48/98] fix: stats minimum and maximum were wrong for numbers
 beyond the 64 bit integers

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..c3ab674 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    math.Inf(-1),
+		min:    math.Inf(1),
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From e8867d331fd9765680b1cf49b7e513f3be96946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 49/98] fix: closing a stats accumulator again changed the mean

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index c3ab674..9d5dcba 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -302,6 +302,7 @@ type numericAcc struct {
 	count           int
 	min             float64
 	max             float64
+	sum             float64
 	mean            float64
 	median          float64
 	dividers        []float64
@@ -347,7 +348,7 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 
 	acc.histogramSketch.Add(v)
 
-	acc.mean += v
+	acc.sum += v
 	acc.count++
 	if v > acc.max {
 		acc.max = v
@@ -388,7 +389,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 // Close finalizes the accumulator
 func (acc *numericAcc) Close() {
 	// finalize avg
-	acc.mean = acc.mean / float64(acc.count)
+	acc.mean = acc.sum / float64(acc.count)
 	acc.dividers, acc.histogram = acc.histogramSketch.Read()
 	acc.median = acc.histogramSketch.Median()
 }
-- 
2.43.0


From ed070894aff68ce804696d14a806404bbc31b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:38 +0000
Subject: [PATCH 50/98] fix: stats ignored integers too large to be signed

---
 dsstats/stats.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 9d5dcba..3e6b16a 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -171,7 +171,7 @@ func newAccumulator(val interface{}) accumulator {
 		return &nullAcc{}
 	case float64, float32:
 		return newNumericAcc("number")
-	case int, int32, int64:
+	case int, int32, int64, uint64:
 		return newNumericAcc("integer")
 	case string:
 		return newStringAcc()
@@ -338,6 +338,8 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 		v = float64(x)
 	case int64:
 		v = float64(x)
+	case uint64:
+		v = float64(x)
 	case float32:
 		v = float64(x)
 	case float64:
-- 
2.43.0


From 5d2bb2b4ed4106f9fa572078e0766d0757ec824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:43 +0000
Subject: [PATCH 51/98] fix: histograms gave negative frequencies for merged
 bins

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..8db623f 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -403,7 +403,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From 4a20152d7c530c2faf56a54c0fb0f3ece6c47b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 52/98] fix: decoding a histogram sketch miscounted merged bins

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 8db623f..5780509 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From 899e1c010e290d90c8a6c745ca0ee86c1141cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:53 +0000
Subject: [PATCH 53/98] fix: merging histogram sketches lost the minimum and
 maximum of the second

---
 dsstats/histosketch/histosketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 5780509..4e10b2d 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,8 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From 433acb8fdc530be38494513f609d6c1024123f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 54/98] fix: making a histogram sketch from a sample reordered
 the sample

---
 dsstats/histosketch/histosketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 4e10b2d..d6a1296 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -297,6 +297,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 // into m centroids and d(x_1, ..., x_n) is the sum of squared distances of x_1
 // through x_n to their mean.
 func NewFromSample(sample []float64, n int) *Sketch {
+	sample = append([]float64{}, sample...)
 	sort.Float64s(sample)
 	if n < 1 {
 		panic("Number of centroids must be at least 1")
-- 
2.43.0


From 6387cd96c563451c656b8f74c7179634a6947a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 55/98] fix: adding to a decoded empty histogram sketch
 panicked

---
 dsstats/histosketch/histosketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index d6a1296..d44f87a 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -264,7 +264,11 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	h.cs = make([]centroid, 0, num+1)
+	if num < 0 {
+		return fmt.Errorf("invalid number of centroids '%v'", num)
+	}
+	// a sketch has room for at least one centroid
+	h.cs = make([]centroid, 0, int(math.Max(float64(num), 1))+1)
 	// Read all centroids.
 	h.count = 0.0
 	for i := 0; i < num; i++ {
-- 
2.43.0


From 589dc740b53aedaee8a9958e4057fc54f7b5e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:44 +0000
Subject: [PATCH 56/98] fix: stats left out a median equal to the largest
 integer

---
 dsstats/stats.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 3e6b16a..091c9b2 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -291,10 +291,9 @@ func (acc *arrayAcc) Close() {
 }
 
 const (
-	maxUint  = ^uint(0)
-	maxFloat = float64(maxUint >> 1)
-	maxInt   = int(maxUint >> 1)
-	minInt   = -maxInt - 1
+	maxUint = ^uint(0)
+	maxInt  = int(maxUint >> 1)
+	minInt  = -maxInt - 1
 )
 
 type numericAcc struct {
@@ -317,7 +316,7 @@ func newNumericAcc(typ string) *numericAcc {
 		typ:    typ,
 		max:    math.Inf(-1),
 		min:    math.Inf(1),
-		median: maxFloat,
+		median: math.NaN(),
 		// use histogram to accumulate values
 		histogram: []float64{},
 		// sketch implementation for approximate histogram calculation
@@ -374,7 +373,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 		"max":   acc.max,
 	}
 
-	if acc.median != maxFloat {
+	if !math.IsNaN(acc.median) {
 		m["median"] = acc.median
 	}
 
-- 
2.43.0


From e072e048302fb998d5f657c9dfdaa0a277f8af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 57/98] fix: a column with an empty list of types made readers,
 writers and generators panic

---
 tabular/tabular.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..bea3397 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -186,7 +186,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					if setType = len(types) > 0; setType {
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
-- 
2.43.0


From d38ce2b101983f1edd83bf9dc9bb0123555ea4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:00 +0000
Subject: [PATCH 58/98] fix: a column without types could not be encoded to
 JSON

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index bea3397..f27a1fd 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -91,7 +91,7 @@ func (ct ColType) HasType(t string) bool {
 func (ct ColType) MarshalJSON() ([]byte, error) {
 	switch len(ct) {
 	case 0:
-		return nil, nil
+		return []byte("[]"), nil
 	case 1:
 		return json.Marshal(ct[0])
 	default:
-- 
2.43.0


From 497c835c69ea02b7603db03dfcfb0e01aa086877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:04 +0000
Subject: [PATCH 59/98] fix: numbers beyond 32 bit floats were taken for
 strings

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From d9b7844f3026df1b55df10eba9ac41fe79fd3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:08 +0000
Subject: [PATCH 60/98] fix: generated booleans were always true

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From 129eca5811d9356e66df42cf3e48d4e6ebc59f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:04 +0000
Subject: [PATCH 61/98] fix: decoding values failed on, or misread, white space
 around the JSON text

---
 vals/coding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..036315b 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,6 +1,7 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 )
@@ -70,6 +71,7 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	data = bytes.TrimSpace(data)
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From 3388cfb27d663f2be79cdc0adf8e7fc18f7d0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:08 +0000
Subject: [PATCH 62/98] fix: decoding values failed on whole numbers of more
 than 64 bits

---
 vals/coding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 036315b..33bba9c 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -83,6 +83,11 @@ func UnmarshalJSON(data []byte) (v Value, err error) {
 	case TypeInteger:
 		i := Integer(0)
 		v = &i
+		if _, err := ParseInteger(data); err != nil {
+			// too large for an integer
+			n := Number(0)
+			v = &n
+		}
 	case TypeNumber:
 		n := Number(0)
 		v = &n
-- 
2.43.0


From 7d9bbb876ae805865d2aa0ce4da364d05dfe7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:13 +0000
Subject: [PATCH 63/98] fix: converting large unsigned integers to values made
 them negative

---
 vals/coding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 33bba9c..98e3ff1 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 )
 
 // ConvertDecoded converts an interface that has been decoded into standard go types to a Value
@@ -20,6 +21,10 @@ func ConvertDecoded(d interface{}) (Value, error) {
 	case uint32:
 		return Integer(v), nil
 	case uint64:
+		if v > math.MaxInt64 {
+			// too large for an integer
+			return Number(v), nil
+		}
 		return Integer(v), nil
 	case float64:
 		return Number(v), nil
-- 
2.43.0


From 6995f9a9fd1c8d06679aeb52bb2a49258286b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 64/98] fix: equal arrays and objects of values compared as
 different when nested by reference

---
 vals/compare.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/vals/compare.go b/vals/compare.go
index e5996a2..674134c 100644
--- a/vals/compare.go
+++ b/vals/compare.go
@@ -3,17 +3,41 @@ package vals
 import (
 	"bytes"
 	"fmt"
-	"reflect"
 )
 
 // Equal checks if two Values are the same
 func Equal(a, b Value) bool {
+	if a == nil || b == nil {
+		return a == b
+	}
 	if a.Type() != b.Type() {
 		return false
 	}
 	switch a.Type() {
-	case TypeObject, TypeArray:
-		return reflect.DeepEqual(a, b)
+	case TypeArray:
+		if a.Len() != b.Len() {
+			return false
+		}
+		for i := 0; i < a.Len(); i++ {
+			if !Equal(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
+	case TypeObject:
+		if len(a.Keys()) != len(b.Keys()) {
+			return false
+		}
+		has := map[string]bool{}
+		for _, key := range b.Keys() {
+			has[key] = true
+		}
+		for _, key := range a.Keys() {
+			if !has[key] || !Equal(a.MapIndex(key), b.MapIndex(key)) {
+				return false
+			}
+		}
+		return true
 	case TypeNumber:
 		return a.Number() == b.Number()
 	case TypeInteger:
-- 
2.43.0


From f60fe1ac7e8abb7cd3f532e332ea740107340838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 65/98] fix: null could not be parsed by its type

---
 vals/type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vals/type.go b/vals/type.go
index efeadef..a13330e 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -150,6 +150,10 @@ func (dt Type) Parse(value []byte) (parsed interface{}, err error) {
 		parsed, err = ParseJSON(value)
 	case TypeObject:
 		parsed, err = ParseJSON(value)
+	case TypeNull:
+		if string(value) != "null" {
+			err = errors.New("invalid null data")
+		}
 	default:
 		return nil, errors.New("cannot parse unknown data type")
 	}
-- 
2.43.0


From 70f42de637d7c4494979a95b1867c5a1cfbf4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:23 +0000
Subject: [PATCH 66/98] fix: long decimals and digits followed by text were
 taken for integers

---
 vals/type.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index a13330e..584c52f 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -279,10 +279,12 @@ func IsInteger(value []byte) bool {
 	if value[0] == '[' || value[0] == '{' || !bytes.ContainsAny(value[0:1], "-+0123456789") {
 		return false
 	}
-	if _, err := ParseInteger(value); err == nil || err.(*strconv.NumError).Err == strconv.ErrRange {
-		return true
+	_, err := ParseInteger(value)
+	if err != nil && err.(*strconv.NumError).Err == strconv.ErrRange {
+		// parsing stops at the digit that overflows, the rest is still unchecked
+		return len(bytes.Trim(value[1:], "0123456789")) == 0
 	}
-	return false
+	return err == nil
 }
 
 // IsBoolean checks if a slice of bytes is a boolean value
-- 
2.43.0


From bc3a47fc6e15a7eee72577cec786d348fd07fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 67/98] fix: an empty body was never validated against its
 schema

---
 validate/data.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..9b5ac45 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -13,10 +13,6 @@ import (
 const batchSize = 5000
 
 func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
-	if len(buf.Bytes()) == 0 {
-		return nil
-	}
-
 	if e := buf.Close(); e != nil {
 		return fmt.Errorf("error closing buffer: %s", e.Error())
 	}
@@ -58,7 +54,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 			return fmt.Errorf("error reading row %d: %s", i, err.Error())
 		}
 
-		if i%batchSize == 0 {
+		if i > 0 && i%batchSize == 0 {
 			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
 			if flushErr != nil {
 				return flushErr
-- 
2.43.0


From ec7264244c7d6acd59de41ac5feb6d791da68c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 68/98] fix: validation errors past the first 5000 entries
 named the wrong entry

---
 validate/data.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index 9b5ac45..5455259 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,9 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+// flushBatch validates the entries in buf. start is the number of entries in
+// previous batches
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, start int, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
 	if e := buf.Close(); e != nil {
 		return fmt.Errorf("error closing buffer: %s", e.Error())
 	}
@@ -22,11 +26,28 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	_, isArray := doc.([]interface{})
+	for _, keyErr := range *validationState.Errs {
+		if isArray {
+			keyErr.PropertyPath = offsetIndex(keyErr.PropertyPath, start)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetIndex adds start to the array index a property path begins with
+func offsetIndex(path string, start int) string {
+	parts := strings.SplitN(path, "/", 3)
+	if len(parts) > 1 {
+		if index, err := strconv.Atoi(parts[1]); err == nil {
+			parts[1] = strconv.Itoa(start + index)
+		}
+	}
+	return strings.Join(parts, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -40,6 +61,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 	}
 
 	valErrors := []jsonschema.KeyError{}
+	start := 0
 
 	buf, err := dsio.NewEntryBuffer(&dataset.Structure{
 		Format: "json",
@@ -55,10 +77,11 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		}
 
 		if i > 0 && i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, start, jsch, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			start = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -81,7 +104,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, start, jsch, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From bd335f76478b4d9bd29a64af6021512511e6f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 69/98] fix: dsdiff: diffs of components known to be equal can
 be summarised and encoded

---
 dsdiff/dsdiff.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..ff80743 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -17,9 +17,23 @@ type SubDiff struct {
 	a, b []byte
 }
 
+// Deltas gives the list of changes, which is empty if there is no underlying
+// diff because both sides are known to be equal
+func (d *SubDiff) Deltas() []jdiff.Delta {
+	if d == nil || d.Diff == nil {
+		return []jdiff.Delta{}
+	}
+	return d.Diff.Deltas()
+}
+
+// Modified reports if there are any changes
+func (d *SubDiff) Modified() bool {
+	return d != nil && d.Diff != nil && d.Diff.Modified()
+}
+
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
-	return json.Marshal(d.Diff.Deltas())
+	return json.Marshal(d.Deltas())
 }
 
 // SummarizeToString outputs a substring in a one of a few formats
-- 
2.43.0


From edb455a15196ec204e68c3ce20daa52731cbf02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 70/98] fix: dstest: drop the transient values of both sides of
 a comparison

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From 9cbb75325c7639fb3fd34a7c8c42b1b9ae14414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:22 +0000
Subject: [PATCH 71/98] fix: dsviz: rendering a viz without an open script file
 is an error, not a panic

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..ef39077 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("no viz script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-- 
2.43.0


From 9a944f56c24dbc14b25f71a10f5181ac75cee46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:25 +0000
Subject: [PATCH 72/98] fix: dsviz: rendering part of a body, or failing to
 read one, lost the rest of it

---
 dsviz/render.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index ef39077..3024eed 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -46,13 +46,14 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
+
+	// restore consumed script file
+	ds.Viz.SetScriptFile(restoreFile(script, vizScriptBuf))
+
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
 
-	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))
-
 	vizDs, err := vizDataset(ds)
 	if err != nil {
 		return nil, err
@@ -101,6 +102,16 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	return qfs.NewMemfileReader(htmlTmplName, tmplBuf), nil
 }
 
+// restoreFile replaces a file that may only be partly consumed with one that
+// reads from the start: the consumed bytes, followed by any that remain
+func restoreFile(f qfs.File, consumed *bytes.Buffer) qfs.File {
+	size := int64(-1)
+	if sf, ok := f.(qfs.SizeFile); ok {
+		size = sf.Size()
+	}
+	return qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(consumed, f), size)
+}
+
 // isType
 func isType(in interface{}, eq string) (bool, error) {
 	switch eq {
@@ -164,8 +175,16 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, fmt.Errorf("can't get_body. dataset has no open body file")
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file
+		ds.SetBodyFile(restoreFile(bodyFile, bodyBytesBuf))
+	}()
+
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -179,17 +198,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		}
 	}
 
-	bodyEntries, err := readEntries(rr)
-	if err != nil {
-		return nil, err
-	}
-
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
-	return bodyEntries, nil
+	return readEntries(rr)
 }
 
 // readEntries reads entries and returns them as a native go array or map
-- 
2.43.0


From b1361066394561eed5fb43fb60a16fbec75563ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:48 +0000
Subject: [PATCH 73/98] fix: dsviz: large unsigned CBOR body values are numbers

---
 dsviz/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 3024eed..9e5c9b6 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -132,7 +132,7 @@ func isType(in interface{}, eq string) (bool, error) {
 		return ok, nil
 	case "number":
 		switch in.(type) {
-		case float64, int, int64:
+		case float64, int, int64, uint64:
 			return true, nil
 		}
 		return false, nil
-- 
2.43.0


From 29ede80b613d33351e1227fcb0dd9365ed159084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:51 +0000
Subject: [PATCH 74/98] fix: preview: restore files after errors, require a
 structure, leave a readme of exactly the limit unmarked

---
 preview/preview.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..77582fd 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -63,20 +63,24 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		f := ds.Readme.ScriptFile()
 		tr := io.TeeReader(f, buf)
 
-		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		// read one byte past the limit to know if there's anything to abridge
+		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes+1))
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
 		}
-		if len(content) >= MaxReadmePreviewBytes {
-			content = append(content, []byte("...")...)
+		if len(content) > MaxReadmePreviewBytes {
+			content = append(content[:MaxReadmePreviewBytes], []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without a structure")
+			return nil, fmt.Errorf("a structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
@@ -92,13 +96,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From 8a873a3b82de0e51ae5e93e8dba0ba02553965b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 75/98] fix: dsviz: close the body reader, a decompressor kept
 consuming the body after rendering

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 9e5c9b6..e95cd6c 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -189,6 +189,9 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
 	}
+	// closing stops a decompressor from reading ahead, before the file is restored
+	entryReader := rr
+	defer entryReader.Close()
 
 	if offset >= 0 && limit >= 0 {
 		rr = &dsio.PagedReader{
-- 
2.43.0


From fe291d66f3f844acb74338f505be91eecfe61cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 76/98] fix: ConvertFile: close the body reader, a decompressor
 kept consuming the file after returning

---
 dsio/dsio.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 18b38e7..2c32196 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -212,6 +212,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 		err = fmt.Errorf("creating entry reader: %w", err)
 		return
 	}
+	// closing stops a decompressor from reading ahead after the limit
+	entryReader := rr
+	defer entryReader.Close()
 
 	if !all {
 		rr = &PagedReader{
-- 
2.43.0


From 1ad149e9b42be77ba32f829309c3a8b132e644c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:41 +0000
Subject: [PATCH 77/98] fix: CSV detection left columns without a title when no
 name can be made of the header

---
 detect/determineFields.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 0eb54a3..1200a84 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -108,7 +108,10 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 
 	if possibleCsvHeaderRow(header) {
 		for i, f := range fields {
-			f.Title = varName.CreateVarNameFromString(header[i])
+			// names that have nothing left of the header keep their numbered title
+			if title := varName.CreateVarNameFromString(header[i]); title != "" {
+				f.Title = title
+			}
 			f.Type = vals.TypeUnknown
 		}
 		opt["headerRow"] = true
-- 
2.43.0


From ca8643f65b7f81d88fd25e0c07fc2578194c9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:43 +0000
Subject: [PATCH 78/98] fix: CSV detection named columns with comparison
 symbols differently each time

---
 detect/determineFields.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 1200a84..5d5bfc2 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -70,6 +70,13 @@ func copySchema(sch map[string]interface{}) map[string]interface{} {
 	return cp
 }
 
+// comparisons spells out comparison symbols, longest first. varName does so too,
+// but in random order, which gives "<=" as either "lte" or "lteq"
+var comparisons = strings.NewReplacer(
+	"<>", "ne", "<=", "lte", ">=", "gte", "~=", "ne", "!=", "ne", "^=", "ne",
+	"=", "eq", "<", "lt", ">", "gt",
+)
+
 type field struct {
 	Title string    `json:"title,omitempty"`
 	Type  vals.Type `json:"type,omitempty"`
@@ -109,7 +116,7 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	if possibleCsvHeaderRow(header) {
 		for i, f := range fields {
 			// names that have nothing left of the header keep their numbered title
-			if title := varName.CreateVarNameFromString(header[i]); title != "" {
+			if title := varName.CreateVarNameFromString(comparisons.Replace(header[i])); title != "" {
 				f.Title = title
 			}
 			f.Type = vals.TypeUnknown
-- 
2.43.0


From 30a81ffa3c52db1ef4dad16771d9a279697b51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:46 +0000
Subject: [PATCH 79/98] fix: detection dropped the directory of the body file

---
 detect/detect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/detect.go b/detect/detect.go
index ed9bdbb..7066c6c 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -54,7 +54,7 @@ func Structure(ds *dataset.Dataset) error {
 		if sizef, ok := body.(qfs.SizeFile); ok {
 			size = sizef.Size()
 		}
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FullPath(), io.MultiReader(buf, body), size))
 	}()
 	var df dataset.DataFormat
 
-- 
2.43.0


From 1591eeb610c3c72892607da8fa069c1dbb8abd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:48 +0000
Subject: [PATCH 80/98] fix: inferring a schema from values that are not
 tabular gave an empty schema

---
 detect/detect.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/detect/detect.go b/detect/detect.go
index 7066c6c..2d9ef21 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -210,6 +210,8 @@ func TabularSchemaFromTabularData(source interface{}) (map[string]interface{}, e
 		schema["items"] = items
 	case map[string]interface{}:
 		return nil, fmt.Errorf("%w: cannot interpret object-based tabular schemas", ErrInvalidTabularData)
+	default:
+		return nil, fmt.Errorf("%w: expected an array of rows", ErrInvalidTabularData)
 	}
 
 	return schema, nil
-- 
2.43.0


From b76a29b654bce08d0d3ae2ef572f5fbd3589d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:10 +0000
Subject: [PATCH 81/98] fix: a null column keeps text that is not null instead
 of dropping it

---
 dsio/csv.go  | 4 +++-
 dsio/xlsx.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 5332f2b..4c13c8c 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -155,7 +155,9 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index 4d57b16..fdcee11 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -134,7 +134,9 @@ func (r *XLSXReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
-- 
2.43.0


From 3cbd55173b9d5bd6ffefdc56a6cfb1585d73822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:08 +0000
Subject: [PATCH 82/98] fix: a malformed xlsx body ended the process or
 panicked instead of giving an error

---
 dsio/xlsx.go | 118 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 113 insertions(+), 5 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index fdcee11..ed8985f 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -1,10 +1,15 @@
 package dsio
 
 import (
+	"archive/zip"
+	"bytes"
 	"encoding/json"
+	"encoding/xml"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
+	"strings"
 
 	"github.com/360EntSecGroup-Skylar/excelize"
 	"github.com/qri-io/dataset"
@@ -48,7 +53,7 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 		types: types,
 	}
 
-	rdr.file, rdr.err = excelize.OpenReader(r)
+	rdr.file, rdr.err = openXLSX(r)
 	if rdr.err != nil {
 		return rdr, rdr.err
 	}
@@ -63,12 +68,108 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 	}
 
 	if rdr.err == nil {
-		rdr.r, rdr.err = rdr.file.Rows(rdr.sheetName)
+		rdr.err = catchXLSX(func() (err error) {
+			rdr.r, err = rdr.file.Rows(rdr.sheetName)
+			return err
+		})
 	}
 
 	return rdr, rdr.err
 }
 
+// limits of a worksheet
+const (
+	maxXLSXRows    = 1048576
+	maxXLSXColumns = 16384
+)
+
+// openXLSX loads a spreadsheet. excelize ends the process when it can't open an
+// archived file, takes damaged contents as they are, and makes room for all rows
+// and columns up to the ones that are named, so these are checked beforehand
+func openXLSX(r io.Reader) (f *excelize.File, err error) {
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
+	if err != nil {
+		return nil, err
+	}
+	for _, zf := range zr.File {
+		if err := checkXLSXFile(zf); err != nil {
+			return nil, fmt.Errorf("invalid xlsx file: %s: %w", zf.Name, err)
+		}
+	}
+
+	err = catchXLSX(func() (err error) {
+		f, err = excelize.OpenReader(bytes.NewReader(data))
+		return err
+	})
+	return f, err
+}
+
+// checkXLSXFile confirms one of the archived files that make up a spreadsheet
+// can be read, and a worksheet keeps to the limits
+func checkXLSXFile(zf *zip.File) error {
+	rc, err := zf.Open()
+	if err != nil {
+		return err
+	}
+	defer rc.Close()
+
+	if strings.HasPrefix(zf.Name, "xl/worksheets/") && strings.HasSuffix(zf.Name, ".xml") {
+		dec := xml.NewDecoder(rc)
+		for {
+			token, err := dec.Token()
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				return err
+			}
+			if el, ok := token.(xml.StartElement); ok {
+				if err := checkXLSXElement(el); err != nil {
+					return err
+				}
+			}
+		}
+	}
+
+	_, err = io.Copy(ioutil.Discard, rc)
+	return err
+}
+
+func checkXLSXElement(el xml.StartElement) error {
+	for _, attr := range el.Attr {
+		if attr.Name.Local != "r" {
+			continue
+		}
+		switch el.Name.Local {
+		case "row":
+			if n, err := strconv.Atoi(attr.Value); err != nil || n > maxXLSXRows {
+				return fmt.Errorf("invalid row number: %q", attr.Value)
+			}
+		case "c":
+			letters := strings.TrimRight(attr.Value, "0123456789")
+			if len(letters) > 3 || excelize.TitleToNumber(letters) >= maxXLSXColumns {
+				return fmt.Errorf("invalid cell reference: %q", attr.Value)
+			}
+		}
+	}
+	return nil
+}
+
+// catchXLSX turns a panic of excelize into an error. excelize takes files to be
+// well-formed
+func catchXLSX(f func() error) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("invalid xlsx file: %v", e)
+		}
+	}()
+	return f()
+}
+
 // Structure gives this reader's structure
 func (r *XLSXReader) Structure() *dataset.Structure {
 	return r.st
@@ -79,10 +180,17 @@ func (r *XLSXReader) ReadEntry() (Entry, error) {
 	if r.err != nil {
 		return Entry{}, r.err
 	}
-	if !r.r.Next() {
-		return Entry{}, io.EOF
+	var cols []string
+	r.err = catchXLSX(func() error {
+		if !r.r.Next() {
+			return io.EOF
+		}
+		cols = r.r.Columns()
+		return nil
+	})
+	if r.err != nil {
+		return Entry{}, r.err
 	}
-	cols := r.r.Columns()
 	vals, err := r.decode(cols)
 	if err != nil {
 		return Entry{}, err
-- 
2.43.0


From 85be3b4eba5b6f85db77f87034e4a04c66e0b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 83/98] fix: calculating stats never closed the reader it
 opened

---
 dsstats/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 091c9b2..c0d6655 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -44,6 +44,7 @@ func Calculate(ds *dataset.Dataset) (st *dataset.Stats, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer r.Close()
 
 	return CalculateFromEntryReader(r)
 }
-- 
2.43.0


From 62ea672bd12b3f7b8890b199831db1dcb2ed2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 84/98] fix: a CBOR reader refused for its schema left its
 decompressor open

---
 dsio/cbor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index e871031..e310136 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -38,14 +38,14 @@ func NewCBORReader(st *dataset.Structure, r io.Reader) (*CBORReader, error) {
 		return nil, err
 	}
 
-	r, close, err := maybeWrapDecompressor(st, r)
+	tlt, err := GetTopLevelType(st)
 	if err != nil {
+		log.Debug(err.Error())
 		return nil, err
 	}
 
-	tlt, err := GetTopLevelType(st)
+	r, close, err := maybeWrapDecompressor(st, r)
 	if err != nil {
-		log.Debug(err.Error())
 		return nil, err
 	}
 
-- 
2.43.0


From d179e779050883ac213722fd7d1d472345a3dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:17 +0000
Subject: [PATCH 85/98] fix: writing a step file with a null step panicked

---
 stepfile/stepfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index 9a1711f..113e6f3 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -51,6 +51,9 @@ func Read(r io.Reader) (steps []*dataset.TransformStep, err error) {
 // Write prints transform steps as a stepfile to a writer
 func Write(steps []*dataset.TransformStep, w io.Writer) error {
 	for i, step := range steps {
+		if step == nil {
+			return fmt.Errorf("step %d is empty", i)
+		}
 		if err := writeStepScript(step, w); err != nil {
 			return err
 		}
-- 
2.43.0


From d6823622c4c9631a7b83534262ad58fe543a3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 86/98] fix: validating against a malformed schema panicked

---
 validate/data.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/validate/data.go b/validate/data.go
index 5455259..7b1e8e8 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -25,7 +25,10 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, start int, jsch *jso
 	if err := json.Unmarshal(buf.Bytes(), &doc); err != nil {
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
-	validationState := jsch.Validate(ctx, doc)
+	validationState, err := applySchema(ctx, jsch, doc)
+	if err != nil {
+		return err
+	}
 	_, isArray := doc.([]interface{})
 	for _, keyErr := range *validationState.Errs {
 		if isArray {
@@ -37,6 +40,17 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, start int, jsch *jso
 	return nil
 }
 
+// applySchema validates a document. jsonschema doesn't check that keywords hold
+// what they should when it parses a schema, and panics when it gets to use them
+func applySchema(ctx context.Context, jsch *jsonschema.Schema, doc interface{}) (state *jsonschema.ValidationState, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("invalid schema: %v", e)
+		}
+	}()
+	return jsch.Validate(ctx, doc), nil
+}
+
 // offsetIndex adds start to the array index a property path begins with
 func offsetIndex(path string, start int) string {
 	parts := strings.SplitN(path, "/", 3)
-- 
2.43.0


From 44a4cc47a7d6d998da5751481bcea4f2eea3fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 87/98] fix: setting metadata to a value of the wrong type
 erased what was there

---
 meta.go | 60 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/meta.go b/meta.go
index a38fac7..a2be964 100644
--- a/meta.go
+++ b/meta.go
@@ -148,6 +148,24 @@ func strSliceVal(val interface{}) (s []string, err error) {
 	return
 }
 
+// setStr sets a string field, leaving it as is if the type is invalid
+func setStr(field *string, val interface{}) error {
+	s, err := strVal(val)
+	if err == nil {
+		*field = s
+	}
+	return err
+}
+
+// setStrSlice sets a []string field, leaving it as is if the type is invalid
+func setStrSlice(field *[]string, val interface{}) error {
+	s, err := strSliceVal(val)
+	if err == nil {
+		*field = s
+	}
+	return err
+}
+
 // Set writes value to key in metadata, erroring if the type is invalid
 // input values are expected to be json.Unmarshal types
 func (md *Meta) Set(key string, val interface{}) (err error) {
@@ -155,66 +173,70 @@ func (md *Meta) Set(key string, val interface{}) (err error) {
 	switch strings.TrimSpace(strings.ToLower(key)) {
 	// string meta fields
 	case "qri":
-		md.Qri, err = strVal(val)
+		err = setStr(&md.Qri, val)
 	case "accessurl":
-		md.AccessURL, err = strVal(val)
+		err = setStr(&md.AccessURL, val)
 	case "accrualperiodicity":
-		md.AccrualPeriodicity, err = strVal(val)
+		err = setStr(&md.AccrualPeriodicity, val)
 	case "description":
-		md.Description, err = strVal(val)
+		err = setStr(&md.Description, val)
 	case "downloadurl":
-		md.DownloadURL, err = strVal(val)
+		err = setStr(&md.DownloadURL, val)
 	case "homeurl":
-		md.HomeURL, err = strVal(val)
+		err = setStr(&md.HomeURL, val)
 	case "identifier":
-		md.Identifier, err = strVal(val)
+		err = setStr(&md.Identifier, val)
 	case "readmeurl":
-		md.ReadmeURL, err = strVal(val)
+		err = setStr(&md.ReadmeURL, val)
 	case "title":
-		md.Title, err = strVal(val)
+		err = setStr(&md.Title, val)
 	case "version":
-		md.Version, err = strVal(val)
+		err = setStr(&md.Version, val)
 
 	// []string meta fields
 	case "keywords":
-		md.Keywords, err = strSliceVal(val)
+		err = setStrSlice(&md.Keywords, val)
 	case "language":
-		md.Language, err = strSliceVal(val)
+		err = setStrSlice(&md.Language, val)
 	case "theme":
-		md.Theme, err = strSliceVal(val)
+		err = setStrSlice(&md.Theme, val)
 
 	// "exotic" meta fields
 	case "citations":
 		if sl, ok := val.([]interface{}); ok {
-			md.Citations = make([]*Citation, len(sl))
+			set := make([]*Citation, len(sl))
 			for i, ci := range sl {
 				c := &Citation{}
 				if err = c.Decode(ci); err != nil {
 					err = fmt.Errorf("parsing citations index %d: %s", i, err.Error())
 					return
 				}
-				md.Citations[i] = c
+				set[i] = c
 			}
+			md.Citations = set
 		} else {
 			err = fmt.Errorf("citation: expected interface slice")
 		}
 	case "contributors":
 		if sl, ok := val.([]interface{}); ok {
-			md.Contributors = make([]*User, len(sl))
+			set := make([]*User, len(sl))
 			for i, ci := range sl {
 				c := &User{}
 				if err = c.Decode(ci); err != nil {
 					err = fmt.Errorf("parsing contributors index %d: %s", i, err.Error())
 					return
 				}
-				md.Contributors[i] = c
+				set[i] = c
 			}
+			md.Contributors = set
 		} else {
 			err = fmt.Errorf("contributors: expected interface slice")
 		}
 	case "license":
-		md.License = &License{}
-		err = md.License.Decode(val)
+		l := &License{}
+		if err = l.Decode(val); err == nil {
+			md.License = l
+		}
 
 	// everything else
 	default:
-- 
2.43.0


From c4adc48282251d3eef02b2c69b3da4d8a3ab0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 88/98] fix: dstest left the files of test cases open

---
 dstest/dstest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 768e5cf..6ca7f68 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -276,6 +276,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 	for _, df := range dataset.SupportedDataFormats() {
 		path := fmt.Sprintf("%s/body.%s", dir, df)
 		if f, err := os.Open(path); err == nil {
+			defer f.Close()
 			data, err := ioutil.ReadAll(f)
 			return data, fmt.Sprintf("body.%s", df), err
 		}
@@ -287,6 +288,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 func ReadInputTransformScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "transform.star")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "transform.star", err
 	}
@@ -297,6 +299,7 @@ func ReadInputTransformScript(dir string) ([]byte, string, error) {
 func ReadInputVizScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "template.html")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "template.html", err
 	}
@@ -307,6 +310,7 @@ func ReadInputVizScript(dir string) ([]byte, string, error) {
 func ReadInputReadmeScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "readme.md")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "readme.md", err
 	}
-- 
2.43.0


From 63f826270bf0fb6bbd08c209d4cbf30353748d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 89/98] fix: an entry a JSON writer refuses leaves the rest of
 the document valid

---
 dsio/json.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 23a7014..c1e447e 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -584,6 +584,12 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -598,12 +604,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -635,7 +635,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -663,6 +662,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 3219ce03b82b46efaee8d052dcd6c68206d13ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 90/98] fix: abstract column names past the 676th repeated
 earlier ones

---
 structure.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/structure.go b/structure.go
index 257695a..7f25c30 100644
--- a/structure.go
+++ b/structure.go
@@ -344,21 +344,8 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 // to letters, using repeating characters to handle values
 // greater than 26
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for ; d >= 0; d = d/26 - 1 {
+		s = string(b26chars[d%26]) + s
 	}
 	return s
 }
-- 
2.43.0


From 0a70769797d8bfd3138d2743ec83b5096f7fb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:51 +0000
Subject: [PATCH 91/98] fix: loading test cases from several goroutines is a
 data race

---
 dstest/dstest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 6ca7f68..4d515b8 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 
 	logger "github.com/ipfs/go-log"
 	"github.com/jinzhu/copier"
@@ -77,7 +78,10 @@ func DatasetChecksum(ds *dataset.Dataset) string {
 	return hex.EncodeToString(sum[:])
 }
 
-var testCaseCache = make(map[string]TestCase)
+var (
+	testCaseCacheLock sync.Mutex
+	testCaseCache     = make(map[string]TestCase)
+)
 
 // BodyFile creates a new in-memory file from data & filename properties
 func (t TestCase) BodyFile() qfs.File {
@@ -255,7 +259,9 @@ func NewTestCaseFromDir(dir string) (tc TestCase, err error) {
 
 	preserve := TestCase{}
 	copier.Copy(&preserve, &tc)
+	testCaseCacheLock.Lock()
 	testCaseCache[dir] = preserve
+	testCaseCacheLock.Unlock()
 	return
 }
 
-- 
2.43.0


From 0304239fd46c3f898c8614fc205c62357218a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 92/98] fix: encoding meta replaced a kind that was set with
 the current one

---
 meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meta.go b/meta.go
index a2be964..fa1c14f 100644
--- a/meta.go
+++ b/meta.go
@@ -346,6 +346,9 @@ func (md *Meta) MarshalJSONObject() ([]byte, error) {
 	data := md.Meta()
 
 	data["qri"] = KindMeta.String()
+	if md.Qri != "" {
+		data["qri"] = md.Qri
+	}
 
 	if md.AccessURL != "" {
 		data["accessURL"] = md.AccessURL
-- 
2.43.0


From 9372ad93cec9f8e108ac250a3d9af842b6a0b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 93/98] fix: texts such as 2020_01, 0x1p4 and -inf were taken
 for numbers

---
 vals/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 584c52f..5db5946 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,8 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
+			// ParseFloat also takes digit separators, hexadecimal numbers & infinities
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil || bytes.ContainsAny(value, "_xXiI") {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From 2c8669c18d382ca88e69fad1d51865a1d695513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:27 +0000
Subject: [PATCH 94/98] fix: integers beyond 2^53 in NDJSON bodies and in array
 and object cells of CSV and XLSX bodies were rounded

---
 dsio/csv.go    |  4 ++--
 dsio/ndjson.go | 64 +++++++++++++++++++++++++++++++++++++++++++++++++-
 dsio/xlsx.go   |  4 ++--
 3 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 4c13c8c..1710f61 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -147,12 +147,12 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 		case "object":
 			v := map[string]interface{}{}
 			if err := json.Unmarshal([]byte(str), &v); err == nil {
-				vs[i] = v
+				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "array":
 			v := []interface{}{}
 			if err := json.Unmarshal([]byte(str), &v); err == nil {
-				vs[i] = v
+				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "null":
 			if str == "" || str == "null" {
diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 1cef173..a353bc5 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -69,7 +69,7 @@ func (r *NDJSONReader) ReadEntry() (Entry, error) {
 
 	ent := Entry{
 		Index: r.entriesRead,
-		Value: v,
+		Value: keepIntegers(v, line),
 	}
 
 	r.entriesRead++
@@ -136,3 +136,65 @@ func (w *NDJSONWriter) Close() error {
 	}
 	return nil
 }
+
+// maxExactFloat is the end of the integers that a float64 holds one by one
+const maxExactFloat = 1 << 53
+
+// keepIntegers gives a value decoded from JSON data with the integers too large
+// for a float64, which is what encoding/json decodes numbers to, as int64
+func keepIntegers(v interface{}, data []byte) interface{} {
+	if !hasLargeNumber(v) {
+		return v
+	}
+	var exact interface{}
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err := dec.Decode(&exact); err != nil {
+		return v
+	}
+	return replaceLargeIntegers(v, exact)
+}
+
+func hasLargeNumber(v interface{}) bool {
+	switch x := v.(type) {
+	case float64:
+		return x >= maxExactFloat || x <= -maxExactFloat
+	case []interface{}:
+		for _, e := range x {
+			if hasLargeNumber(e) {
+				return true
+			}
+		}
+	case map[string]interface{}:
+		for _, e := range x {
+			if hasLargeNumber(e) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func replaceLargeIntegers(v, exact interface{}) interface{} {
+	switch x := v.(type) {
+	case float64:
+		if n, ok := exact.(json.Number); ok && hasLargeNumber(x) {
+			if i, err := n.Int64(); err == nil {
+				return i
+			}
+		}
+	case []interface{}:
+		if arr, ok := exact.([]interface{}); ok && len(arr) == len(x) {
+			for i := range x {
+				x[i] = replaceLargeIntegers(x[i], arr[i])
+			}
+		}
+	case map[string]interface{}:
+		if obj, ok := exact.(map[string]interface{}); ok {
+			for key := range x {
+				x[key] = replaceLargeIntegers(x[key], obj[key])
+			}
+		}
+	}
+	return v
+}
diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index ed8985f..cd44a4a 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -234,12 +234,12 @@ func (r *XLSXReader) decode(strings []string) ([]interface{}, error) {
 		case "object":
 			v := map[string]interface{}{}
 			if err := json.Unmarshal([]byte(str), &v); err == nil {
-				vs[i] = v
+				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "array":
 			v := []interface{}{}
 			if err := json.Unmarshal([]byte(str), &v); err == nil {
-				vs[i] = v
+				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "null":
 			if str == "" || str == "null" {
-- 
2.43.0


From 4192280a04525dd23e3b8172962a82f058b7f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:53 +0000
Subject: [PATCH 95/98] fix: cells such as NaN and Inf were read as numbers
 that no other format can hold

---
 vals/type.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 5db5946..ceb90c5 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -225,7 +226,12 @@ func ParseString(value []byte) (string, error) {
 
 // ParseNumber converts raw bytes to a float64 value
 func ParseNumber(value []byte) (float64, error) {
-	return strconv.ParseFloat(string(value), 64)
+	f, err := strconv.ParseFloat(string(value), 64)
+	if err == nil && (math.IsNaN(f) || math.IsInf(f, 0)) {
+		// no format but CBOR can write these as numbers
+		return 0, &strconv.NumError{Func: "ParseFloat", Num: string(value), Err: strconv.ErrSyntax}
+	}
+	return f, err
 }
 
 // ParseInteger converts raw bytes to a int64 value
-- 
2.43.0


From 537fe38ce250f3f7b9560b234da7e69271bb87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:53 +0000
Subject: [PATCH 96/98] fix: statistics of numbers that add up beyond the range
 of floats could not be encoded

---
 dsstats/stats.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index c0d6655..c3c74f4 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -368,17 +368,21 @@ func (acc *numericAcc) Map() map[string]interface{} {
 		return map[string]interface{}{"count": 0}
 	}
 	m := map[string]interface{}{
-		"mean":  acc.mean,
 		"count": acc.count,
-		"min":   acc.min,
-		"max":   acc.max,
 	}
-
-	if !math.IsNaN(acc.median) {
-		m["median"] = acc.median
+	// figures beyond the range of JSON numbers are left out
+	for name, figure := range map[string]float64{
+		"mean":   acc.mean,
+		"min":    acc.min,
+		"max":    acc.max,
+		"median": acc.median,
+	} {
+		if isFinite(figure) {
+			m[name] = figure
+		}
 	}
 
-	if acc.histogram != nil {
+	if acc.histogram != nil && allFinite(acc.dividers) {
 		m["histogram"] = map[string][]float64{
 			"bins":        acc.dividers,
 			"frequencies": acc.histogram,
@@ -388,6 +392,19 @@ func (acc *numericAcc) Map() map[string]interface{} {
 	return m
 }
 
+func isFinite(x float64) bool {
+	return !math.IsNaN(x) && !math.IsInf(x, 0)
+}
+
+func allFinite(xs []float64) bool {
+	for _, x := range xs {
+		if !isFinite(x) {
+			return false
+		}
+	}
+	return true
+}
+
 // Close finalizes the accumulator
 func (acc *numericAcc) Close() {
 	// finalize avg
-- 
2.43.0


From 77473cbaa7619eedb35f3d906131535bbb4de7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 97/98] fix: CSV and XLSX cells holding null in array and
 object columns were read as a list or map that is nil

---
 dsio/csv.go  | 10 ++++++++--
 dsio/xlsx.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 1710f61..df81284 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -146,12 +146,18 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 			}
 		case "object":
 			v := map[string]interface{}{}
-			if err := json.Unmarshal([]byte(str), &v); err == nil {
+			if err := json.Unmarshal([]byte(str), &v); err == nil && v == nil {
+				// the cell holds null
+				vs[i] = nil
+			} else if err == nil {
 				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "array":
 			v := []interface{}{}
-			if err := json.Unmarshal([]byte(str), &v); err == nil {
+			if err := json.Unmarshal([]byte(str), &v); err == nil && v == nil {
+				// the cell holds null
+				vs[i] = nil
+			} else if err == nil {
 				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "null":
diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index cd44a4a..29991f8 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -233,12 +233,18 @@ func (r *XLSXReader) decode(strings []string) ([]interface{}, error) {
 			}
 		case "object":
 			v := map[string]interface{}{}
-			if err := json.Unmarshal([]byte(str), &v); err == nil {
+			if err := json.Unmarshal([]byte(str), &v); err == nil && v == nil {
+				// the cell holds null
+				vs[i] = nil
+			} else if err == nil {
 				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "array":
 			v := []interface{}{}
-			if err := json.Unmarshal([]byte(str), &v); err == nil {
+			if err := json.Unmarshal([]byte(str), &v); err == nil && v == nil {
+				// the cell holds null
+				vs[i] = nil
+			} else if err == nil {
 				vs[i] = keepIntegers(v, []byte(str))
 			}
 		case "null":
-- 
2.43.0


From b84d650235fa86b15660e2281860368238eb10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 98/98] fix: statistics of an empty body were not considered
 empty until encoded and decoded

---
 dsstats/stats.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index c3c74f4..70ca69d 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -70,10 +70,11 @@ func CalculateFromEntryReader(r dsio.EntryReader) (st *dataset.Stats, err error)
 		return nil, err
 	}
 
-	return &dataset.Stats{
-		Qri:   dataset.KindStats.String(),
-		Stats: ToMap(acc),
-	}, nil
+	st = &dataset.Stats{Qri: dataset.KindStats.String()}
+	if stats := ToMap(acc); stats != nil {
+		st.Stats = stats
+	}
+	return st, nil
 }
 
 // Statser produces a slice of Stat objects
-- 
2.43.0

