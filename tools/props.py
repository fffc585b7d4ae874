#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; no check runs it)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, level=level))

prop("C01", "Components and datasets survive JSON encoding and decoding",
 "Encoding any dataset, commit, meta (custom keys included), structure, stats, transform, readme or viz to JSON and decoding the result gives back an equal value: no field that was set is lost, changed, duplicated or invented. The only exceptions are that an unset kind identifier is filled in with the component's kind, transform secrets are never written, and the transient path of a readme or viz that also has content is not written. Encoding never modifies the value being encoded. A document giving a field a value its type cannot hold is refused rather than read in part.",
 ["inputs"], "every subset of set fields of every component (pairs of values per field), alone and nested in a dataset",
 "Tests encode a few hand-written documents; the interaction of which fields are set (path with one other field, custom keys with every standard key) is a product over subsets that they sample at a handful of points.",
 ["dataset.go","commit.go","meta.go","structure.go","stats.go","transform.go","readme.go","viz.go"],
 [("MarshalJSON/MarshalJSONObject/UnmarshalJSON of each component","root package")],
 ["json.Marshal / json.Unmarshal of the exported types"],
 "exhaustive enumeration of component field subsets on the real encoders, against an identity reference model",
 "All field subsets up to the stated size are executed on the real code; values per field come from a small alphabet.")
prop("C02", "JSON encoding and hashes are canonical",
 "The JSON encoding, and the hash, of a component depend only on its content: equal components encode to identical bytes whatever order their maps were filled in and however often they are encoded, re-encoding a decoded document gives identical bytes, and a component's hash equals the base58 multihash of the SHA-256 of its encoding. Keys of maps (schemas, format configs, custom meta, transform config, stats) are written in lexicographic order, and components that differ in any recorded field encode differently.",
 ["inputs","histories"], "every insertion order of map-valued fields and every pair of documents in the enumerated family",
 "Map iteration order and insertion history are not controlled by a unit test; distinctness is a statement about all pairs.",
 ["dataset.go","hash.go","meta.go","structure.go","transform.go","stats.go"],
 [("JSONHash/HashBytes","hash.go"),("map based marshalling sorts keys","meta.go")],
 ["bytes of MarshalJSON, JSONHash, HashBytes, Structure.Hash"],
 "exhaustive enumeration of map insertion orders and document pairs, byte comparison against an independent canonical encoder and hash",
 "All permutations of up to 4 (quick) keys and all pairs within each family.")
prop("C03", "A document is written as a bare path exactly when it has nothing else",
 "A dataset or component is encoded as a JSON string exactly when its path is set and no other content is (a kind identifier is not content), and decoding a JSON string always gives a value with that path and nothing else. IsEmpty is true exactly when no content field is set, for every component, and the always-an-object encoding is an object carrying the kind in every case.",
 ["inputs"], "every subset of fields of every component, including path and kind",
 "2^n subsets; tests check the all-empty and one or two populated shapes.",
 ["dataset.go","commit.go","meta.go","structure.go","stats.go","transform.go","readme.go","viz.go"],
 [("IsEmpty","every component file"),("MarshalJSON reference branch","every component file")],
 ["IsEmpty, MarshalJSON, MarshalJSONObject, UnmarshalJSON, New*Ref"],
 "exhaustive enumeration of field subsets on the real code against a set-of-fields reference model",
 "All subsets of fields per component.")
prop("C04", "Assign merges like Object.assign and leaves its sources alone",
 "Assigning any sequence of datasets or components onto a target leaves each field with the last non-empty value given for it (maps of transform config, resources and secrets, and custom metadata, merge key by key; a dataset's ID keeps its first non-empty value), and a nil source or an unset field never erases anything. Sources are never modified, and a field not mentioned by any source is untouched.",
 ["inputs","histories"], "all sequences of up to three sources over all per-field value choices",
 "Tests assign one or two fixed sources; order, repetition and nil handling combine over sequences.",
 ["dataset.go","commit.go","meta.go","structure.go","stats.go","transform.go","readme.go","viz.go"],
 [("Assign","every component file")],
 ["Assign of every exported type"],
 "exhaustive exploration of assignment sequences against a last-writer-wins reference model",
 "Sequences up to length 3, each field over {unset, a, b}.")
prop("C05", "Dropping transient or derived values clears exactly those fields",
 "Dropping transient values clears exactly the transient fields (a dataset's body, body bytes, name, peername, path, profile ID and version count; a component's path, plus script text for readme, viz and transform, plus transform secrets) and dropping derived values clears exactly the derived ones (path and kind; for structure also checksum, depth, entries, error count and length; for a dataset also those of each of its components). Every other field keeps its value, both operations are idempotent, and the order of the two does not matter.",
 ["inputs","histories"], "every field subset of every component and every sequence of drop operations up to length 3",
 "Tests compare one fixture; a field wrongly kept or cleared only shows when it is set.",
 ["dataset.go","commit.go","meta.go","structure.go","stats.go","transform.go","readme.go","viz.go"],
 [("DropTransientValues/DropDerivedValues","every component file")],
 ["fields after the call"],
 "exhaustive exploration of drop-operation histories over field subsets against a field-set reference model",
 "All single- and pair-field subsets plus the full one, all op sequences up to length 3.")
prop("C06", "Signing bytes and path maps bind exactly the identity of a version",
 "A dataset's signing bytes are one line per present item, in a fixed order: id, body path, commit time in UTC to the second, then the non-empty paths of meta, readme, structure, transform, stats and viz, each with its two letter prefix; so two datasets have equal signing bytes exactly when those items agree, whatever else differs (including the time zone the commit time is expressed in). A path map holds exactly the components present and not ignored.",
 ["inputs"], "every subset of items, every pair of distinct items, every ignore set, several time zones and sub-second offsets",
 "The tests compare two fixtures to golden strings; binding is about all pairs of datasets.",
 ["dataset.go","kind.go"],
 [("SigningBytes, SignableBytes, PathMap, ComponentTypePrefix","dataset.go, kind.go")],
 ["bytes returned"],
 "exhaustive enumeration of item subsets and ignore sets against a reference rendering",
 "All 2^n subsets of items; two values per item.")
prop("C07", "Opening and inlining body and script files follows the documented priority",
 "Opening a body or script file uses inline text or bytes when present, else fetches exactly the recorded path from the resolver, and never touches the resolver when there is nothing to fetch; an inline native body, a missing resolver and a failing resolver are each reported. The opened file yields exactly the inline or stored bytes, inlining a script moves all of its text into the document and clears its script path, and a failed open or a read that fails part-way is an error that leaves the recorded text and path as they were.",
 ["inputs","fault_sequences"], "every combination of set fields, resolver answers (absent, found, failing) and read faults at every offset, over operation sequences",
 "Tests use in-memory files that never fail and cover each branch once, never the combinations.",
 ["dataset.go","readme.go","viz.go","transform.go"],
 [("OpenBodyFile, OpenScriptFile, OpenRenderedFile, InlineScriptFile","root package")],
 ["BodyFile, ScriptFile, RenderedFile, Text, ScriptPath, resolver calls"],
 "exhaustive exploration of open/inline operation sequences with enumerated resolver answers and read faults, against a reference model",
 "All sequences up to length 3 over the operation alphabet, all fault offsets.")
prop("C08", "The JSON reader decodes exactly what the JSON standard says",
 "For every body that is a valid JSON document, the JSON reader returns exactly its top-level entries in order (index for arrays, key for objects) with the values the JSON standard assigns: strings with all escapes and surrogate pairs, integers that fit 64 signed bits as exact integers, other numbers as floats, nested arrays and objects (the last value of a repeated key), booleans and null. A body that is not JSON ends in an error; the only things tolerated are a value missing before a comma or closing bracket (read as null), unknown or broken string escapes, control characters in strings, sloppy number spellings of the same number, and anything after the closing bracket.",
 ["inputs"], "every document derivable from a small token alphabet up to a bounded size, every escape, every number shape",
 "The tests read about twenty fixed documents; the reader is a hand-written parser whose branches combine.",
 ["dsio/json.go"], [("JSONReader token readers","dsio/json.go")], ["ReadEntry sequence and final error"],
 "bounded-exhaustive enumeration of JSON documents on the real reader, against the standard library decoder as reference",
 "All documents up to the bound; the reference is encoding/json with exact numbers.")
prop("C09", "The CBOR reader decodes exactly what RFC 7049 says",
 "For every body that is a valid CBOR array or map with text keys, in any of the encodings RFC 7049 allows (integers of every width and sign within 64 bits, definite and indefinite length strings, keys, arrays and maps, half, single and double floats, simple values, tags, nested containers, strings longer than the reader's buffer), the CBOR reader returns exactly its entries in order with the encoded values (a tagged value as the value itself, undefined as null). A body that holds a negative integer beyond 64 bits, or is cut short anywhere, or that declares a length, of any size up to 64 bits, beyond what follows, is an error. Returned byte and text values keep their content while reading continues.",
 ["inputs"], "every value of a bounded alphabet in every legal encoding width, nested up to a bounded depth",
 "Tests only feed what one encoder library emits, never the other legal encodings.",
 ["dsio/cbor.go"], [("CBORReader","dsio/cbor.go")], ["ReadEntry sequence and final error"],
 "bounded-exhaustive enumeration of CBOR encodings from an independent encoder, compared with the encoded values",
 "All encodings up to the bound, boundary lengths and widths included.")
prop("C10", "JSON, NDJSON and CBOR bodies survive writing and reading",
 "Any sequence of entries (values of JSON kinds with valid UTF-8 text, distinct non-empty keys for objects) written with a JSON (compact or pretty), NDJSON or CBOR writer, with no, gzip or zstandard compression, or through an entry buffer, is read back by the matching reader as the same sequence: same number and order of entries (CBOR orders the keys of an object), same indexes or keys, same values (numeric values equal, up to the 64-bit limits for integers), for array and for object bodies, including an empty body, and an NDJSON body whose last line lacks its newline.",
 ["inputs","configurations"], "every entry sequence up to a bounded length over a value alphabet, times format, compression, pretty and top-level type",
 "The product format x compression x shape x value x count is sampled by a few fixtures.",
 ["dsio/json.go","dsio/ndjson.go","dsio/cbor.go","dsio/dsio.go","dsio/entry_buffer.go","dsio/streams.go","compression/compression.go"],
 [("NewEntryWriter/NewEntryReader pair","dsio/dsio.go")], ["entries read back"],
 "exhaustive exploration of write-sequence/read-back histories against a list reference model",
 "Sequences up to length 3-4 over the value alphabet, plus boundary sizes around internal buffers.")
prop("C11", "CSV bodies survive writing and reading with typed columns",
 "Any table of equally wide rows (of any width when variadic fields are configured) written with a CSV writer and read back with the same structure gives the same rows in the same order, each cell read as its column's type: strings unchanged whatever delimiters, quotes or line breaks they contain (line breaks come back as line feeds), integers, numbers, booleans, arrays and objects equal in value, for every header, separator, quoting and compression setting, null cells as empty text. A header row of the column titles is written when configured and never returned as an entry, a cell that cannot be read as its column's type comes back as the original text, and a value that CSV cannot hold is refused with an error. Quotes that do not enclose a whole cell are an error at that row, or part of the text when lazy quotes are configured.",
 ["inputs","configurations"], "every table up to 2x2 over a cell alphabet, times column types, header, separator, compression",
 "Tests use a few well-behaved tables with comma separators.",
 ["dsio/csv.go","dsio/replacecr/replace_cr.go","tabular/tabular.go"], [("CSVReader/CSVWriter","dsio/csv.go")], ["entries read back"],
 "bounded-exhaustive enumeration of tables and configurations, write-read histories against a table reference model",
 "All tables up to the bound over an alphabet of quoting, separator and line-break characters.")
prop("C12", "XLSX bodies survive writing and reading",
 "Any table written with an XLSX writer and read back with the same structure gives the same rows in the same order with cells of their column's type, for any sheet name configured and any number of columns and rows a sheet can hold, and every cell stands at its own address: column labels are the one-to-one sequence A, B, …, Z, AA, AB, … over all 16384 columns. Text that XML cannot represent is excepted; a cell too long for a spreadsheet and a value it cannot hold are refused with an error, as is compression.",
 ["inputs","configurations"], "every table up to a bounded size over a cell alphabet and column types, every column index up to three letters",
 "Tests write a handful of rows with a few columns; column labels beyond Z and cell kinds are not combined.",
 ["dsio/xlsx.go"], [("XLSXReader/XLSXWriter, ColIndexToLetters","dsio/xlsx.go")], ["entries read back"],
 "bounded-exhaustive enumeration of tables and sheet configurations, write-read histories against a table reference model",
 "All tables up to the bound; all column indexes up to 18278.")
prop("C13", "What is read does not depend on how the bytes arrive",
 "For every supported format, compression and configured buffer size, the entries and the final outcome a reader gives for a body, and the structure detected for it, are the same however the underlying source splits the bytes into reads, including one byte at a time and reads that return data together with end of file.",
 ["schedules","inputs"], "every way of splitting a body into reads (all two-way splits of every body, all splits of short ones) and a range of buffer sizes",
 "Tests read from in-memory buffers that deliver everything at once.",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/replacecr/replace_cr.go","detect/detect.go","detect/json.go","detect/cbor.go","stepfile/stepfile.go"],
 [("buffer refill logic","dsio/json.go, dsio/replacecr"),("tracked reader","dsio/tracked_reader.go")], ["ReadEntry sequence, detect.Structure"],
 "exhaustive exploration of short-read schedules (deviation-bounded) against the single-read execution as reference",
 "All single split points of each body, all split subsets of short bodies, up to the deviation bound.")
prop("C14", "A truncated or failing source is never mistaken for a complete body",
 "If the source of a JSON, NDJSON, CBOR, CSV, XLSX or compressed body fails part-way, reading reports an error instead of a clean end, unless a body whose format marks its own end (JSON, CBOR) has already come through completely; if a JSON, CBOR, XLSX or compressed body is cut short at any point, reading reports an error under the same condition. Entries returned before the error are exactly the first entries of the full body, except that a JSON reader may return one value the cut fell into. Paging, copying, converting, validation and detection report such failures too, and after detection the body file still gives every byte that arrived and then the failure.",
 ["fault_sequences","inputs"], "every cut point and every failure offset of every body in the family, per format and compression",
 "Tests never make a source fail; truncation is covered by a couple of fixed strings.",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go","compression/compression.go","dsio/dsio.go"],
 [("error propagation in ReadEntry","dsio")], ["error of the last ReadEntry, entries before it"],
 "fault enumeration: every truncation and read-failure offset of each body on the real readers",
 "All offsets of every body in the family.", level="fault_enumeration")
prop("C15", "A write that failed is always reported",
 "If the destination of an entry writer (any format, compression or pretty setting), of a copy or of a step file fails at any byte, permanently or once, then some call up to and including Close returns an error; success is reported only when every byte of the complete document was accepted by the destination. Without faults no error is reported.",
 ["fault_sequences","inputs"], "every failing byte offset and short write of every write history, per format and compression",
 "Tests write to memory buffers, which never fail.",
 ["dsio/csv.go","dsio/json.go","dsio/ndjson.go","dsio/cbor.go","dsio/xlsx.go","compression/compression.go","stepfile/stepfile.go","dsio/streams.go"],
 [("error propagation in WriteEntry/Close","dsio")], ["errors of WriteEntry, Close, Write, ConvertFile"],
 "fault enumeration: every write-failure offset and short write of each write history on the real writers",
 "All offsets of every write history in the family.", level="fault_enumeration")
prop("C16", "Malformed input never crashes or hangs",
 "For every byte sequence offered as a body of any supported format, compression and configuration, every JSON text offered as a dataset document or component, every JSON-shaped schema or format configuration in a structure and every script, step file or scalar text: opening, reading, detecting, validating, computing stats, previewing, converting, rendering and decoding end with values or an error. They never panic, loop without end, give more entries than the decompressed input has bytes, or take memory out of proportion to it (what the compression format's own headers and the row and column numbers of a worksheet ask for, within their limits, is in proportion).",
 ["inputs"], "every byte string up to a bounded length over format-significant alphabets, every single-byte mutation and deletion of valid bodies, every small schema tree",
 "The tests use a few malformed strings.",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go","detect/detect.go","tabular/tabular.go","validate/data.go","dsstats/stats.go","stepfile/stepfile.go"],
 [("bounds checks","dsio, detect, tabular")], ["panic, progress, allocation"],
 "bounded-exhaustive enumeration of byte strings, mutations and schema trees on the real code, with crash, progress and allocation monitors",
 "All strings up to the bound over each alphabet; all single mutations.")
prop("C17", "Paging, limiting, copying and converting deliver exactly the right entries",
 "Reading a page with offset o and limit l of any body (or with no limit) gives exactly entries o to o+l of the full body, and reports the end exactly when the body is exhausted. When reading goes on after a failed read, it still gives entries of the page only, in order. Copying a reader to a writer and converting a file between formats, with an optional offset, limit or request for all, gives exactly the corresponding entries in order under the target structure, and an error in reading or writing is reported.",
 ["inputs","configurations"], "every body length, offset and limit up to a bound, every pair of formats",
 "Tests use one body and a few windows.",
 ["dsio/dsio.go"], [("PagedReader, Copy, ConvertFile","dsio/dsio.go")], ["entries delivered"],
 "exhaustive enumeration of lengths, windows and format pairs against list slicing",
 "All lengths, offsets and limits up to the bound.")
prop("C18", "Readers, writers and accumulators are independent of each other",
 "Operating two instances of any readers, writers, entry buffers, stats accumulators, histogram sketches, detectors or loads of test cases in any interleaving gives each the result it gives alone; entries once returned never change, and structures, schemas, entries and buffers handed in are never modified. Distinct instances can be used from different goroutines without data races.",
 ["schedules","histories"], "every interleaving of the operation sequences of two instances, for every pair of kinds, plus a free-running race-detector pass",
 "Tests drive one instance at a time, so shared scratch state is invisible to them.",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/xlsx.go","dsio/ndjson.go","dsio/entry_buffer.go","detect/detect.go","dsstats/stats.go","structure.go"],
 [("no package level mutable state","all packages")], ["results per instance, deep copies of inputs and returned entries"],
 "exhaustive exploration of two-instance operation interleavings, each compared with the solo run; separate race-detector run of the same bodies",
 "All interleavings of two short operation sequences per pair of kinds.")
prop("C19", "An identity reader delivers every entry once, then ends, and never hangs",
 "Whatever the order of its calls, the goroutines they come from and how far the producing goroutine has run, an identity reader of a native value delivers every entry exactly once (a list in order with its indexes, an object each key once), then reports end of input as often as it is asked; no read or close ever blocks forever, reads after Close report the end, and once closed the reader leaves no goroutine behind.",
 ["schedules","inputs"], "all schedules of a writer and a reader goroutine up to a bounded number of entries, with every close point",
 "The tests run one schedule chosen by the runtime.",
 ["dsio/identity.go"], [("entry channel, done flag","dsio/identity.go")], ["ReadEntry sequence, blocking"],
 "exhaustive exploration of goroutine schedules on the real code with deadlock detection, against a list reference model",
 "All schedules of the harness within the bound.")
prop("C20", "Detection never alters what it was given and gives a readable structure",
 "Detecting the structure of a body file keeps every structure field that was already set and leaves the body complete: afterwards the body file has the same path and size and gives every original byte from its start, also when detection fails. When format and compression are not preset and the file name tells them, what is detected fits the content: format and compression of the name, a schema whose top level matches the body, a tabular schema for CSV, so that reading a CSV, JSON, NDJSON or CBOR body with it succeeds and gives the content (cells that have a column's type typed, all others as their text), CSV rows that turn uneven only after the sampled first rows aside. Repeated detection gives equal results that share nothing. A detection that fails gives an error and no structure.",
 ["inputs","configurations"], "every format, preset field subset, body from a family and file name",
 "Tests detect a dozen fixture files with an empty structure.",
 ["detect/detect.go","detect/json.go","detect/cbor.go","detect/determineFields.go","detect/xlsx.go"],
 [("Structure, Schema, tee reader","detect/detect.go")], ["structure after, bytes left in the file, entries read"],
 "bounded-exhaustive enumeration of bodies, preset fields and file names against a reference model",
 "All combinations within the stated family.")
prop("C21", "CSV schema inference names every column once and types it soundly",
 "For every CSV text, the inferred schema has one column per field of the first row. The first row is taken as a header only if every cell in it could be a name, never one with a number or an empty cell, and then columns are named after it: non-empty, the same every time, a cell that is a plain name kept, and valid machine-readable names for cells of letters, digits, spaces, underscores and hyphens that begin with a letter. Without a header the titles are distinct and numbered. Each column's inferred type is a most common type of its sampled cells, which are at least those of the first 2,000 rows. Rows of uneven length are recorded as such so that they can be read, and a failing read is an error, not a shorter sample. The columns inferred for a table that is already decoded have distinct titles and the types of its first row.",
 ["inputs"], "every CSV table up to a bounded size over a cell alphabet, with row counts around the sampling cap",
 "Tests infer a few fixtures.",
 ["detect/determineFields.go","structure.go","dsio/xlsx.go"], [("CSVSchema, field type counting","detect/determineFields.go"),("AbstractColumnName","structure.go")],
 ["schema, format config"],
 "bounded-exhaustive enumeration of CSV tables against a reference inference model",
 "All tables up to the bound over the alphabet.")
prop("C22", "Validation reports exactly the invalid entries",
 "Validating a body against its schema reports an error for an entry exactly when that entry breaks the schema, wherever the entry stands in the body and however many entries there are, with a path that names the entry by its index or key, and nothing for valid bodies; a body that breaks a rule about the body as a whole (number of entries, required keys) is reported too, an empty one included. CSV row length checking accepts exactly the bodies whose rows all have the same length.",
 ["inputs"], "every pattern of valid and invalid entries for short bodies, and every single position around internal batch boundaries for long ones",
 "Tests validate a few short fixtures, far from the batch size.",
 ["validate/data.go","validate/csv.go","validate/validate.go"], [("EntryReader batches, CheckCsvRowLengths","validate")], ["returned validation errors"],
 "exhaustive enumeration of validity patterns and positions against a per-entry reference validator",
 "All patterns up to length 6-8 and all positions around the batch boundary.")
prop("C23", "Dataset, structure, commit and name rules are enforced for every document",
 "A name is accepted exactly when it is a letter followed by letters, digits and underscores, at most 144 characters in all (ASCII, either case; the empty name is not), and a dataset document is accepted exactly when it has a commit, the commit's title is at most 100 bytes long (it may be empty) and the structure, if any, has a known format and a schema; otherwise the error names the first broken rule and the part it is in. A nil dataset or component is accepted, other components are not judged, and nothing is modified.",
 ["inputs"], "every name up to a bounded length over an alphabet of legal and illegal characters, every length around the limits, every combination of component defects",
 "Tests list about twenty names and a handful of documents.",
 ["validate/validate.go","validate/dataset.go"], [("ValidName, Dataset, Commit, Structure","validate")], ["error or nil"],
 "bounded-exhaustive enumeration of names and documents against a reference rule table",
 "All names up to the bound; all combinations of component states.")
prop("C24", "Statistics describe exactly the entries that were written",
 "After writing any sequence of entries and closing, the statistics of each column or key have exactly the type class, count, minimum and maximum (of values or lengths), mean, distinct count, value frequencies (all values up to 200 distinct ones, long ones abbreviated) and true, false and null counts that a direct computation over the entries gives, whatever the order and number of entries, missing cells or nesting; a column's class is that of its first value, and values of another class are not counted. Statistics are the same however often they are read or closed, histogram frequencies are non-negative and sum to the number of values (one bin per value up to 32 distinct ones), figures beyond the range of JSON numbers are left out, and an error in reading the entries is reported.",
 ["inputs","histories"], "every entry sequence up to a bounded length over a value alphabet, rows and objects, plus counts around internal thresholds",
 "Tests compute stats of a few fixtures.",
 ["dsstats/stats.go","dsstats/histosketch/histosketch.go"], [("Accumulator","dsstats/stats.go")], ["ToMap(acc) after close"],
 "bounded-exhaustive enumeration of entry sequences against a direct reference computation",
 "All sequences up to the bound, and boundary counts of the internal sketches.")
prop("C25", "A histogram sketch keeps exact mass, order and bounds",
 "After any sequence of additions and merges a histogram sketch holds at most its maximum number of bins, ordered by value (strictly, without merges of sketches) within the range of the values added, with count and total bin mass equal to the number of additions, exact minimum, maximum and weighted sum, quantiles and median that lie within the range, quantiles that never decrease, and cumulative counts between zero and the count; while there are no more different values than bins it is exact. Encoding and decoding it preserves every observable result, merging equals adding both inputs as far as count, sum and range and leaves the second sketch alone, and making one from a sample does the same without changing the sample.",
 ["histories"], "all operation sequences up to a bounded depth over a small value alphabet with small bin limits",
 "Tests feed random normal data and check approximate quantiles.",
 ["dsstats/histosketch/histosketch.go"], [("Add, compress, Merge, MarshalBinary","histosketch.go")], ["Bins, Count, Quantile, Sum, Min, Max"],
 "breadth-first exploration of operation sequences on the real sketch with invariants in every state",
 "All sequences up to depth 6-8 with bin limits 2-4.")
prop("C26", "Dataset comparison finds a difference exactly when there is one",
 "Comparing two JSON documents, or the structure, transform, meta or viz of two datasets, reports a change exactly when the contents compared differ, whichever of the two comes first, and neither side is altered; comparing two datasets reports a change in each of those four components that differs and in no other. Two transforms, metas or vizs carrying the same path count as equal, a transform's secrets are never compared, and the script path counts only when one side lacks one. Every result can be summarised in every style (empty exactly when nothing changed, showing the first side's value as removed and the second's as added) and encoded, without failing. The comparison helpers for tests report a difference in the exported fields exactly when there is one, and none in transient values on either side when asked to drop them. Shallow comparison of two transforms, readmes or vizs is true exactly when every exported field but the path agrees.",
 ["inputs"], "every pair of documents from a family covering each field and each component, in both orders",
 "Tests compare about ten fixed pairs.",
 ["dsdiff/dsdiff.go"], [("DiffDatasets, DiffJSON, SubDiff, MapDiffsToString","dsdiff/dsdiff.go")], ["diff map, summaries"],
 "exhaustive enumeration of document pairs against content equality",
 "All pairs of the family.")
prop("C27", "Rendering a visualisation is repeatable and leaves the dataset usable",
 "Rendering a dataset's HTML viz template gives the same output every time it is repeated, and in it every document field, body entry, window (the whole body for a negative offset or limit), size or type test the template asks for, with text escaped for HTML. Whatever the outcome, the dataset's documents are unchanged and its body and script files read again from the start, with the same path and size. A missing viz, script, structure or body the template needs, a broken template, an unreadable script or a body that cannot be read is an error, never partial output reported as success.",
 ["inputs","histories"], "every template from an alphabet of template operations, bodies of every small length and around buffer sizes, repeated renders",
 "Tests render a few fixtures once.",
 ["dsviz/render.go"], [("Render, bodyEntries tee","dsviz/render.go")], ["rendered bytes, body file afterwards"],
 "bounded-exhaustive enumeration of templates, bodies and render sequences against a reference rendering",
 "All op sequences up to the bound.")
prop("C28", "A preview is a bounded, faithful prefix that does not consume the dataset",
 "Creating a preview gives the dataset with its body replaced by a JSON document of the first entries of the body file (at most one hundred) exactly as reading the body gives them, its readme text set to the readme script unabridged up to 997 bytes and to the first 997 bytes plus an ellipsis beyond that, and every other component and field as it was. The body and readme files read again in full from the start, also after an error. A failure to open or read that part of the body or readme, or a body without a usable structure, is reported as an error; an empty dataset is refused.",
 ["inputs","fault_sequences"], "every body length around the row limit, every script length around the byte limit, every component combination, read faults at every offset",
 "Tests preview one fixture.",
 ["preview/preview.go"], [("Create","preview/preview.go")], ["returned dataset"],
 "exhaustive enumeration of lengths around limits, component subsets and faults against a reference model",
 "All lengths around each limit and all fault offsets.")
prop("C29", "Transform step files survive writing and reading",
 "Writing a list of transform steps to a step file and reading it back gives the same scripts in the same order, for every number of steps and every script text (given as string, bytes or reader) that does not itself contain the step separator line, whatever white space, blank lines or dashes the scripts contain; reading splits any text at exactly the lines that are the separator, and a script of another kind or a failing script reader or destination is reported.",
 ["inputs"], "every list of up to three scripts over an alphabet of line fragments, and every text up to a bounded number of lines",
 "Tests read and write one fixture.",
 ["stepfile/stepfile.go"], [("Read, Write, separator scanner","stepfile/stepfile.go")], ["steps read back"],
 "bounded-exhaustive enumeration of scripts and texts, write-read histories against a line-splitting reference",
 "All scripts up to the bound over the alphabet.")
prop("C30", "Tabular column definitions are extracted faithfully from schemas",
 "For every JSON schema that describes an array of arrays with column items, column extraction gives one column per item in order with its title, type or types, description and remaining keywords, col_N as the title of an untitled column and string as the type of an untyped one, each such default reported as a problem; any other schema (rows that are objects included) is rejected with an error, and the schema is not modified. Column types and columns survive JSON encoding, and machine titles are accepted exactly when all titles are valid and distinct.",
 ["inputs"], "every schema tree up to a bounded size over a keyword alphabet",
 "Tests extract from a few schemas.",
 ["tabular/tabular.go"], [("ColumnsFromJSONSchema, ColType, ValidMachineTitles","tabular/tabular.go")], ["Columns, problems, error"],
 "bounded-exhaustive enumeration of schema trees against a reference extraction",
 "All schema trees up to the bound.")
prop("C31", "Dynamic values parse, compare and convert consistently",
 "The type of a text is its most specific one: null, a boolean word, an integer or decimal number a 64-bit float can hold, an array or object (by its first character), else a string; and parsing by that type gives exactly the value the text denotes, or an error where there is none; parsing by any other type never gives a value the text does not denote. Decoding JSON to dynamic values agrees with the JSON standard (integers beyond 64 bits as numbers), converting native values keeps kind and value, equality of values is reflexive, symmetric and agrees with deep equality of kind and content, comparing texts as strings, integers or numbers is a consistent total order of what they denote, and values turned into text, and types into names or JSON, are read back as the same.",
 ["inputs"], "every text up to a bounded length over a token alphabet, every pair and triple of values of a family",
 "Tests list a few examples per type; the laws are about pairs and triples.",
 ["vals/type.go","vals/value.go","vals/compare.go","vals/coding.go"], [("ParseType, Equal, Compare, UnmarshalJSON, ConvertDecoded","vals")], ["returned types, values, orders"],
 "bounded-exhaustive enumeration of texts and value pairs/triples against reference definitions",
 "All texts up to the bound; all pairs and triples of the family.")
prop("C32", "Line ending normalisation is exact",
 "Reading any text through the line-ending normaliser gives that text with every carriage return not followed by a line feed followed by one, and every other byte unchanged, whatever the size of the reads on either side and of the buffer, then end of file as often as asked, and a failure of the source is reported after the text before it; so CSV rows ended by CR, LF or CRLF, mixed in any way, are the same rows.",
 ["inputs","schedules"], "every text up to a bounded length over an alphabet of CR, LF and other bytes, times every source split and destination buffer size",
 "Tests read one string with one buffer size.",
 ["dsio/replacecr/replace_cr.go","dsio/csv.go"], [("Reader","dsio/replacecr/replace_cr.go")], ["bytes read"],
 "exhaustive exploration of texts and read schedules against a reference normaliser",
 "All texts up to the bound; all read-size sequences up to the deviation bound.")
prop("C33", "Compression is lossless and its format names are consistent",
 "Compressing any byte stream in any sequence of writes with any supported format and decompressing it in any sequence of reads gives the same bytes and then end of file; the names gzip and gz, zst and zstd are recognised as the same format on both sides, every format's own name parses back to it, and every other name (the empty one included) is an error. Each compressor emits a stream that standard decoders accept, complete once closed, streams of standard encoders (several members included) are read, a stream with a bit changed never gives other bytes without an error, and a stream cut short is an error. A structure that names any other compression is refused by every entry reader, writer and buffer.",
 ["inputs","histories","schedules"], "every short write sequence over a byte alphabet, all read sizes, lengths around block boundaries",
 "Tests compress one string.",
 ["compression/compression.go"], [("Compressor, Decompressor, ParseFormat","compression/compression.go")], ["bytes, errors"],
 "exhaustive exploration of write/read sequences against byte identity and the standard decoder",
 "All write sequences up to the bound.")
prop("C34", "Format names, file names and format options translate without loss",
 "Every data format's name parses back to it (in text and JSON), with or without a leading dot, and unknown names and JSON of another kind are rejected; the formats of a file name are read from its last extensions, a body file name built from a structure (any base name) is recognised as that structure's format and compression, and an unknown extension is an error. Options for CSV, XLSX and JSON survive being turned into a map, recorded in JSON and parsed again, with an error for every option of the wrong type or a separator that is not one character, and for formats without options.",
 ["inputs","configurations"], "every format, compression and option combination, every option value kind, every short unknown name",
 "Tests list examples and never round trip options.",
 ["data_format.go","data_format_config.go","structure.go","kind.go","detect/detect.go"], [("ParseDataFormatString, NewCSVOptions, Map, BodyFilename","root package")], ["returned values and errors"],
 "exhaustive enumeration of formats, options and names against a reference table",
 "All combinations over the option alphabet.")
prop("C35", "Generated data conforms to the schema it was generated for",
 "For every tabular schema of column types and every outcome of the random source, a generator yields a row as often as it is asked, numbered from zero, each row having one value per column of that column's (first) type and strings within the maximum length, so that the rows pass validation against the schema and can be written in any tabular format and read back; a schema that is not tabular is refused. Generation with equal random sources is repeatable, both booleans, and for an unknown type every simple kind of value, can occur, and the schema is not modified.",
 ["inputs"], "every column type combination up to a bounded width and every random choice sequence up to a bounded depth",
 "Tests generate one dataset with one seed.",
 ["generate/tabular.go","generate/value.go"], [("TabularGenerator, Value","generate")], ["generated rows"],
 "exhaustive enumeration of column types and enumerated random-source answers, against the schema",
 "All type combinations and all random answers within the bound.")

prop("C36", "Finishing with a body lets go of everything it was opened with",
 "Once a reader, writer or decompressor has been closed, however many entries were read or written before, and whatever failed, nothing it started is left: no goroutine, and no further read of its source. The same holds when opening it was refused, and after every operation that opens a body itself (statistics, preview, detection, rendering, conversion) has returned, with a result or an error. An identity reader that was read to its end or closed leaves nothing either, and files opened by name are closed.",
 ["inputs","faults"], "every format, compression, schema kind, number of entries read or written before closing, and failing offset of the source or sink",
 "Leaks are invisible to tests that look at results; they need an early close or a failure at a particular point.",
 ["dsio/dsio.go","dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/identity.go","compression/compression.go","dsstats/stats.go","detect/detect.go","dsviz/render.go"],
 [("Close of every reader and writer","dsio"),("Calculate, Create, Structure, Render, ConvertFile","dsstats, preview, detect, dsviz, dsio")],
 ["number of goroutines, reads of the source, open files after the call"],
 "exhaustive enumeration of close points and fault offsets on the real code, goroutines and source reads compared before and after",
 "Every byte offset of small bodies fails once; a goroutine counts as left after 3 s.", level="fault_enumeration")

prop("C37", "Looking at something does not change it",
 "Encoding, hashing, signing, validating, comparing, diffing, summarising, assigning from, or listing the paths, names, columns or options of a dataset, component or structure, and opening readers, writers, buffers, accumulators and generators with a structure, leave it, its schema, its format options, its open files, and whatever it is compared with, exactly as they were, so that asking again, after any other question, gives the same answer; and once a field is changed, or the content of its schema or options is, every answer is that of a value nobody had looked at before the change. Writing values to a writer or accumulator does not change the values, and what was recorded no longer changes with them once it is closed.",
 ["inputs","histories"], "every small subset of fields of every component and dataset with and without open files, every structure of a format/schema/options alphabet, under every sequence of two looking operations; every short list of nested values given to every writer",
 "Side effects of reading show only in the object afterwards and for particular field combinations, which tests do not compare.",
 ["dataset.go","commit.go","meta.go","structure.go","stats.go","transform.go","readme.go","viz.go","dsio/dsio.go","dsdiff/dsdiff.go","validate/dataset.go","dstest/compare.go","dsstats/stats.go","tabular/tabular.go"],
 [("MarshalJSON, SigningBytes, PathMap, Hash, ShallowCompare …","root package"),("NewEntryReader, NewEntryWriter, NewAccumulator","dsio, dsstats")],
 ["deep state (unexported fields included) before and after each operation, and the operation's answer"],
 "exhaustive exploration of operation pairs over field subsets on the real code, deep state compared before and after",
 "All subsets within the bound, all pairs of operations.")
prop("C38", "Setting metadata by name sets exactly that field, or nothing",
 "Setting a metadata value by name sets exactly the standard field of that name, in any case and with surrounding space, to what a JSON document saying the same would give it (null clears texts and lists of texts), and any other name sets the custom key of exactly that spelling (SetArbitrary always does), whatever the value; a value of the wrong type is an error and leaves the metadata as it was, and the last of several settings of a field counts. The map of custom keys handed out is the caller's own. Users, licenses and citations are decoded from exactly their own keys, with an error for values that are not text.",
 ["inputs","histories"], "every sequence of up to three settings over all names (in several spellings) and values of every JSON kind",
 "Tests set one key on an empty meta; what happens to the other fields, and to the old value on an error, needs histories.",
 ["meta.go"], [("Set, SetArbitrary, Meta, Decode","meta.go")], ["exported fields, custom keys, errors"],
 "exhaustive exploration of setting sequences against a model of the fields, and against JSON decoding",
 "All sequences within the bound.")

prop("C39", "Test cases and golden files are exactly what is on disk",
 "A test case loaded from a directory has exactly the contents, names and datasets of the files there: the first body in the order of the supported formats, each script or none, the input (named after the directory, with the body and scripts opened on it) and the expected dataset; an unreadable document or a directory without any of the files is an error, and loading it again is not affected by what was done with the first. Loading a directory of cases gives exactly the cases that can be loaded. Checksums of datasets agree exactly when the datasets do, and a golden file is overwritten with the dataset's encoding exactly when asked for.",
 ["inputs","configurations"], "every subset of the files of a case with each of several contents, every directory of up to three cases, every pair of datasets differing in up to two fields",
 "The tests load a handful of complete directories.",
 ["dstest/dstest.go","dstest/golden.go","dstest/compare.go"], [("NewTestCaseFromDir, LoadTestCases, ReadBodyData, DatasetChecksum","dstest/dstest.go"),("UpdateGoldenFileIfEnvVarSet","dstest/golden.go")],
 ["fields of TestCase, files it opens, errors, checksums, golden files"],
 "exhaustive enumeration of directory contents in a scratch directory against a model of the loader",
 "All subsets of files; contents from a small alphabet.")

prop("C40", "A refused entry leaves the rest of the body intact",
 "When an entry writer or entry buffer refuses an entry with an error (a value that cannot be encoded, an empty or repeated key, a value that is not a row for CSV or XLSX), the finished document holds exactly the entries that were accepted before and after it, in order, and is read back without error; a key refused with an unencodable value may be written again.",
 ["operation sequences","inputs"], "every sequence of up to 4 good and refused entries in every format and setting",
 "The tests stop at the first refused entry.",
 ["dsio/json.go","dsio/ndjson.go","dsio/cbor.go","dsio/csv.go","dsio/xlsx.go","dsio/entry_buffer.go"], [("WriteEntry of each writer","dsio")],
 ["errors of WriteEntry and Close, the document read back"],
 "exhaustive enumeration of sequences of accepted and refused writes on the real writers against the list of accepted entries",
 "CBOR encodes values when it is closed: there only keys are refused.")

prop("C41", "Format-specific entry points agree with the general ones",
 "A reader, writer or schema detector made directly for a format (NewJSONReader, NewCSVWriter, CSVSchema and the like) gives the same entries, bytes, schema and success or failure as the one made from the structure, for every body, also a damaged one; for a format that is missing, unknown or has no reader or writer, making one, a buffer or a conversion is an error; reading everything at once gives the entries read one by one, and reports a failure instead of part of them; a tracked reader passes on exactly what its source gives and counts exactly those bytes; abstract column names are the letters numbering a to z, aa, ab and so on, so no two columns share one; comparing integers or numbers as text directly agrees with comparing them by type, and is antisymmetric.",
 ["inputs","configurations"], "every format, compression, setting and body of the corpus, whole, cut at any byte or with a changed byte; every history of a source's answers; every column number up to a bound",
 "Tests call either the general or the specific function, on one document each; three column names are tested.",
 ["dsio/dsio.go","dsio/tracked_reader.go","detect/determineFields.go","structure.go","vals/compare.go"], [("NewEntryReader, NewEntryWriter, ReadAll","dsio/dsio.go"),("Schema","detect/determineFields.go"),("AbstractColumnName","structure.go"),("TrackedReader","dsio/tracked_reader.go")],
 ["entries, bytes, schemas and errors of both entry points"],
 "exhaustive enumeration of bodies, damages and source histories, comparing two entry points of the real code and a byte count and numbering model",
 "All cuts and byte changes of the corpus, all answer histories up to the bound, all column numbers up to the bound.")
prop("C42", "What is made of a body does not depend on how it is stored",
 "The same entries stored as JSON, pretty JSON, NDJSON, CBOR or (for tables) CSV with any options or XLSX, uncompressed or compressed in any supported way, and however many conversions they went through to get there, give the same statistics, the same validation errors for the same entries, the same preview, the same rendering, the same pages and the same further conversions, and the same kind of body is detected in them; numbers are compared by value.",
 ["inputs","histories"], "every body over the value alphabets, in every format, layout and compression, reached by every chain of conversions",
 "Tests look at one format at a time and never compare what comes of the same data stored differently.",
 ["dsio/dsio.go","dsio/csv.go","dsio/xlsx.go","dsio/json.go","dsio/ndjson.go","dsio/cbor.go","dsstats/stats.go","validate/data.go","preview/preview.go","dsviz/render.go","detect/detect.go"],
 [("ConvertFile, NewEntryReader, ReadAll","dsio/dsio.go"),("Calculate","dsstats/stats.go"),("EntryReader","validate/data.go"),("Create","preview/preview.go"),("Render","dsviz/render.go")], ["statistics, validation errors, previews, renderings and converted bodies"],
 "exhaustive enumeration of bodies, ways of storing them and chains of conversions, all compared with plain JSON",
 "All bodies, stores and chains within the bound.")
prop("C43", "What is derived from a body can be stored with it and read back",
 "Whatever a body in any format, configuration and typing holds (texts such as NaN, Inf or 1e999, numbers at the ends of their range, empty bodies, invalid UTF-8), the values read from it are of the JSON kinds (CBOR's NaN and infinities aside), and the structure detected for it, its statistics, its validation errors and its preview can be encoded as JSON: a dataset holding them can be encoded, decoded, hashed and encoded again to the same document, and reading, validating, detecting and summarising the body with the decoded structure gives the same as before. Figures JSON cannot express are left out of statistics; for CBOR bodies with values JSON has no name for, validation and preview may refuse with an error.",
 ["inputs","histories"], "every body over the cell, value and item alphabets in every format and typing, taken through detection, reading, statistics, validation, preview, encoding and decoding, and through them again with what was decoded",
 "Tests compute statistics and previews of a few well-behaved bodies and never store the result and go on with it.",
 ["dsio/csv.go","dsio/xlsx.go","vals/type.go","dsstats/stats.go","stats.go","structure.go","dataset.go","hash.go","detect/detect.go","validate/data.go","preview/preview.go"],
 [("decode","dsio/csv.go"),("ParseNumber","vals/type.go"),("numericAcc","dsstats/stats.go"),("MarshalJSON","stats.go"),("JSONHash","hash.go"),("Create","preview/preview.go")], ["encoded datasets, statistics, validation errors and previews, before and after decoding"],
 "exhaustive enumeration of bodies, each taken through the whole history of derivations on the real code, before and after a round trip through JSON",
 "All bodies within the bound, one history each.")

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(here, "mc", p["id"].lower(), "main.go")):
            checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "technique": "model checking: " + p["technique"], "level": p["level"], "level_note": p["note"] + " Trusted: the reference model, the Go toolchain and standard library."})
        else:
            na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Every check builds its explorer against /repo's working tree through a Go module in /verif/mc (replace directive); no hooks in /repo."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")
if __name__ == "__main__":
    main()
