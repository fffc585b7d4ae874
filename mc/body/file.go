package body

import (
	"io"

	"github.com/qri-io/qfs"
)

// Sizes are the sizes a file may know of itself: its own, none, one for a
// source that has not come through, and nothing it could be asked for.
const Sizes = 4

type plain struct{ qfs.File }

func size(kind, n int) int64 {
	switch kind {
	case 0:
		return int64(n)
	case 2:
		return 1<<33 + int64(n)
	}
	return -1
}

// File makes a file of n bytes that knows its size in one of Sizes ways.
func File(path string, src io.Reader, n, kind int) qfs.File {
	f := qfs.NewMemfileReaderSize(path, src, size(kind, n))
	if kind == 3 {
		return plain{f}
	}
	return f
}

// SameSize says if a file knows what one made by File with n and kind does.
func SameSize(f qfs.File, n, kind int) bool {
	sf, ok := f.(qfs.SizeFile)
	if !ok {
		return size(kind, n) < 0
	}
	if size(kind, n) < 0 {
		return sf.Size() < 0
	}
	return sf.Size() == size(kind, n)
}
