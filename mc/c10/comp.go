package main

import (
	"bytes"

	"github.com/qri-io/dataset/compression"
	"vmc/kit"
)

func compress(t *kit.T, f string, b []byte) []byte {
	if f == "" {
		return b
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(f, buf)
	if err != nil {
		t.Failf("compressor: %v", err)
	}
	if _, err := w.Write(b); err != nil {
		t.Failf("compress: %v", err)
	}
	if err := w.Close(); err != nil {
		t.Failf("compress: %v", err)
	}
	return buf.Bytes()
}
