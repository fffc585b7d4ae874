package main

import (
	"bytes"
	"fmt"
	"io"

	"vmc/body"
	"vmc/kit"

	"github.com/qri-io/dataset/dsio"
)

// beyond: a container or text that says it is longer than what follows is cut
// short, whatever the length is as a number.
func beyond(r *kit.Run) {
	r.Explore("lengths beyond the body", func(c *kit.C) func(t *kit.T) {
		major := 2 + c.Choose(4)
		has := c.Choose(4)
		lengths := []uint64{uint64(has) + 1, uint64(has) + 2, 255, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1, -uint64(has), -uint64(has) - 1, 1<<63 + uint64(has), 1<<32 + uint64(has)}
		n := kit.Pick(c, lengths)
		if n <= uint64(has) {
			return nil
		}
		w := kit.Pick(c, widths(n))
		end := kit.Pick(c, [][]byte{nil, {0xff}, {0xff, 0xff}})
		where := c.Choose(7)
		if major < 4 && where == 0 || (where == 5 || where == 6) && major != 3 {
			return nil
		}
		return func(t *kit.T) {
			v := head(byte(major), n, w)
			for i := 0; i < has; i++ {
				switch major {
				case 2, 3:
					v = append(v, 'a')
				case 4:
					v = append(v, 1)
				case 5:
					v = append(v, 0x61, byte('a'+i), 1)
				}
			}
			v = append(v, end...)
			// what closes the text doesn't make it long enough
			if uint64(has+len(end)) >= n {
				return
			}
			obj := false
			switch where {
			case 0:
				obj = major == 5
			case 1:
				v = append([]byte{0x9f}, v...)
			case 2:
				v = append([]byte{0x82, 1}, v...)
			case 3:
				v, obj = append([]byte{0xbf, 0x61, 'k'}, v...), true
			case 4:
				v = append([]byte{0x81, 0xa1, 0x61, 'k', 0x9f}, v...)
			case 5: // a key
				v, obj = append([]byte{0xa1}, v...), true
			case 6:
				v = append([]byte{0x81, 0xbf}, v...)
			}
			schema := body.Arr()
			if obj {
				schema = body.Obj()
			}
			st := body.St("cbor", "", schema, nil)
			rd, err := dsio.NewCBORReader(st, bytes.NewReader(v))
			t.Op(1)
			if err != nil {
				return
			}
			defer rd.Close()
			for i := 0; i < 20; i++ {
				e, err := rd.ReadEntry()
				t.Op(1)
				if err != nil && err != io.EOF {
					t.Trace()
					t.State(major, where, fmt.Sprint(err))
					return
				}
				if err == io.EOF {
					t.Failf("% x ends before the %d of its length and is read to the end without an error", v, n)
				}
				if i == 19 {
					t.Failf("% x gives entries without end: %v", v, e)
				}
			}
		}
	})
}
