package mv

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"unsafe"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

// newMsg makes an empty message of the type that the schema names.
func newMsg(m pmsg) mavlink2.Message { return registry[m.pkg+"."+m.Type]() }

// raw gives the memory of a field, or nil if the message has no such field of that kind and size.
func raw(msg mavlink2.Message, f ref.Field) []byte {
	v := reflect.ValueOf(msg).Elem().FieldByName(f.Name)
	if !v.IsValid() || v.Type().Size() != uintptr(f.Size()) {
		return nil
	}
	t := v.Type()
	if t.Kind() == reflect.Array {
		t = t.Elem()
	}
	if t.Kind().String() != f.Type { // a number of another kind has another value for the same bits
		return nil
	}
	return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), f.Size())
}

// put sets a field to the wire bytes w. Memory and wire are both little-endian here (checked in init).
func put(msg mavlink2.Message, f ref.Field, w []byte) bool {
	b := raw(msg, f)
	if b == nil {
		return false
	}
	copy(b, w)
	return true
}

func init() {
	if binary.NativeEndian.Uint16([]byte{1, 0}) != 1 {
		panic("the harness expects a little-endian machine")
	}
}

// fieldsOf reads all the fields back, as wire bytes.
func fieldsOf(msg mavlink2.Message, m pmsg) ([]byte, error) {
	var out []byte
	for _, f := range m.Fields {
		b := raw(msg, f)
		if b == nil {
			return nil, fmt.Errorf("%s.%s has no field %s of type %s[%d]", m.pkg, m.Type, f.Name, f.Type, f.Count)
		}
		out = append(out, b...)
	}
	return out, nil
}

// fill sets all the fields from wire bytes.
func fill(msg mavlink2.Message, m pmsg, w []byte) error {
	for _, f := range m.Fields {
		if !put(msg, f, w[:f.Size()]) {
			return fmt.Errorf("%s.%s has no field %s of type %s[%d]", m.pkg, m.Type, f.Name, f.Type, f.Count)
		}
		w = w[f.Size():]
	}
	return nil
}

// isSNaN tells whether 4 wire bytes are a signalling NaN, whose quiet bit an x86 conversion may set.
func isSNaN(b []byte) bool {
	u := binary.LittleEndian.Uint32(b)
	return u&0x7f800000 == 0x7f800000 && u&0x007fffff != 0 && u&0x00400000 == 0
}

// quiet clears signalling NaNs out of the float32 fields of a full payload; it says whether there were any.
func quiet(m pmsg, w []byte) (had bool) {
	at := 0
	for _, f := range m.Fields {
		if f.Type == "float32" {
			for i := 0; i < f.N(); i++ {
				if x := w[at+4*i : at+4*i+4]; isSNaN(x) {
					x[2] |= 0x40
					had = true
				}
			}
		}
		at += f.Size()
	}
	return
}

// values makes a full set of field values, as wire bytes, without signalling NaNs: random, sparse,
// boundary values per element, a single non-zero byte, zero from some point on.
func values(r *rand.Rand, m pmsg) []byte {
	w := make([]byte, m.Max)
	switch r.IntN(7) {
	case 0:
		return w
	case 1, 2:
		copy(w, randBytes(r, len(w)))
	case 3:
		if len(w) > 0 {
			w[r.IntN(len(w))] = byte(1 + r.IntN(255))
		}
	case 4:
		copy(w, randBytes(r, r.IntN(len(w)+1)))
	case 5:
		for i := range w {
			w[i] = 0xff
		}
	case 6:
		at := 0
		for _, f := range m.Fields {
			for i := 0; i < f.N(); i++ {
				e := f.Elem()
				x := w[at : at+e]
				switch r.IntN(6) {
				case 0:
				case 1:
					x[0] = 1
				case 2:
					x[e-1] = 0x80
				case 3:
					for j := range x {
						x[j] = 0xff
					}
				case 4:
					for j := range x {
						x[j] = 0xff
					}
					x[e-1] = 0x7f
				case 5:
					copy(x, randBytes(r, e))
				}
				at += e
			}
		}
	}
	if r.IntN(4) < dictOf(m).more() {
		dictOf(m).fields(r, m, w)
	}
	quiet(m, w)
	return w
}

// variable tells whether the message's payload length is part of its content.
func variable(m pmsg) bool { return m.Type == "V2Extension" && m.pkg == "common" }

// setLen sets the payload length of a variable-length message.
func setLen(msg mavlink2.Message, n int) bool {
	v := reflect.ValueOf(msg).Elem().FieldByName("PayloadLength")
	if !v.IsValid() || !v.CanSet() || v.Kind() != reflect.Uint8 {
		return false
	}
	v.SetUint(uint64(n))
	return true
}

func getLen(msg mavlink2.Message) int {
	v := reflect.ValueOf(msg).Elem().FieldByName("PayloadLength")
	if !v.IsValid() {
		return -1
	}
	return int(v.Uint())
}

// wirePayload is the payload that the protocol prescribes for the values w.
func wirePayload(m pmsg, w []byte, version, plen int) []byte {
	if variable(m) {
		w = w[:5+plen]
		if version == 2 {
			return ref.Trim(w)
		}
		return w
	}
	if version == 1 {
		return w[:m.Min]
	}
	return ref.Trim(w)
}

func frameOf(b []byte) mavlink2.Frame {
	if b[0] == 0xfe {
		return mavlink2.FrameV1(b)
	}
	return mavlink2.FrameV2(b)
}

// showMsg describes a message for witnesses.
func showMsg(m pmsg) string { return fmt.Sprintf("%s.%s (ID %d)", m.pkg, m.Type, m.ID) }
