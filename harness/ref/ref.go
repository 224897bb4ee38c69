package ref

import (
	_ "embed"
	"encoding/json"
	"fmt"
)

//go:embed schema.json
var schemaJSON []byte

// Load parses the committed schema and checks that it is consistent with itself.
func Load() *Schema {
	var s Schema
	if err := json.Unmarshal(schemaJSON, &s); err != nil {
		panic(err)
	}
	for _, d := range s.Dialects {
		for _, m := range d.Msgs {
			base, all := 0, 0
			for _, f := range m.Fields {
				all += f.Size()
				if !f.Ext {
					base += f.Size()
				}
			}
			if all != m.Max || base != m.Min {
				panic(fmt.Sprintf("schema: %s/%s %d %d %d %d", d.Package, m.Type, base, m.Min, all, m.Max))
			}
		}
	}
	return &s
}

// X25 is CRC-16/MCRF4XX (the checksum MAVLink uses), bit by bit.
func X25(data ...[]byte) uint16 {
	crc := uint16(0xffff)
	for _, d := range data {
		for _, b := range d {
			crc ^= uint16(b)
			for i := 0; i < 8; i++ {
				if crc&1 != 0 {
					crc = crc>>1 ^ 0x8408
				} else {
					crc >>= 1
				}
			}
		}
	}
	return crc
}

// Entry is what a receiver has to know about a message to check a frame.
type Entry struct {
	CRC      byte
	Min, Max int
	Refuse   bool // the dialect reports a failure of its own for this ID
}

// Table is the checking table of one dialect.
type Table map[uint32]Entry

// TableOf makes the table of a dialect.
func TableOf(d Dialect) Table {
	t := Table{}
	for _, m := range d.Msgs {
		t[m.ID] = Entry{CRC: m.CRC, Min: m.Min, Max: m.Max}
	}
	return t
}

// Tables are searched in order: the first one that knows an ID decides.
type Tables []Table

// Find looks an ID up.
func (ts Tables) Find(id uint32) (Entry, int, bool) {
	for i, t := range ts {
		if e, ok := t[id]; ok {
			return e, i, true
		}
	}
	return Entry{}, -1, false
}

// Verdict is what a receiver says of a frame.
type Verdict int

// The verdicts.
const (
	OK Verdict = iota
	Unknown
	TooShort
	TooLong
	BadCRC
	Refused
)

func (v Verdict) String() string {
	return [...]string{"valid", "unknown message", "too short", "too long", "bad checksum", "refused by a dialect"}[v]
}

// Header is a decoded frame header.
type Header struct {
	Version          int
	Len              int
	Incompat, Compat byte
	Seq, Sys, Comp   byte
	ID               uint32
	HeaderLen        int
	FrameLen         int
	Signed           bool
}

// ParseHeader reads the header of a frame; ok is false if b does not start with a start byte.
// It needs 3 bytes to tell the length, and the whole header for the rest.
func ParseHeader(b []byte) (h Header, ok bool) {
	if len(b) < 3 {
		return h, false
	}
	get := func(i int) byte {
		if i < len(b) {
			return b[i]
		}
		return 0
	}
	switch b[0] {
	case 0xfe:
		h = Header{Version: 1, Len: int(b[1]), Seq: b[2], Sys: get(3), Comp: get(4), ID: uint32(get(5)), HeaderLen: 6}
		h.FrameLen = 6 + h.Len + 2
	case 0xfd:
		h = Header{Version: 2, Len: int(b[1]), Incompat: b[2], Compat: get(3), Seq: get(4), Sys: get(5), Comp: get(6),
			ID: uint32(get(7)) | uint32(get(8))<<8 | uint32(get(9))<<16, HeaderLen: 10}
		h.Signed = h.Incompat&1 != 0
		h.FrameLen = 10 + h.Len + 2
		if h.Signed {
			h.FrameLen += 13
		}
	default:
		return h, false
	}
	return h, true
}

// Payload is the payload of a complete frame.
func (h Header) Payload(b []byte) []byte { return b[h.HeaderLen : h.HeaderLen+h.Len] }

// Checksum is the checksum a complete frame carries.
func (h Header) Checksum(b []byte) uint16 {
	return uint16(b[h.HeaderLen+h.Len]) | uint16(b[h.HeaderLen+h.Len+1])<<8
}

// Check judges a complete frame.
func (ts Tables) Check(b []byte) Verdict {
	h, ok := ParseHeader(b)
	if !ok || len(b) < h.FrameLen {
		panic("ref.Check: incomplete frame")
	}
	e, _, known := ts.Find(h.ID)
	switch {
	case !known:
		return Unknown
	case e.Refuse:
		return Refused
	case h.Version == 1 && h.Len < e.Min:
		return TooShort
	case h.Len > e.Max:
		return TooLong
	case X25(b[1:h.HeaderLen+h.Len], []byte{e.CRC}) != h.Checksum(b):
		return BadCRC
	}
	return OK
}

// Cand is one frame candidate found by the scan.
type Cand struct {
	Start, End int
	V          Verdict
	// Tail: an earlier candidate was still incomplete when the bytes ran out, so that a receiver
	// that waits for it does not reach this one.
	Tail bool
}

// Scan is the receiver: left to right, at each start byte the candidate frame is judged once it is
// complete; a valid frame is consumed whole, anything else costs one byte.
func (ts Tables) Scan(b []byte) []Cand {
	var out []Cand
	tail := false
	for p := 0; p < len(b); {
		if b[p] != 0xfd && b[p] != 0xfe {
			p++
			continue
		}
		h, ok := ParseHeader(b[p:])
		if !ok || len(b)-p < h.FrameLen {
			tail = true
			p++
			continue
		}
		v := ts.Check(b[p : p+h.FrameLen])
		out = append(out, Cand{p, p + h.FrameLen, v, tail})
		if v == OK {
			p += h.FrameLen
		} else {
			p++
		}
	}
	return out
}

// Seal computes the checksum of a frame whose header and payload are in b (nothing after them).
func Seal(b []byte, crcExtra byte) []byte {
	c := X25(b[1:], []byte{crcExtra})
	return append(b, byte(c), byte(c>>8))
}

// Frame1 builds a V1 frame.
func Frame1(seq, sys, comp byte, id byte, payload []byte, extra byte) []byte {
	b := append([]byte{0xfe, byte(len(payload)), seq, sys, comp, id}, payload...)
	return Seal(b, extra)
}

// Frame2 builds a V2 frame; sig is nil or the 13 signature bytes (then bit 0 of incompat is set).
func Frame2(incompat, compat, seq, sys, comp byte, id uint32, payload []byte, extra byte, sig []byte) []byte {
	if sig != nil {
		incompat |= 1
	}
	b := append([]byte{0xfd, byte(len(payload)), incompat, compat, seq, sys, comp, byte(id), byte(id >> 8), byte(id >> 16)}, payload...)
	b = Seal(b, extra)
	return append(b, sig...)
}

// Trim removes the trailing zero bytes of a V2 payload, but never the first byte.
func Trim(p []byte) []byte {
	n := len(p)
	for n > 1 && p[n-1] == 0 {
		n--
	}
	return p[:n]
}
