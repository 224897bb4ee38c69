package mv

import (
	"math/bits"
	"math/rand/v2"
	"time"

	"verifharness/ref"
)

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return b
}

// anyByte is a header byte: any, but often one that a careless reader might take for something else.
func anyByte(r *rand.Rand) byte {
	if r.IntN(6) < dictCore.more() {
		if u, ok := dictCore.int(r, 255); ok {
			return byte(u)
		}
	}
	if r.IntN(3) == 0 {
		return []byte{0, 0, 1, 127, 128, 253, 254, 255}[r.IntN(8)]
	}
	return byte(r.IntN(256))
}

// payloadBytes makes payload bytes of several characters: random, sparse, zero-tailed, full of start bytes.
func payloadBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(6) {
	case 0:
	case 1:
		for i := 0; i < n; i++ {
			if r.IntN(8) == 0 {
				b[i] = byte(r.IntN(256))
			}
		}
	case 2:
		for i := range b {
			b[i] = [...]byte{0xfd, 0xfe, 0xfd, 0xfe, 0, 3, byte(r.IntN(256))}[r.IntN(7)]
		}
	case 3:
		copy(b, randBytes(r, r.IntN(n+1)))
	default:
		copy(b, randBytes(r, n))
	}
	if r.IntN(8) < dictCore.more() {
		dictCore.sprinkle(r, b)
	}
	return b
}

// pick gives a message of the set, now and then one that the source mentions.
func (s *dset) pick(r *rand.Rand) pmsg {
	if r.IntN(8) < dictCore.more()-1 {
		if u, ok := dictCore.int(r, 1<<24-1); ok {
			for _, m := range s.msgs {
				if uint64(m.ID) == u {
					return m
				}
			}
		}
	}
	return s.msgs[r.IntN(len(s.msgs))]
}

// anyID is a message ID: any, but often a small one or one that the source mentions.
func anyID(r *rand.Rand) uint32 {
	switch r.IntN(4) {
	case 0:
		return uint32(r.IntN(512))
	case 1:
		if u, ok := dictCore.int(r, 1<<24-1); ok {
			return uint32(u)
		}
	}
	return uint32(r.IntN(1 << 24))
}

// validFrame makes a frame that the set accepts, and says whether it is signed.
func validFrame(r *rand.Rand, s *dset, m pmsg) []byte {
	v := 2
	if m.ID < 256 && r.IntN(2) == 0 {
		v = 1
	}
	return validFrameV(r, m, v, r.IntN(4) == 0)
}

func validFrameV(r *rand.Rand, m pmsg, v int, signed bool) []byte {
	seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
	if v == 1 {
		n := m.Min
		if r.IntN(4) == 0 {
			n += r.IntN(m.Max - m.Min + 1)
		}
		p := payloadBytes(r, n)
		if r.IntN(6) < dictOf(m).more() {
			m.sprinkle(r, p)
		}
		return ref.Frame1(seq, sys, comp, byte(m.ID), p, m.CRC)
	}
	n := m.Max
	switch r.IntN(3) {
	case 0:
		n = r.IntN(m.Max + 1)
	case 1:
		n = r.IntN(m.Max + 1)
		if n > 12 {
			n = r.IntN(12)
		}
	}
	var sig []byte
	if signed {
		sig = payloadBytes(r, 13)
	}
	var inc, com byte
	if r.IntN(6) == 0 {
		inc = byte(r.IntN(256)) &^ 1
	}
	if r.IntN(3) == 0 {
		com = byte(r.IntN(256))
	}
	p := payloadBytes(r, n)
	if r.IntN(6) < dictOf(m).more() {
		m.sprinkle(r, p)
	}
	if r.IntN(3) == 0 {
		p = ref.Trim(p)
	}
	return ref.Frame2(inc, com, seq, sys, comp, m.ID, p, m.CRC, sig)
}

// stream is a generated byte stream and what went into it.
type stream struct {
	data  []byte
	kinds map[string]int
}

func (s *stream) add(kind string, b []byte) { s.data = append(s.data, b...); s.kinds[kind]++ }

// badFrame makes a well-shaped frame that the set rejects, one way or another.
func badFrame(r *rand.Rand, s *dset, m pmsg) (string, []byte) {
	f := validFrame(r, s, m)
	h, _ := ref.ParseHeader(f)
	if len(s.deny) > 0 && r.IntN(3) == 0 { // one that the dialect reports a failure for, nothing else wrong
		return "refused", validFrame(r, s, s.deny[r.IntN(len(s.deny))])
	}
	switch r.IntN(10) {
	case 8, 9: // the checksum of another convention
		return nearCRC(r, f, h, m)
	case 0: // one flipped bit anywhere
		f[r.IntN(len(f))] ^= 1 << r.IntN(8)
		return "bitflip", f
	case 1: // checksum off
		f[h.HeaderLen+h.Len+r.IntN(2)] += byte(1 + r.IntN(255))
		return "badcrc", f
	case 2: // wrong CRC_EXTRA
		p := h.Payload(f)
		if h.Version == 1 {
			return "badextra", ref.Frame1(h.Seq, h.Sys, h.Comp, byte(h.ID), p, m.CRC+byte(1+r.IntN(255)))
		}
		return "badextra", ref.Frame2(h.Incompat&^1, h.Compat, h.Seq, h.Sys, h.Comp, h.ID, p, m.CRC+byte(1+r.IntN(255)), nil)
	case 3: // too long, checksum right
		if m.Max < 255 {
			p := payloadBytes(r, m.Max+1+r.IntN(255-m.Max))
			if r.IntN(2) == 0 && m.ID < 256 {
				return "toolong", ref.Frame1(h.Seq, h.Sys, h.Comp, byte(m.ID), p, m.CRC)
			}
			return "toolong", ref.Frame2(0, 0, h.Seq, h.Sys, h.Comp, m.ID, p, m.CRC, nil)
		}
	case 4: // too short for V1, checksum right
		if m.ID < 256 && m.Min > 0 {
			return "tooshort", ref.Frame1(h.Seq, h.Sys, h.Comp, byte(m.ID), payloadBytes(r, r.IntN(m.Min)), m.CRC)
		}
	case 5: // unknown ID
		id := anyID(r)
		return "otherid", ref.Frame2(0, 0, h.Seq, h.Sys, h.Comp, id, payloadBytes(r, r.IntN(40)), byte(r.IntN(256)), nil)
	case 6: // cut short
		return "cut", f[:r.IntN(len(f))]
	}
	// an inner valid frame inside the payload of an invalid outer one
	in := validFrame(r, s, s.msgs[r.IntN(len(s.msgs))])
	if len(in) > 240 {
		in = in[:240]
	}
	pre, post := r.IntN(250-len(in)), 0
	if k := 255 - len(in) - pre; k > 0 {
		post = r.IntN(k)
	}
	p := append(append(randBytes(r, pre), in...), randBytes(r, post)...)
	return "nested", ref.Frame2(byte(r.IntN(2)), 0, h.Seq, h.Sys, h.Comp, m.ID, p, m.CRC+1, nil)
}

// crcFrom is the checksum with another start value.
func crcFrom(crc uint16, data ...[]byte) uint16 {
	for _, d := range data {
		for _, b := range d {
			crc ^= uint16(b)
			for i := 0; i < 8; i++ {
				if crc&1 != 0 {
					crc = crc>>1 ^ 0x8408
				} else {
					crc >>= 1
				}
			}
		}
	}
	return crc
}

// nearCRC gives a valid frame a checksum that only looks right: another byte order, start value, coverage or
// inversion. (What the frame is then, is for the reference to say.)
func nearCRC(r *rand.Rand, f []byte, h ref.Header, m pmsg) (string, []byte) {
	c := h.Checksum(f)
	end := h.HeaderLen + h.Len
	x := []byte{m.CRC}
	alt := c
	kind := ""
	switch r.IntN(14) {
	case 0:
		kind, alt = "swapped", bits.ReverseBytes16(c)
	case 1:
		kind, alt = "complement", ^c
	case 2:
		kind, alt = "zero", 0
	case 3:
		kind, alt = "ones", 0xffff
	case 4:
		kind, alt = "no_extra", crcFrom(0xffff, f[1:end])
	case 5:
		kind, alt = "init0", crcFrom(0, f[1:end], x)
	case 6:
		kind, alt = "with_start", crcFrom(0xffff, f[:end], x)
	case 7:
		kind, alt = "payload_only", crcFrom(0xffff, f[h.HeaderLen:end], x)
	case 8:
		kind, alt = "extra_first", crcFrom(0xffff, x, f[1:end])
	case 9:
		kind, alt = "reversed_bits", bits.Reverse16(c)
	case 10:
		kind, alt = "low_byte_only", c^uint16(1+r.IntN(255))<<8
	case 11:
		kind, alt = "high_byte_only", c^uint16(1+r.IntN(255))
	case 12:
		kind, alt = "off_by_one", c+1-uint16(2*r.IntN(2))
	case 13: // without the flags or the message ID's high bytes
		kind, alt = "less_header", crcFrom(0xffff, f[1:2], f[min(4, end):end], x)
	}
	f[end], f[end+1] = byte(alt), byte(alt>>8)
	return "crc_" + kind, f
}

// pause is a time that a peer, a consumer or a link may take: none or little mostly, and now and then minutes,
// hours, days. It is virtual time.
func pause(r *rand.Rand) time.Duration {
	switch r.IntN(20) {
	case 0:
		return time.Duration(1+r.IntN(100)) * time.Hour
	case 1:
		return time.Duration(1+r.IntN(60)) * time.Minute
	case 2, 3, 4:
		return time.Duration(1+r.IntN(60)) * time.Second
	case 5, 6, 7, 8, 9:
		return 0
	}
	return time.Duration(r.IntN(2000)) * time.Millisecond
}

// long is longer than everything else in a case takes, and still fits the clock a few times.
const long = 400000 * time.Hour

// genStream mixes valid frames, rejected frames, noise and false starts; with pad the end is followed by
// enough quiet bytes for every candidate before it to be complete.
func genStream(r *rand.Rand, s *dset, segs int, pad bool) *stream {
	st := &stream{kinds: map[string]int{}}
	style := r.IntN(4)
	last := 0
	for i := 0; i < segs; i++ {
		if len(st.data) > last && r.IntN(10) == 0 { // the same again
			st.add("repeated", append([]byte(nil), st.data[last:]...))
			continue
		}
		last = len(st.data)
		var m pmsg
		if len(s.msgs) > 0 {
			m = s.pick(r)
		} else {
			d := schemaOf("common")
			m = pmsg{&d.Msgs[r.IntN(len(d.Msgs))], "common"}
			s = mkset("common")
		}
		k := r.IntN(12)
		if style == 0 {
			k = r.IntN(4)
		} else if style == 1 && k < 5 {
			k = 5 + r.IntN(7)
		}
		switch {
		case k < 4:
			f := validFrame(r, s, m)
			if h, _ := ref.ParseHeader(f); h.Signed {
				st.kinds["signed"]++
			} else if h.Version == 1 {
				st.kinds["v1"]++
			}
			st.add("valid", f)
		case k < 8:
			st.add(badFrame(r, s, m))
		case k == 8:
			st.add("noise", randBytes(r, 1+r.IntN(60)))
		case k == 9:
			b := make([]byte, 1+r.IntN(12))
			for i := range b {
				b[i] = 0xfd + byte(r.IntN(2))
			}
			st.add("starts", b)
		case k == 10: // a false start, shorter than its frame
			st.add("falsestart", []byte{0xfd + byte(r.IntN(2)), byte(r.IntN(256)), byte(r.IntN(4))}[:1+r.IntN(3)])
		case k == 11:
			b := payloadBytes(r, 1+r.IntN(40))
			st.add("noise", b)
		}
	}
	if pad {
		st.data = append(st.data, make([]byte, 300)...)
	}
	return st
}

// chunks cuts b into reads.
func chunks(r *rand.Rand, b []byte, style int) (out []step) {
	for len(b) > 0 {
		n := len(b)
		switch style {
		case 0:
		case 1:
			n = 1
		case 2:
			n = 1 + r.IntN(7)
		case 3:
			n = 1 + r.IntN(300)
		case 4: // datagrams, zero-length ones among them
			if r.IntN(5) == 0 {
				out = append(out, step{})
			}
			if r.IntN(150) == 0 { // a shower of empty ones
				for k := 100 + r.IntN(400); k > 0; k-- {
					out = append(out, step{})
				}
			}
			n = 1 + r.IntN(40)
		case 5: // around the bufio and frame buffer sizes
			n = []int{279, 280, 281, 557, 558, 559, 4095, 4096, 4097, 263, 1500}[r.IntN(11)]
		}
		n = min(n, len(b))
		out = append(out, step{data: b[:n:n]})
		b = b[n:]
	}
	return
}

const chunkStyles = 6

// packets cuts b into datagrams of up to the size that UDP allows.
func packets(r *rand.Rand, b []byte) (out []step) {
	most := []int{280, 1400, 5000, 65507}[r.IntN(4)]
	for len(b) > 0 {
		n := min(len(b), 1+r.IntN(most))
		out = append(out, step{data: b[:n:n]})
		b = b[n:]
	}
	return
}

// longHaul is a stream of very many frames, with some trouble in between.
func longHaul(r *rand.Rand, s *dset, frames int) []byte {
	var b []byte
	for k := 0; k < frames; k++ {
		m := s.msgs[r.IntN(len(s.msgs))]
		v := 2
		if m.ID < 256 && r.IntN(2) == 0 {
			v = 1
		}
		b = append(b, validFrameV(r, m, v, r.IntN(8) == 0)...)
		if r.IntN(16) == 0 {
			_, x := badFrame(r, s, m)
			b = append(b, x...)
		}
	}
	return append(b, make([]byte, 300)...)
}
