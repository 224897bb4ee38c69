package mv

import (
	"math/rand/v2"
	"slices"

	"verifharness/ref"
)

// solve gives the two bytes at at, as bits, with which the 16 bits that sum takes from b are want.
// sum is to be linear in each bit there; ok is false where no two bytes do.
func solve(b []byte, at int, want uint16, sum func([]byte) uint16) (lo, hi byte, ok bool) {
	b = slices.Clone(b)
	b[at], b[at+1] = 0, 0
	base := sum(b)
	var basis, from [16]uint16 // with this leading bit, by these input bits
	for i := range 16 {
		one := uint16(1) << i
		b[at], b[at+1] = byte(one), byte(one>>8)
		x, in := sum(b)^base, one
		for k := 15; k >= 0 && x != 0; k-- {
			if x>>k&1 == 0 {
				continue
			}
			if basis[k] == 0 {
				basis[k], from[k] = x, in
				break
			}
			x, in = x^basis[k], in^from[k]
		}
	}
	x, in := want^base, uint16(0)
	for k := 15; k >= 0; k-- {
		if x>>k&1 == 1 && basis[k] != 0 {
			x, in = x^basis[k], in^from[k]
		}
	}
	b[at], b[at+1] = byte(in), byte(in>>8)
	return byte(in), byte(in >> 8), sum(b) == want
}

func swapped(x uint16) uint16 { return x<<8 | x>>8 }

// crc16 is a checksum that somebody could take for X.25.
func crc16(poly, crc uint16, msb bool, data ...[]byte) uint16 {
	for _, d := range data {
		for _, b := range d {
			if msb {
				crc ^= uint16(b) << 8
			} else {
				crc ^= uint16(b)
			}
			for range 8 {
				switch {
				case msb && crc&0x8000 != 0:
					crc = crc<<1 ^ poly
				case msb:
					crc <<= 1
				case crc&1 != 0:
					crc = crc>>1 ^ poly
				default:
					crc >>= 1
				}
			}
		}
	}
	return crc
}

// aimed are the corruptions of f, each within two bytes of the header behind the length, flags and ID or of
// the payload, that a receiver would accept which got the checksum wrong in some way, or took some value of
// it for "none". Each is a burst of at most 16 bits.
func aimed(r *rand.Rand, f []byte, h ref.Header, extra byte, each func(how string, g []byte)) {
	end := h.HeaderLen + h.Len
	var places []int
	if h.Version == 1 {
		places = append(places, 2, 3)
	} else {
		places = append(places, 4, 5)
	}
	if h.Len >= 2 {
		places = append(places, end-2, end-2, h.HeaderLen, h.HeaderLen+r.IntN(h.Len-1))
	}
	at := places[r.IntN(len(places))]
	stored := h.Checksum(f)
	x := []byte{extra}
	right := func(b []byte) uint16 { return ref.X25(b[1:end], x) }
	ways := []struct {
		how  string
		want uint16
		sum  func([]byte) uint16
	}{
		{"without CRC_EXTRA", stored, func(b []byte) uint16 { return ref.X25(b[1:end]) }},
		{"with a CRC_EXTRA of 0", stored, func(b []byte) uint16 { return ref.X25(b[1:end], []byte{0}) }},
		{"with another CRC_EXTRA", stored, func(b []byte) uint16 { return ref.X25(b[1:end], []byte{extra ^ 1}) }},
		{"CRC_EXTRA first", stored, func(b []byte) uint16 { return ref.X25(x, b[1:end]) }},
		{"with the start byte", stored, func(b []byte) uint16 { return ref.X25(b[:end], x) }},
		{"without the length", stored, func(b []byte) uint16 { return ref.X25(b[2:end], x) }},
		{"of the payload", stored, func(b []byte) uint16 { return ref.X25(b[h.HeaderLen:end], x) }},
		{"of the header", stored, func(b []byte) uint16 { return ref.X25(b[1:h.HeaderLen], x) }},
		{"but for the last byte", stored, func(b []byte) uint16 { return ref.X25(b[1:end-1], x) }},
		{"with the checksum's first byte", stored, func(b []byte) uint16 { return ref.X25(b[1:end+1], x) }},
		{"starting from 0", stored, func(b []byte) uint16 { return crc16(0x8408, 0, false, b[1:end], x) }},
		{"with 0xa001", stored, func(b []byte) uint16 { return crc16(0xa001, 0xffff, false, b[1:end], x) }},
		{"with 0x1021", stored, func(b []byte) uint16 { return crc16(0x1021, 0xffff, true, b[1:end], x) }},
		{"with 0x1021 starting from 0", stored, func(b []byte) uint16 { return crc16(0x1021, 0, true, b[1:end], x) }},
		{"the other way round", swapped(stored), right},
		{"complemented", ^stored, right},
		{"one less", stored - 1, right},
		{"one more", stored + 1, right},
		{"equal in the low byte", stored ^ uint16(1+r.IntN(255))<<8, right},
		{"equal in the high byte", stored ^ uint16(1+r.IntN(255)), right},
		{"equal but for one bit", stored ^ 1<<r.IntN(16), right},
		{"equal but for the sign", stored ^ 0x8000, right},
		{"0", 0, right},
		{"0xffff", 0xffff, right},
		{"0, read without CRC_EXTRA", 0, func(b []byte) uint16 { return ref.X25(b[1:end]) }},
		{"what the length and ID say", uint16(f[1]), right},
	}
	for _, w := range ways {
		lo, hi, ok := solve(f, at, w.want, w.sum)
		if !ok || lo == f[at] && hi == f[at+1] {
			continue
		}
		g := slices.Clone(f)
		g[at], g[at+1] = lo, hi
		each(w.how, g)
	}
}

// aimedBursts holds Validate and streams to reject them.
func aimedBursts(p *P, r *rand.Rand, set *dset, m pmsg, f []byte, h ref.Header) {
	var data []byte
	bad := map[string]string{}
	aimed(r, f, h, m.CRC, func(how string, g []byte) {
		p.Count("aimed_bursts", 1)
		bad[string(g)] = how
		data = append(append(data, g...), f...)
		wit := map[string]string{"dialects": set.name, "frame": hexs(f), "corrupted": hexs(g), "how": "a receiver would take it whose checksum is " + how}
		if err := set.lib.Validate(frameOf(slices.Clone(g))); err == nil {
			p.Fail(wit, "Validate accepts a corrupted frame")
		}
	})
	data = append(data, make([]byte, 300)...)
	for _, x := range runRead(p, set, withEnd(chunks(r, data, r.IntN(4)), errWire), readOpts{}).frames {
		if how := bad[string(x.Raw)]; how != "" {
			p.Fail(map[string]string{"dialects": set.name, "frame": hexs(f), "corrupted": hexs(x.Raw), "how": "a receiver would take it whose checksum is " + how}, "a stream delivered a corrupted frame")
		}
	}
}
