package mv

import (
	"errors"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"strings"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

func init() {
	props["C08"] = encode
	props["C09"] = decode
	props["C10"] = forward
	props["C11"] = contracts
	props["C12"] = tables
	props["C13"] = resolution
}

// libFor is the dialect alone, or together with others that do not know the message.
func libFor(r *rand.Rand, m pmsg) (mavlink2.Dialects, string) {
	if r.IntN(3) > 0 {
		return mavlink2.Dialects{libDialects[m.pkg]}, m.pkg
	}
	var before, after []string
	for _, pk := range packages() {
		if pk == m.pkg {
			continue
		}
		knows := false
		for _, x := range schemaOf(pk).Msgs {
			knows = knows || x.ID == m.ID
		}
		switch {
		case r.IntN(3) == 0 && !knows:
			before = append(before, pk)
		case r.IntN(3) == 0:
			after = append(after, pk)
		}
	}
	s := mkset(append(append(before, m.pkg), after...)...)
	return s.lib, s.name
}

// hasExt is what HasExtensionFieldValues has to be; ok is false if there is no such field or it does not matter.
func setExt(msg mavlink2.Message, on bool) {
	b := raw(msg, ref.Field{Name: "HasExtensionFieldValues", Type: "bool"})
	if b != nil {
		b[0] = 0
		if on {
			b[0] = 1
		}
	}
}

func sweep(p *P, per int, f func(r *rand.Rand, m pmsg, k int)) {
	i := 0
	for _, m := range allMsgs() {
		for k := 0; k < per; k++ {
			if p.Failed() {
				return
			}
			p.Doing("%s, case %d", showMsg(m), k)
			f(p.Rand(i), m, k)
			i++
			p.Eval()
		}
		p.Count("message_types", 1)
	}
}

// encode: a built frame is, byte for byte, what the protocol prescribes.
func encode(p *P) {
	p.rule = "a case is a message type, a full set of field values (random, sparse, boundary, all ones, all zero, zero-tailed), header values, a version and a dialect set that resolves the message to that type; the frame from GetFrame is compared with the reference encoder's byte for byte, and must pass Validate; every message type in every version it has; and messages of user-defined types, IDs, lengths and dialects; non-trivial if the payload is not all zero"
	sweep(p, p.N(700, 20000), func(r *rand.Rand, m pmsg, k int) {
		w := values(r, m)
		msg := newMsg(m)
		if err := fill(msg, m, w); err != nil {
			p.Fail(nil, "%v", err)
			return
		}
		setExt(msg, r.IntN(2) == 0)
		v := 2
		if m.ID < 256 && k%2 == 0 {
			v = 1
		}
		plen := 0
		if variable(m) {
			plen = r.IntN(250)
			if r.IntN(4) == 0 {
				plen = []int{0, 1, 248, 249}[r.IntN(4)]
			}
			if !setLen(msg, plen) {
				p.Fail(nil, "V2Extension has no PayloadLength")
				return
			}
		}
		seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
		lib, name := libFor(r, m)
		var f mavlink2.Frame
		var err error
		wit := map[string]any{"message": showMsg(m), "values": hexs(w), "version": v, "sys": sys, "comp": comp, "seq": seq, "dialects": name, "payloadLength": plen}
		if pan, st := Guarded(func() { f, err = lib.GetFrame(v, sys, comp, seq, msg) }); pan != nil {
			wit["stack"] = st
			p.Fail(wit, "GetFrame panicked: %v", pan)
			return
		}
		if err != nil || f == nil {
			p.Fail(wit, "GetFrame failed: %v", err)
			return
		}
		if now, err := fieldsOf(msg, m); err != nil || !same(now, w) || variable(m) && getLen(msg) != plen {
			p.Fail(wit, "building a frame changed the message: %x, %v", now, err)
		}
		pl := wirePayload(m, w, v, plen)
		want := ref.Frame2(0, 0, seq, sys, comp, m.ID, pl, m.CRC, nil)
		if v == 1 {
			want = ref.Frame1(seq, sys, comp, byte(m.ID), pl, m.CRC)
		}
		if !same(f.Bytes(), want) || f.GetVersion() != v {
			p.Fail(wit, "GetFrame built %x (version %d), and should have built %x", f.Bytes(), f.GetVersion(), want)
			return
		}
		if err := lib.Validate(f); err != nil {
			p.Fail(wit, "Validate rejects the built frame %x: %v", want, err)
		}
		p.Count(fmt.Sprintf("v%d", v), 1)
		if v == 2 && len(pl) < m.Max {
			p.Count("truncated", 1)
		}
		if strings.Trim(string(pl), "\x00") != "" {
			p.Distinct(want)
		}
		if k == 0 && m.ID%37 == 0 {
			p.Sample(map[string]any{"message": showMsg(m), "frame": hexs(want)})
		}
	})
	customs(p)
}

// customs: messages and dialects that are not the library's own, of any ID, length and content.
func customs(p *P) {
	for i := 0; i < p.N(60000, 1000000) && !p.Failed(); i++ {
		r := p.Rand(1<<27 + i)
		m := &custom{id: uint32(r.IntN(300)), pl: payloadBytes(r, r.IntN(256))}
		switch r.IntN(4) {
		case 0:
			m.id = anyID(r)
		case 1:
			m.id = []uint32{0, 1, 254, 255, 256, 257, 1<<16 - 1, 1 << 16, 1<<24 - 1}[r.IntN(9)]
		}
		switch r.IntN(6) {
		case 0:
			m.pl = payloadBytes(r, []int{0, 1, 254, 255, 256, 257, 300, 511, 512, 513, 1 << 16, 1<<16 + 5}[r.IntN(12)])
		case 1:
			m.err = errWrite
		}
		pl := append([]byte(nil), m.pl...)
		m.pl = append(make([]byte, 0, len(pl)+r.IntN(3)), pl...) // with room behind it, or without
		e := ref.Entry{CRC: byte(r.IntN(256)), Min: 0, Max: 255}
		lib := mavlink2.Dialects{synth{tab: ref.Table{m.id: e}}}
		v := 1 + r.IntN(2)
		if r.IntN(16) == 0 {
			v = r.IntN(600) - 300
			if vs := oddVersions(); r.IntN(2) == 0 {
				v = vs[r.IntN(len(vs))]
			}
		}
		seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
		wit := map[string]any{"id": m.id, "payload": hexs(pl[:min(len(pl), 600)]), "length": len(pl), "version": v, "write_error": fmt.Sprint(m.err), "crc_extra": e.CRC}
		p.Doing("custom message %d: ID %d, %d bytes, version %d, error %v", i, m.id, len(pl), v, m.err)
		var f mavlink2.Frame
		var err error
		if pan, st := Guarded(func() { f, err = lib.GetFrame(v, sys, comp, seq, m) }); pan != nil {
			wit["stack"] = st
			p.Fail(wit, "GetFrame panicked: %v", pan)
			continue
		}
		p.Eval()
		p.Distinct(pl, []byte(fmt.Sprint(m.id, v, m.err)))
		if !same(m.pl, pl) {
			p.Fail(wit, "building a frame changed the message's payload")
		}
		// the reasons to refuse; where there are several, any of them
		var why []error
		if v != 1 && v != 2 {
			why = append(why, mavlink2.ErrUnsupportedVersion)
		}
		if m.err != nil {
			why = append(why, m.err)
		}
		if v == 1 && m.id > 255 {
			why = append(why, mavlink2.ErrEncodeV2MessageV1Frame)
		}
		if len(pl) > 255 {
			why = append(why, mavlink2.ErrMessageTooLong)
		}
		if len(why) > 0 {
			ok := false
			for _, w := range why {
				ok = ok || err == w
			}
			if !ok || f != nil {
				p.Fail(wit, "GetFrame gives frame %v, %v, and should refuse with one of %v", f, err, why)
			}
			p.Count("custom_refused", 1)
			continue
		}
		want := ref.Frame2(0, 0, seq, sys, comp, m.id, pl, e.CRC, nil)
		if v == 1 {
			want = ref.Frame1(seq, sys, comp, byte(m.id), pl, e.CRC)
		}
		if err != nil || f == nil || !same(f.Bytes(), want) || f.GetVersion() != v {
			p.Fail(wit, "GetFrame gives %v, %v, and should have built %x", f, err, want)
		} else if err := lib.Validate(f); err != nil {
			p.Fail(wit, "Validate rejects the built frame %x: %v", want, err)
		}
		p.Count("custom_built", 1)
	}
}

// custom is a message as a user may define one.
type custom struct {
	id  uint32
	pl  []byte
	err error
}

func (m *custom) GetVersion() int             { return 2 }
func (m *custom) GetDialect() string          { return "custom" }
func (m *custom) GetMessageName() string      { return "CUSTOM" }
func (m *custom) GetID() uint32               { return m.id }
func (m *custom) Read(f mavlink2.Frame) error { return nil }
func (m *custom) Write(v int) ([]byte, error) {
	return m.pl, m.err
}

// oddVersions are frame versions that there are not, some of them like 1 and 2 in their lower bits.
func oddVersions() []int {
	vs := []int{-1 << 31, -1<<31 + 1, -1<<31 + 2, -2, -1, 0, 3, 4, 10, 255, 256, 257, 258, 1<<16 + 1, 1<<16 + 2, 1<<24 + 1, 1<<31 - 1}
	if bits.UintSize == 64 {
		up := bits.UintSize / 2
		vs = append(vs, 1<<up, 1<<up+1, 1<<up+2, -1<<up+1, -1<<up+2)
	}
	return vs
}

// decode: a decoded message has the field values on the wire.
func decode(p *P) {
	p.rule = "a case is a frame of a message type built by the reference encoder (any field values; V1; V2 whole, trimmed, cut anywhere after the last non-zero byte, signed); decoded through a dialect set, or into a message object that held another value; type, ID, names and every field bit are compared; non-trivial if the payload is not all zero"
	sweep(p, p.N(700, 20000), func(r *rand.Rand, m pmsg, k int) {
		w := values(r, m)
		v := 2
		if m.ID < 256 && k%2 == 0 {
			v = 1
			if !variable(m) {
				clear(w[m.Min:]) // a V1 frame has no extension fields
			}
		}
		plen := 0
		var pl []byte
		if variable(m) {
			plen = r.IntN(250)
			clear(w[5+plen:])
			pl = w[:5+plen]
			if v == 2 && r.IntN(2) == 0 {
				pl = ref.Trim(pl)
			}
		} else if v == 1 {
			pl = w[:m.Min]
		} else {
			pl = ref.Trim(w)
			if c := r.IntN(4); c == 0 { // not trimmed, or not wholly
				pl = w[:len(pl)+r.IntN(m.Max-len(pl)+1)]
			} else if c == 1 && len(pl) == 1 && pl[0] == 0 {
				pl = nil
			}
		}
		var sig []byte
		if r.IntN(4) == 0 {
			sig = payloadBytes(r, 13)
		}
		seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
		var inc, com byte
		if r.IntN(4) == 0 {
			inc, com = byte(r.IntN(256))&^1, byte(r.IntN(256))
		}
		b := ref.Frame2(inc, com, seq, sys, comp, m.ID, pl, m.CRC, sig)
		if v == 1 {
			b = ref.Frame1(seq, sys, comp, byte(m.ID), pl, m.CRC)
		}
		lib, name := libFor(r, m)
		wit := map[string]any{"message": showMsg(m), "frame": hexs(b), "values": hexs(w), "dialects": name}
		keep := append([]byte(nil), b...)
		var msg mavlink2.Message
		var err error
		reuse := r.IntN(3) == 0
		if pan, st := Guarded(func() {
			if reuse {
				msg = newMsg(m)
				old := make([]byte, m.Max)
				for i := range old {
					old[i] = 0xff
				}
				fill(msg, m, old)
				if variable(m) {
					setLen(msg, 249)
				} else if r.IntN(2) == 0 {
					put(msg, ref.Field{Name: "HasExtensionFieldValues", Type: "bool"}, []byte{1})
				}
				err = msg.Read(frameOf(b))
			} else {
				msg, err = lib.GetMessage(frameOf(b))
			}
		}); pan != nil {
			wit["stack"] = st
			p.Fail(wit, "decoding panicked: %v", pan)
			return
		}
		if err != nil {
			p.Fail(wit, "decoding failed: %v", err)
			return
		}
		wantType := fmt.Sprintf("%T", newMsg(m))
		if got := fmt.Sprintf("%T", msg); got != wantType || msg.GetID() != m.ID {
			p.Fail(wit, "decoded into %s with ID %d, and should be %s", got, msg.GetID(), wantType)
			return
		}
		got, err := fieldsOf(msg, m)
		if err != nil {
			p.Fail(wit, "%v", err)
			return
		}
		if !same(got, w) {
			p.Fail(wit, "decoded field values %x, and should be %x%s", got, w, diffField(m, got, w))
		}
		if variable(m) {
			// a V2 sender may have cut trailing zeros of the payload: the length is what arrived
			if want := max(len(pl)-5, 0); getLen(msg) != want {
				p.Fail(wit, "PayloadLength is %d, and should be %d", getLen(msg), want)
			}
		}
		if !same(keep, b) {
			p.Fail(wit, "decoding changed the frame")
		}
		// what it says about its extension fields
		ext := false
		for _, f := range m.Fields {
			ext = ext || f.Ext
		}
		if x := raw(msg, ref.Field{Name: "HasExtensionFieldValues", Type: "bool"}); x != nil && !variable(m) {
			marked := x[0] != 0
			if marked != (ext && v == 2) {
				p.Fail(wit, "HasExtensionFieldValues is %v; the type has extension fields: %v; the frame is of version %d", marked, ext, v)
			} else if want := map[bool]int{true: 2, false: 1}[marked]; msg.GetVersion() != want && (marked || m.ID < 256) {
				p.Fail(wit, "the message holds extension fields: %v; and its version is %d", marked, msg.GetVersion())
			}
			p.Count("extension_marks", 1)
		}
		p.Count(fmt.Sprintf("v%d", v), 1)
		if reuse {
			p.Count("reused_objects", 1)
		}
		if strings.Trim(string(pl), "\x00") != "" {
			p.Distinct(b)
		}
		if k == 0 && m.ID%37 == 0 {
			p.Sample(map[string]any{"message": showMsg(m), "frame": hexs(b)})
		}
	})
}

func diffField(m pmsg, a, b []byte) string {
	at := 0
	for _, f := range m.Fields {
		if !same(a[at:at+f.Size()], b[at:at+f.Size()]) {
			return fmt.Sprintf(" (field %s: %x, %x)", f.Name, a[at:at+f.Size()], b[at:at+f.Size()])
		}
		at += f.Size()
	}
	return ""
}

// forward: decode, re-encode with the same header: the same bytes.
func forward(p *P) {
	p.rule = "a case is a canonical frame (unsigned; V2 payload trimmed) with arbitrary payload bytes, decoded and built again with the version and header of the original: the bytes must be the same; an untrimmed V2 frame must come out as its trimmed form; and a second pass changes nothing; non-trivial if the payload is not all zero. Float32 signalling NaN patterns are the listed finding snan: they are sent in separate cases"
	sweep(p, p.N(700, 20000), func(r *rand.Rand, m pmsg, k int) {
		v := 2
		if m.ID < 256 && k%2 == 0 {
			v = 1
		}
		w := values(r, m)
		snan := false
		if k%20 == 19 {
			w = make([]byte, m.Max)
			at := 0
			for _, f := range m.Fields {
				for i := 0; i < f.N() && f.Type == "float32"; i++ {
					copy(w[at+4*i:], []byte{byte(1 + r.IntN(255)), byte(r.IntN(256)), 0x80 | byte(r.IntN(64)), 0x7f | byte(r.IntN(2))<<7})
					snan = true
				}
				at += f.Size()
			}
			q := append([]byte(nil), w...)
			if !quiet(m, q) {
				snan = false
			}
		}
		plen := 0
		if variable(m) {
			plen = r.IntN(250)
		}
		pl := wirePayload(m, w, v, plen)
		if v == 2 && variable(m) && len(pl) < 5 {
			// the truncated part of the fixed fields comes back as zero bytes, which are trimmed again
			p.Count("short_v2_extension", 1)
		}
		canon := pl
		if v == 2 && !variable(m) && r.IntN(4) == 0 {
			pl = w[:len(pl)+r.IntN(m.Max-len(pl)+1)]
			p.Count("untrimmed", 1)
		}
		seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
		b, want := ref.Frame2(0, 0, seq, sys, comp, m.ID, pl, m.CRC, nil), ref.Frame2(0, 0, seq, sys, comp, m.ID, canon, m.CRC, nil)
		if v == 1 {
			b = ref.Frame1(seq, sys, comp, byte(m.ID), pl, m.CRC)
			want = b
		}
		lib, name := libFor(r, m)
		wit := map[string]any{"message": showMsg(m), "frame": hexs(b), "dialects": name}
		cur := b
		for pass := 0; pass < 2; pass++ {
			var f mavlink2.Frame
			var err error
			if pan, st := Guarded(func() {
				in := frameOf(append([]byte(nil), cur...))
				var msg mavlink2.Message
				if msg, err = lib.GetMessage(in); err == nil {
					f, err = lib.GetFrame(in.GetVersion(), in.GetSenderSystemID(), in.GetSenderComponentID(), uint8(in.GetMessageSequence()), msg)
				}
			}); pan != nil {
				wit["stack"] = st
				p.Fail(wit, "forwarding panicked: %v", pan)
				return
			}
			if err != nil {
				p.Fail(wit, "forwarding failed: %v", err)
				return
			}
			if !same(f.Bytes(), want) {
				if snan {
					// the listed finding, if quieting explains all of the difference
					q := append([]byte(nil), w...)
					quiet(m, q)
					qp := wirePayload(m, q, v, plen)
					qw := ref.Frame2(0, 0, seq, sys, comp, m.ID, qp, m.CRC, nil)
					if v == 1 {
						qw = ref.Frame1(seq, sys, comp, byte(m.ID), qp, m.CRC)
					}
					if same(f.Bytes(), qw) {
						p.Known("snan", "a float32 field that holds a signalling NaN is forwarded as a quiet NaN")
						p.Count("snan_quieted", 1)
						return
					}
				}
				p.Fail(wit, "pass %d: %x was forwarded as %x, and should be %x", pass+1, cur, f.Bytes(), want)
				return
			}
			cur = append([]byte(nil), f.Bytes()...)
		}
		p.Count(fmt.Sprintf("v%d", v), 1)
		if strings.Trim(string(pl), "\x00") != "" {
			p.Distinct(b)
		}
		if k == 0 && m.ID%37 == 0 {
			p.Sample(map[string]any{"message": showMsg(m), "frame": hexs(b)})
		}
	})
}

// contracts: what cannot be encoded or decoded is refused with the documented error, and nothing else.
func contracts(p *P) {
	p.rule = "a case is a message type or unknown ID with a version number (all of -2..300, extremes, 1 and 2) given to Write and GetFrame, or a frame whose version cannot carry or does not know the message; the error is compared with the documented one, and a refusal returns no frame; and messages of user-defined types that a frame cannot hold, or whose Write fails; distinct by message and version"
	vs := oddVersions()
	sweep(p, p.N(300, 8000), func(r *rand.Rand, m pmsg, k int) {
		msg := newMsg(m)
		w := values(r, m)
		if err := fill(msg, m, w); err != nil {
			p.Fail(nil, "%v", err)
			return
		}
		lib, name := libFor(r, m)
		v := vs[k%len(vs)]
		if k >= len(vs) {
			v = r.IntN(600) - 300
			if v == 1 || v == 2 {
				v = 0
			}
		}
		wit := map[string]any{"message": showMsg(m), "version": v, "values": hexs(w), "dialects": name}
		bad := func(format string, a ...any) { p.Fail(wit, format, a...) }
		pan, st := Guarded(func() {
			if _, err := msg.Write(v); err != mavlink2.ErrUnsupportedVersion {
				bad("Write(%d) says %v", v, err)
			}
			if f, err := lib.GetFrame(v, 1, 2, 3, msg); err != mavlink2.ErrUnsupportedVersion || f != nil {
				bad("GetFrame(%d) says %v, frame %v", v, err, f)
			}
			out1, err := msg.Write(1)
			f1, ferr := lib.GetFrame(1, 1, 2, 3, msg)
			if m.ID > 255 {
				if err != mavlink2.ErrEncodeV2MessageV1Frame || ferr != mavlink2.ErrEncodeV2MessageV1Frame || f1 != nil || len(out1) != 0 {
					bad("the ID does not fit a V1 frame, but Write(1) gives %x, %v and GetFrame %v, %v", out1, err, f1, ferr)
				}
				p.Count("v2_only", 1)
			} else if err != nil || ferr != nil {
				bad("Write(1) says %v, GetFrame(1) %v", err, ferr)
			}
			if out2, err := msg.Write(2); err != nil || len(out2) == 0 || len(out2) > 255 {
				bad("Write(2) gives %x, %v", out2, err)
			}
			// decoding from a V1 frame a message that V1 cannot carry
			fr := &oddFrame{FrameV2: mavlink2.FrameV2(ref.Frame2(0, 0, 1, 2, 3, m.ID, w, m.CRC, nil)), version: 1}
			if m.ID > 255 {
				if err := newMsg(m).Read(fr); err != mavlink2.ErrDecodeV2MessageV1Frame {
					bad("Read of a V1 frame says %v", err)
				}
				if _, err := lib.GetMessage(fr); err != mavlink2.ErrDecodeV2MessageV1Frame {
					bad("GetMessage of a V1 frame says %v", err)
				}
			}
			fr.version = v
			if err := newMsg(m).Read(fr); err != mavlink2.ErrUnsupportedVersion {
				bad("Read of a frame of version %d says %v", v, err)
			}
		})
		if pan != nil {
			wit["stack"] = st
			bad("panic: %v", pan)
		}
		p.Distinct([]byte(m.pkg), []byte(m.Type), []byte(fmt.Sprint(v)))
		if k == 0 && m.ID%37 == 0 {
			p.Sample(map[string]any{"message": showMsg(m), "version": v})
		}
	})
	customs(p)
	// unknown messages, and the order of refusals
	for i := 0; i < p.N(30000, 500000) && !p.Failed(); i++ {
		r := p.Rand(1<<26 + i)
		set := pickSet(r)
		id := anyID(r)
		_, _, known := set.tabs.Find(id)
		if known {
			continue
		}
		pl := payloadBytes(r, r.IntN(256))
		um := &mavlink2.UnknownMessage{ID: id, Version: 2, Raw: pl}
		wit := map[string]any{"id": id, "dialects": set.name, "payload": hexs(pl)}
		p.Doing("unknown ID %d, dialects %s", id, set.name)
		pan, st := Guarded(func() {
			for _, v := range []int{1, 2} {
				if f, err := set.lib.GetFrame(v, 1, 2, 3, um); err != mavlink2.ErrUnknownMessage || f != nil {
					p.Fail(wit, "GetFrame(%d) of an unknown message says %v, frame %v", v, err, f)
				}
			}
			b := ref.Frame2(0, 0, 9, 8, 7, id, pl, 0, nil)
			if id < 256 && r.IntN(2) == 0 {
				b = ref.Frame1(9, 8, 7, byte(id), pl, 0)
			}
			if err := set.lib.Validate(frameOf(b)); err != mavlink2.ErrUnknownMessage {
				p.Fail(wit, "Validate of an unknown message says %v", err)
			}
			msg, err := set.lib.GetMessage(frameOf(b))
			if m, ok := msg.(*mavlink2.UnknownMessage); err != mavlink2.ErrUnknownMessage || !ok || m == nil {
				p.Fail(wit, "GetMessage of an unknown message gives %T, %v", msg, err)
			} else if m.ID != id || m.Raw == nil || !same(m.Raw, pl) || m.GetVersion() != frameOf(b).GetVersion() {
				p.Fail(wit, "from frame %x the unknown message came out as ID %d, version %d, %x", b, m.ID, m.Version, m.Raw)
			}
			if len(set.lib) > 0 {
				for _, d := range set.lib {
					if _, err := d.GetMeta(id); err != mavlink2.ErrUnknownMessage {
						p.Fail(wit, "GetMeta says %v", err)
					}
					if _, err := d.GetMessage(frameOf(b)); err != mavlink2.ErrUnknownMessage {
						p.Fail(wit, "the dialect's GetMessage says %v", err)
					}
				}
			}
		})
		if pan != nil {
			wit["stack"] = st
			p.Fail(wit, "panic: %v", pan)
		}
		p.Eval()
		p.Count("unknown_ids", 1)
		p.Distinct([]byte(fmt.Sprint(id, set.name)))
	}
}

// oddFrame is a frame that claims another version.
type oddFrame struct {
	mavlink2.FrameV2
	version int
}

func (f *oddFrame) GetVersion() int { return f.version }

// tables: the checking and decoding tables are the committed golden ones.
func tables(p *P) {
	p.rule = "a case is a message ID asked of a dialect package: all IDs 0..65535 and (thorough: every) a sample of the rest of the 24-bit space; the answers of GetMeta and GetMessage are compared with the golden schema; a registered ID is the non-trivial case"
	for _, pk := range packages() {
		d := schemaOf(pk)
		tab := ref.TableOf(d)
		byID := map[uint32]*ref.Msg{}
		for i := range d.Msgs {
			byID[d.Msgs[i].ID] = &d.Msgs[i]
		}
		lib := libDialects[pk]
		r := p.Rand(len(pk))
		check := func(id uint32) {
			meta, err := lib.GetMeta(id)
			e, known := tab[id]
			if known != (err == nil) || !known && err != mavlink2.ErrUnknownMessage {
				p.Fail(map[string]any{"dialect": pk, "id": id}, "GetMeta says %v (in the definitions: %v)", err, known)
				return
			}
			p.Eval()
			if known && (meta.CRCExtra != e.CRC || int(meta.MinimumLength) != e.Min || int(meta.MaximumLength) != e.Max) {
				p.Fail(map[string]any{"dialect": pk, "id": id}, "GetMeta says %+v, and should be %+v", meta, e)
			}
			if known || id%251 == 0 {
				f := mavlink2.FrameV2(ref.Frame2(0, 0, 0, 0, 0, id, make([]byte, max(e.Max, 8)), e.CRC, nil))
				m, err := lib.GetMessage(f)
				if known != (err == nil) || !known && err != mavlink2.ErrUnknownMessage {
					p.Fail(map[string]any{"dialect": pk, "id": id}, "GetMessage says %v (in the definitions: %v)", err, known)
					return
				}
				if known {
					g := byID[id]
					want := fmt.Sprintf("%T", newMsg(pmsg{g, pk}))
					if got := fmt.Sprintf("%T", m); got != want {
						p.Fail(map[string]any{"dialect": pk, "id": id}, "the decoder makes a %s, and should make a %s", got, want)
					} else if m.GetID() != id || m.GetMessageName() != g.Name || m.GetDialect() != g.Dialect {
						p.Fail(map[string]any{"dialect": pk, "id": id}, "the message says ID %d, name %s, dialect %s; and should say %d, %s, %s", m.GetID(), m.GetMessageName(), m.GetDialect(), id, g.Name, g.Dialect)
					}
					if x, ok := m.(interface{ HasExtensionFields() bool }); !ok || x.HasExtensionFields() != g.Ext {
						p.Fail(map[string]any{"dialect": pk, "id": id}, "HasExtensionFields of %s is wrong: the definition says %v", want, g.Ext)
					}
					p.Count("registered", 1)
					if g.Confirmed {
						p.Count("crc_confirmed_by_recomputation", 1)
					}
					p.Distinct([]byte(pk), []byte(fmt.Sprint(id)))
					if id%61 == 0 {
						p.Sample(map[string]any{"dialect": pk, "id": id, "type": want, "meta": fmt.Sprintf("%+v", meta)})
					}
				}
			}
		}
		p.Doing("dialect %s", pk)
		if n, ok := lib.(interface{ GetName() string }); !ok || n.GetName() != d.Name {
			p.Fail(map[string]any{"dialect": pk}, "GetName is wrong")
		}
		for id := uint32(0); id < 1<<16; id++ {
			check(id)
			if p.Failed() {
				return
			}
		}
		step := uint32(1)
		for id := uint32(1<<16) + uint32(r.IntN(int(step))); id < 1<<24; id += step {
			check(id)
			if id%(1<<18) < step {
				p.Doing("dialect %s, ID %d", pk, id)
			}
			if p.Failed() {
				return
			}
		}
		// numbers that no frame can carry: each ID with anything in the fourth byte, and others
		beyond := []uint32{1 << 24, 1<<24 + 1, 1 << 31, 1<<32 - 1}
		for _, m := range d.Msgs {
			for k := uint32(1); k < 256; k++ {
				beyond = append(beyond, k<<24|m.ID)
			}
		}
		for range p.N(100000, 5000000) {
			beyond = append(beyond, 1<<24+r.Uint32N(1<<32-1<<24))
		}
		p.Count("numbers_beyond_24_bits", len(beyond))
		for _, id := range beyond {
			if _, err := lib.GetMeta(id); err != mavlink2.ErrUnknownMessage {
				p.Fail(map[string]any{"dialect": pk, "id": id}, "GetMeta says %v", err)
			}
		}
	}
}

// resolution: the first dialect that knows an ID decides everything about it.
func resolution(p *P) {
	p.rule = "a case is an ordered list of dialects (library packages, synthetic tables that clash with them, dialects that refuse) and an ID; GetMessage, GetFrame and Validate are compared with the model in which the first dialect that answers other than 'unknown' decides; non-trivial if at least two dialects of the list know the ID, or none does, or one refuses"
	n := p.N(200000, 4000000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		pk := packages()
		r.Shuffle(len(pk), func(a, b int) { pk[a], pk[b] = pk[b], pk[a] })
		s := mkset(pk[:r.IntN(4)]...)
		// an ID that the list knows, mostly
		id := uint32(r.IntN(512))
		if len(s.msgs) > 0 && r.IntN(4) > 0 {
			id = s.msgs[r.IntN(len(s.msgs))].ID
		} else if r.IntN(3) == 0 {
			id = anyID(r)
		}
		// synthetic dialects anywhere in the list
		type dl struct {
			lib  mavlink2.Dialect
			tab  ref.Table
			name string
			ref  error
		}
		var list []dl
		for j, l := range s.lib {
			list = append(list, dl{l, s.tabs[j], pk[j], nil})
		}
		k := r.IntN(3)
		if r.IntN(20) == 0 { // a long list
			k = r.IntN(40)
		}
		for ; k > 0; k-- {
			t := ref.Table{uint32(r.IntN(1 << 24)): {CRC: 1, Min: 2, Max: 3}}
			if r.IntN(2+k) == 0 {
				lo := r.IntN(100)
				t[id] = ref.Entry{CRC: byte(r.IntN(256)), Min: lo, Max: lo + r.IntN(255-lo+1)}
			}
			x := dl{synth{tab: t}, t, "synthetic", nil}
			if r.IntN(5+k*2) == 0 {
				x = dl{synth{tab: t, refuse: errRefused}, t, "refusing", errRefused}
			}
			at := r.IntN(len(list) + 1)
			list = append(list[:at], append([]dl{x}, list[at:]...)...)
		}
		var lib mavlink2.Dialects
		var names []string
		winner, knowing := -1, 0
		for j, l := range list {
			lib = append(lib, l.lib)
			names = append(names, l.name)
			if _, ok := l.tab[id]; ok || l.ref != nil {
				knowing++
				if winner < 0 {
					winner = j
				}
			}
		}
		p.Doing("case %d, dialects %v, ID %d", i, names, id)
		p.Eval()
		var e ref.Entry
		if winner >= 0 {
			e = list[winner].tab[id]
		}
		ln := r.IntN(256)
		if winner >= 0 && list[winner].ref == nil && r.IntN(3) > 0 {
			ln = e.Min + r.IntN(e.Max-e.Min+1)
		}
		pl := payloadBytes(r, ln)
		b := ref.Frame2(0, 0, 3, 2, 1, id, pl, e.CRC, nil)
		if id < 256 && r.IntN(2) == 0 {
			b = ref.Frame1(3, 2, 1, byte(id), pl, e.CRC)
		}
		wit := map[string]any{"dialects": strings.Join(names, "+"), "id": id, "frame": hexs(b), "winner": winner}
		pan, st := Guarded(func() {
			fr := frameOf(b)
			verr := lib.Validate(fr)
			msg, gerr := lib.GetMessage(fr)
			wm := &mavlink2.UnknownMessage{ID: id, Version: 2, Raw: pl}
			bf, ferr := lib.GetFrame(2, 2, 1, 3, wm)
			switch {
			case winner < 0:
				if verr != mavlink2.ErrUnknownMessage || ferr != mavlink2.ErrUnknownMessage || bf != nil {
					p.Fail(wit, "no dialect knows the ID, but Validate says %v, GetFrame %v %v", verr, ferr, bf)
				}
				um, ok := msg.(*mavlink2.UnknownMessage)
				if gerr != mavlink2.ErrUnknownMessage || !ok || um == nil {
					p.Fail(wit, "no dialect knows the ID, but GetMessage gives %T, %v", msg, gerr)
				} else if um.ID != id || um.Version != fr.GetVersion() || !same(um.Raw, pl) {
					p.Fail(wit, "the unknown message came out as ID %d, version %d, %x", um.ID, um.Version, um.Raw)
				}
				p.Count("unknown_to_all", 1)
			case list[winner].ref != nil:
				if verr != errRefused || gerr != errRefused || ferr != errRefused {
					p.Fail(wit, "dialect %d refuses, but Validate says %v, GetMessage %v, GetFrame %v", winner, verr, gerr, ferr)
				}
				p.Count("refused", 1)
			default:
				want := ref.Tables{list[winner].tab}.Check(b)
				if (verr == nil) != (want == ref.OK) || errors.Is(verr, mavlink2.ErrUnknownMessage) {
					p.Fail(wit, "by dialect %d the frame is %v, but Validate says %v", winner, want, verr)
				}
				if gerr != nil {
					p.Fail(wit, "GetMessage says %v", gerr)
				} else if wantM, werr := list[winner].lib.GetMessage(fr); werr != nil || fmt.Sprintf("%T%+v", msg, msg) != fmt.Sprintf("%T%+v", wantM, wantM) {
					p.Fail(wit, "GetMessage gives %T%+v, dialect %d gives %T%+v", msg, msg, winner, wantM, wantM)
				}
				wf := ref.Frame2(0, 0, 3, 2, 1, id, pl, e.CRC, nil)
				if ferr != nil {
					p.Fail(wit, "GetFrame says %v", ferr)
				} else if !same(bf.Bytes(), wf) {
					p.Fail(wit, "GetFrame built %x, with dialect %d's CRC_EXTRA it is %x", bf.Bytes(), winner, wf)
				}
				p.Count(fmt.Sprintf("decided_by_dialect_%d", winner), 1)
			}
		})
		if pan != nil {
			wit["stack"] = st
			p.Fail(wit, "panic: %v", pan)
		}
		if knowing != 1 {
			p.Distinct(b, []byte(strings.Join(names, "+")))
		}
		if i%(n/8+1) == 0 {
			p.Sample(wit)
		}
	}
}
