package mv

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/util"
	"verifharness/ref"
)

func init() {
	props["C18"] = textFields
	props["C19"] = extension
	props["C20"] = checksums
	props["C25"] = texts
}

// textFields: setters, getters, and the wire between them.
func textFields(p *P) {
	p.rule = "a case is a message with text fields, prior field contents, and a sequence of 1-4 strings (empty, exact, over-long, with NULs, multi-byte, shrinking and growing) given to a setter; getter, error, array bytes, the other fields and the trip through a frame are compared with the C-string model; non-trivial if the string is not empty"
	for _, m := range allMsgs() {
		for si, st := range m.Strings {
			n := p.N(3000, 60000)
			var f ref.Field
			off := 0
			for _, x := range m.Fields {
				if x.Name == st.Name {
					f = x
					break
				}
				off += x.Size()
			}
			if f.Name == "" || f.Size() != st.Cap {
				panic(showMsg(m) + " " + st.Name)
			}
			for k := 0; k < n && !p.Failed(); k++ {
				r := p.Rand(int(m.ID)<<16 + si<<15 + k)
				p.Doing("%s.%s, case %d", showMsg(m), st.Name, k)
				msg := newMsg(m)
				w := values(r, m)
				if err := fill(msg, m, w); err != nil {
					p.Fail(nil, "%v", err)
					return
				}
				set := reflect.ValueOf(msg).MethodByName("Set" + st.Name)
				get := reflect.ValueOf(msg).MethodByName("Get" + st.Name)
				if !set.IsValid() || !get.IsValid() {
					p.Fail(nil, "%s has no Set%s/Get%s", showMsg(m), st.Name, st.Name)
					return
				}
				for j := 1 + r.IntN(4); j > 0; j-- {
					s := anyString(r, dictOf(m), st.Cap)
					wit := map[string]string{"message": showMsg(m), "field": st.Name, "string": fmt.Sprintf("%q", s), "before": hexs(w)}
					var err error
					var got string
					if pan, stk := Guarded(func() {
						if e := set.Call([]reflect.Value{reflect.ValueOf(s)})[0]; !e.IsNil() {
							err = e.Interface().(error)
						}
						got = get.Call(nil)[0].String()
					}); pan != nil {
						wit["stack"] = stk
						p.Fail(wit, "panic: %v", pan)
						return
					}
					kept := s[:min(len(s), st.Cap)]
					copy(w[off:], make([]byte, st.Cap))
					copy(w[off:], kept)
					wantGet, _, _ := strings.Cut(kept, "\x00")
					if got != wantGet {
						p.Fail(wit, "the getter returns %q after setting %q", got, s)
					}
					if (len(s) > st.Cap) != (err == mavlink2.ErrValueTooLong) || len(s) <= st.Cap && err != nil {
						p.Fail(wit, "setting %d bytes in %d says %v", len(s), st.Cap, err)
					}
					now, _ := fieldsOf(msg, m)
					if !same(now, w) {
						p.Fail(wit, "after the setter the fields are %x, and should be %x", now, w)
						return
					}
					p.Eval()
					p.Count("sets", 1)
					if len(s) > st.Cap {
						p.Count("too_long", 1)
					}
					if len(s) > 0 {
						p.Distinct([]byte(showMsg(m)+st.Name), []byte(s), w)
					}
				}
				// over the wire
				v := 2
				if m.ID < 256 && k%2 == 0 && !f.Ext {
					v = 1
				}
				d := mavlink2.Dialects{libDialects[m.pkg]}
				want := get.Call(nil)[0].String()
				fr, err := d.GetFrame(v, 1, 2, 3, msg)
				if err != nil {
					p.Fail(map[string]string{"message": showMsg(m)}, "GetFrame: %v", err)
					return
				}
				back, err := d.GetMessage(fr)
				if err != nil {
					p.Fail(map[string]string{"message": showMsg(m)}, "GetMessage: %v", err)
					return
				}
				bm := reflect.ValueOf(back).MethodByName("Get" + st.Name)
				if !bm.IsValid() {
					p.Fail(map[string]string{"message": showMsg(m)}, "decoded as %T", back)
				} else if got := bm.Call(nil)[0].String(); got != want {
					p.Fail(map[string]string{"message": showMsg(m), "frame": hexs(fr.Bytes())}, "%s arrived as %q, sent as %q", st.Name, got, want)
				}
				if k == 3 && m.ID%7 == 0 {
					p.Sample(map[string]string{"message": showMsg(m), "field": st.Name, "value": fmt.Sprintf("%q", want), "frame": hexs(fr.Bytes())})
				}
			}
			p.Count("text_fields", 1)
		}
	}
	// the two helpers, on any input
	for i := 0; i < p.N(100000, 2000000) && !p.Failed(); i++ {
		r := p.Rand(1<<30 + i)
		b := payloadBytes(r, r.IntN(300))
		if r.IntN(10) == 0 {
			b = nil
		}
		if r.IntN(500) == 0 { // longer than 16 bits can tell
			b = bytes.Repeat([]byte{byte(1 + r.IntN(255))}, []int{1 << 8, 1 << 15, 1 << 16, 1 << 17}[r.IntN(4)]+r.IntN(300))
			clear(b[max(0, len(b)-r.IntN(1+[]int{3, 300, len(b)}[r.IntN(3)])):])
			p.Count("long_helper_calls", 1)
		}
		keep := append([]byte(nil), b...)
		p.Doing("helpers on %x", b)
		var n int
		var t []byte
		if pan, st := Guarded(func() { n = util.CStrLen(b); t = util.TruncateV2(b) }); pan != nil {
			p.Fail(map[string]string{"input": hexs(keep), "stack": st}, "panic: %v", pan)
			return
		}
		want := len(keep)
		if z := strings.IndexByte(string(keep), 0); z >= 0 {
			want = z
		}
		if n != want {
			p.Fail(hexs(keep), "CStrLen is %d, and should be %d", n, want)
		}
		if !same(t, ref.Trim(keep)) || !same(b, keep) {
			p.Fail(hexs(keep), "TruncateV2 gives %x, and should give %x", t, ref.Trim(keep))
		}
		p.Count("helper_calls", 1)
	}
}

func anyString(r *rand.Rand, d *words, c int) string {
	n := r.IntN(c + 1)
	switch r.IntN(9) {
	case 0:
		n = 0
	case 1:
		n = c
	case 2:
		n = c - 1
	case 3:
		n = c + 1
	case 4:
		n = c + 1 + r.IntN(300)
	case 5:
		n = r.IntN(3)
	}
	n = max(n, 0)
	if r.IntN(500) == 0 { // a length that is none in 8, 16 or 20 bits
		n += []int{1 << 8, 1 << 8, 1 << 9, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 1 << 20}[r.IntN(8)]
	}
	if r.IntN(2) == 0 {
		d = &dictCore
	}
	if d = d.from(r); r.IntN(8) == 0 && len(d.strings) > 0 {
		s := d.strings[r.IntN(len(d.strings))]
		if r.IntN(2) == 0 {
			s += strings.Repeat("x", max(0, n-len(s)))
		}
		return s
	}
	switch r.IntN(4) {
	case 0:
		return strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
	case 1:
		return string(payloadBytes(r, n))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.IntN(95))
	}
	return string(b)
}

// extension: the variable-length message keeps its payload and its length.
func extension(p *P) {
	p.rule = "a case is a V2Extension with a payload of 0..249 bytes (every length, every content class, after a longer one), framed in V1 or V2, received through a stream or decoded directly, or a received frame of any length 0..255; payload, length and header fields are compared with the model (V2 drops trailing zero bytes); over-long payloads are refused with ErrValueTooLong and cut; non-trivial if the payload is not empty"
	set := mkset("common")
	var ext pmsg
	for _, m := range set.msgs {
		if m.ID == 248 {
			ext = m
		}
	}
	n := p.N(100000, 2000000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		ln := i % 256
		pl := payloadBytes(r, ln)
		if r.IntN(3) == 0 && ln > 0 {
			pl[ln-1] = byte(1 + r.IntN(255))
		}
		if r.IntN(40) == 0 {
			ln += []int{1, 1, 1, 2, 1 << 8}[r.IntN(5)] << 8
			pl = randBytes(r, ln)
		}
		msg := &common.V2Extension{MessageType: uint16(r.IntN(1 << 16)), TargetNetwork: byte(r.IntN(256)), TargetSystem: byte(r.IntN(256)), TargetComponent: byte(r.IntN(256))}
		if u, ok := dictOf(ext).int(r, 1<<16-1); ok && r.IntN(4) == 0 {
			msg.MessageType = uint16(u)
		}
		if r.IntN(5) == 0 {
			msg.MessageType, msg.TargetNetwork, msg.TargetSystem, msg.TargetComponent = uint16(r.IntN(2)), 0, 0, 0
		}
		p.Doing("case %d, %d bytes", i, ln)
		wit := map[string]string{"payload": hexs(pl), "type": fmt.Sprint(msg.MessageType)}
		pan, st := Guarded(func() {
			if r.IntN(2) == 0 {
				msg.SetPayloadSlice(randBytes(r, r.IntN(250))) // what was there before
			}
			in := append([]byte(nil), pl...)
			err := msg.SetPayloadSlice(in)
			kept := pl[:min(ln, 249)]
			if (err == mavlink2.ErrValueTooLong) != (ln > 249) || ln <= 249 && err != nil {
				p.Fail(wit, "SetPayloadSlice of %d bytes says %v", ln, err)
			}
			for j := range in {
				in[j] ^= 0xff
			}
			if !same(msg.GetPayload(), kept) {
				p.Fail(wit, "GetPayload gives %x after setting %x", msg.GetPayload(), kept)
				return
			}
			for v := 1; v <= 2; v++ {
				seq, sys, comp := anyByte(r), anyByte(r), anyByte(r)
				f, err := set.lib.GetFrame(v, sys, comp, seq, msg)
				if err != nil {
					p.Fail(wit, "GetFrame(%d): %v", v, err)
					return
				}
				w := []byte{byte(msg.MessageType), byte(msg.MessageType >> 8), msg.TargetNetwork, msg.TargetSystem, msg.TargetComponent}
				w = append(w, kept...)
				sent := kept
				want := ref.Frame1(seq, sys, comp, 248, w, ext.CRC)
				if v == 2 {
					w = ref.Trim(w)
					want = ref.Frame2(0, 0, seq, sys, comp, 248, w, ext.CRC, nil)
					sent = kept[:max(len(w)-5, 0)]
				}
				if !same(f.Bytes(), want) {
					p.Fail(wit, "V%d frame %x, and should be %x", v, f.Bytes(), want)
					return
				}
				var got mavlink2.Message
				if i%16 == 0 {
					rd := runRead(p, set, withEnd(chunks(r, f.Bytes(), r.IntN(4)), errWire), readOpts{})
					if len(rd.frames) != 1 {
						p.Fail(wit, "the V%d frame %x did not arrive: %d frames delivered", v, want, len(rd.frames))
						return
					}
					got, err = set.lib.GetMessage(rd.frames[0].frame)
					p.Count("through_streams", 1)
				} else {
					got, err = set.lib.GetMessage(f)
				}
				g, ok := got.(*common.V2Extension)
				if err != nil || !ok {
					p.Fail(wit, "decoded as %T, %v", got, err)
					return
				}
				if !same(g.GetPayload(), sent) || g.MessageType != msg.MessageType || g.TargetNetwork != msg.TargetNetwork || g.TargetSystem != msg.TargetSystem || g.TargetComponent != msg.TargetComponent {
					p.Fail(wit, "V%d: received type %d, target %d/%d/%d, payload %x", v, g.MessageType, g.TargetNetwork, g.TargetSystem, g.TargetComponent, g.GetPayload())
				}
				if strings.Trim(string(g.Payload[len(sent):]), "\x00") != "" {
					p.Fail(wit, "V%d: bytes behind the payload: %x", v, g.Payload[len(sent):])
				}
				p.Count(fmt.Sprintf("v%d", v), 1)
			}
			// a received frame of any length
			rl := r.IntN(256)
			b := ref.Frame2(0, 0, 1, 2, 3, 248, randBytes(r, rl), ext.CRC, nil)
			if r.IntN(2) == 0 {
				b = ref.Frame1(1, 2, 3, 248, randBytes(r, rl), ext.CRC)
			}
			m, err := set.lib.GetMessage(frameOf(b))
			if err != nil {
				return // C09 decides errors; a refusal is no wrong payload
			}
			h, _ := ref.ParseHeader(b)
			body := h.Payload(b)
			want := body[min(len(body), 5):min(len(body), 254)]
			if g := m.(*common.V2Extension).GetPayload(); !same(g, want) {
				p.Fail(map[string]string{"frame": hexs(b)}, "a received frame with %d payload bytes decodes to payload %x", rl, g)
			}
			p.Count("received_any_length", 1)
		})
		if pan != nil {
			wit["stack"] = st
			p.Fail(wit, "panic: %v", pan)
		}
		p.Eval()
		if ln > 0 {
			p.Distinct(pl, []byte(fmt.Sprint(msg.MessageType)))
		}
		if i%(n/8+1) == 0 {
			p.Sample(wit)
		}
	}
}

// steer sets the last two bytes so that the checksum of b is v.
func steer(b []byte, v uint16) {
	n := len(b) - 2
	var ok bool
	if b[n], b[n+1], ok = solve(b, n, v, func(b []byte) uint16 { return ref.X25(b) }); !ok {
		panic("steer")
	}
}

// checksums: X.25 as such, and what it must catch.
func checksums(p *P) {
	p.rule = "a case is (a) an input hashed by X25CRC in any split, with Sum and Reset in between, compared with a bit-by-bit implementation, or (b) a valid frame with 1-3 flipped bits or a burst of at most 16 bits (not across the end of the payload, where CRC_EXTRA is inserted) in its header bytes after the length and flags, payload or checksum (the message ID bytes left alone), which neither Validate nor a stream may accept as it stands (some of the bursts are computed so that a receiver with a wrong idea of the checksum would take the frame); distinct by bytes, non-trivial if not empty"
	n := p.N(100000, 2000000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		p.Doing("case %d", i)
		p.Eval()
		if i%3 == 0 {
			b := payloadBytes(r, r.IntN(300))
			if i == 0 {
				b = []byte("123456789")
			}
			if i%999 == 3 { // longer than any frame
				b = randBytes(r, []int{256, 257, 511, 1024, 4097, 65535, 65536, 65537, 100000, r.IntN(200000)}[r.IntN(10)])
				p.Count("long_inputs", 1)
			}
			whole := r.IntN(3) == 0
			h := &mavlink2.X25CRC{}
			h.Reset()
			if r.IntN(2) == 0 {
				h.Write(randBytes(r, r.IntN(9)))
				h.Reset()
			}
			cut := -1
			if i%6 == 0 && len(b) > 2 { // on the way, the hash takes a special value, there or thereabouts
				cut = 2 + r.IntN(len(b)-2)
				steer(b[:cut], []uint16{0, 0, 0xffff, 0x8000, 0x00ff, 0xff00, 1, uint16(r.IntN(1 << 16))}[r.IntN(8)])
				p.Count("special_intermediate_values", 1)
			}
			keep := append([]byte(nil), b...)
			for at := 0; at < len(b); {
				m := 1 + r.IntN(len(b)-at)
				if at < cut {
					m = 1 + r.IntN(cut-at)
				}
				if whole {
					m = len(b)
				}
				if r.IntN(20) == 0 {
					h.Write(nil)
				}
				k, err := h.Write(b[at : at+m])
				if k != m || err != nil {
					p.Fail(hexs(keep), "Write of %d bytes says %d, %v", m, k, err)
				}
				at += m
				if r.IntN(3) == 0 {
					h.Sum(nil)
				}
			}
			pre := randBytes(r, r.IntN(5))
			spare := append(append([]byte(nil), pre...), 0xaa, 0xbb, 0xcc)
			c := ref.X25(keep)
			want := append(append([]byte(nil), pre...), byte(c), byte(c>>8))
			if got := h.Sum(pre); !same(got, want) {
				p.Fail(hexs(keep), "Sum is %x, and should be %x", got, want)
			}
			if got := h.Sum(spare[:len(pre):len(pre)]); !same(got, want) || !same(b, keep) || spare[len(pre)] != 0xaa {
				p.Fail(hexs(keep), "the second Sum is %x, and should be %x", got, want)
			}
			for room := range 5 { // any room behind the slice
				in := append(make([]byte, 0, len(pre)+room), pre...)
				if got := h.Sum(in); !same(got, want) || !same(in, pre) {
					p.Fail(hexs(keep), "with room for %d bytes the Sum is %x, and should be %x", room, got, want)
				}
			}
			if h.Size() != 2 || h.BlockSize() < 1 {
				p.Fail(nil, "Size is %d, BlockSize %d", h.Size(), h.BlockSize())
			}
			p.Count("hashed", 1)
			if len(b) > 0 {
				p.Distinct(b)
			}
			continue
		}
		set := mkset("common", "ardupilotmega")
		if r.IntN(4) == 0 {
			set = pickSet(r)
		}
		m := set.msgs[r.IntN(len(set.msgs))]
		f := validFrame(r, set, m)
		h, _ := ref.ParseHeader(f)
		// the protected bits whose change leaves the frame's shape and message alone
		var pos []int
		for at := 2; at < h.HeaderLen+h.Len+2; at++ {
			if h.Version == 2 && (at == 2 || at >= 7 && at <= 9) || h.Version == 1 && at == 5 {
				continue
			}
			for b := 0; b < 8; b++ {
				pos = append(pos, at*8+b)
			}
		}
		g := append([]byte(nil), f...)
		kind := ""
		if k := r.IntN(4); k < 3 {
			kind = fmt.Sprintf("%d_flipped", k+1)
			for _, x := range r.Perm(len(pos))[:k+1] {
				g[pos[x]/8] ^= 1 << (pos[x] % 8)
			}
		} else {
			kind = "burst"
			// adjacent positions, none of the excluded bytes between them
			w := 1 + r.IntN(16)
			x := r.IntN(len(pos) - w + 1)
			end := (h.HeaderLen + h.Len) * 8 // CRC_EXTRA, which is not sent, comes here
			if pos[x+w-1]-pos[x] != w-1 || pos[x] < end && pos[x+w-1] >= end {
				continue
			}
			for j := 0; j < w; j++ {
				if j == 0 || j == w-1 || r.IntN(2) == 0 {
					g[pos[x+j]/8] ^= 1 << (pos[x+j] % 8)
				}
			}
		}
		wit := map[string]string{"dialects": set.name, "frame": hexs(f), "corrupted": hexs(g), "how": kind}
		if err := set.lib.Validate(frameOf(append([]byte(nil), g...))); err == nil {
			p.Fail(wit, "Validate accepts a corrupted frame")
		}
		if i%5 == 1 {
			data := append(append(append([]byte(nil), f...), g...), f...)
			data = append(data, make([]byte, 300)...)
			rd := runRead(p, set, withEnd(chunks(r, data, r.IntN(4)), errWire), readOpts{})
			for _, x := range rd.frames {
				if same(x.Raw, g) {
					p.Fail(wit, "a stream delivered a corrupted frame")
				}
			}
			p.Count("through_streams", 1)
		}
		p.Count(kind, 1)
		p.Distinct(g)
		if i%40 == 1 {
			aimedBursts(p, r, set, m, f, h)
		}
		if i%(n/8+1) == 1 {
			p.Sample(wit)
		}
	}
}

// texts: the textual form of messages and frames.
func texts(p *P) {
	p.rule = "a case is a message with any field values (with and without extension fields), an unknown message, or a complete frame; its text is parsed into label/value lines and compared with the fields; non-trivial if some field is not zero"
	sweep(p, p.N(300, 6000), func(r *rand.Rand, m pmsg, k int) {
		w := values(r, m)
		msg := newMsg(m)
		if err := fill(msg, m, w); err != nil {
			p.Fail(nil, "%v", err)
			return
		}
		ext := k%2 == 0
		setExt(msg, ext)
		if variable(m) {
			setLen(msg, r.IntN(250))
		}
		before := fmt.Sprintf("%+v", reflect.ValueOf(msg).Elem().Interface())
		var s string
		wit := map[string]any{"message": showMsg(m), "values": hexs(w)}
		if pan, st := Guarded(func() { s = fmt.Sprint(msg) }); pan != nil || strings.Contains(s, "PANIC=") {
			wit["stack"] = st
			p.Fail(wit, "String panicked: %v %s", pan, s)
			return
		}
		wit["text"] = s
		got := lines(s)
		if first := lines(strings.SplitN(s, "\n", 2)[0]); first["Name"] != m.Dialect+"/"+m.Name {
			p.Fail(wit, "the name shown is %q", first["Name"])
		}
		extField := map[string]bool{}
		for _, f := range m.Fields {
			extField[f.Name] = f.Ext
		}
		for _, l := range m.Display {
			v := reflect.ValueOf(msg).Elem().FieldByName(l.Label)
			if !v.IsValid() {
				p.Fail(wit, "there is no field %s", l.Label)
				return
			}
			if extField[l.Label] && m.Ext && !ext {
				if _, ok := got[l.Label]; ok {
					p.Fail(wit, "extension field %s is shown for a message without extension fields", l.Label)
				}
				continue
			}
			want := fmt.Sprint(v.Interface())
			g, ok := got[l.Label]
			if !ok {
				p.Fail(wit, "field %s is not shown", l.Label)
			} else if g != want && g != want+" "+l.Suffix {
				p.Fail(wit, "field %s is shown as %q, and is %s %s", l.Label, g, want, l.Suffix)
			}
			p.Count("fields_compared", 1)
		}
		if after := fmt.Sprintf("%+v", reflect.ValueOf(msg).Elem().Interface()); after != before {
			p.Fail(wit, "String changed the message")
		}
		if strings.Trim(string(w), "\x00") != "" {
			p.Distinct([]byte(showMsg(m)), w, []byte{byte(k % 2)})
		}
		if k == 1 && m.ID%41 == 0 {
			p.Sample(wit)
		}
	})
	set := mkset("common")
	for i := 0; i < p.N(50000, 1000000) && !p.Failed(); i++ {
		r := p.Rand(1<<28 + i)
		b := hostileFrame(r, set)
		h, _ := ref.ParseHeader(b)
		b = b[:h.FrameLen]
		p.Doing("frame %x", b)
		s := fmt.Sprint(frameOf(b))
		got := lines(s)
		want := map[string]string{"Version": fmt.Sprint(h.Version), "MessageLength": fmt.Sprint(h.Len), "SenderSystemID": fmt.Sprint(h.Sys), "SenderComponentID": fmt.Sprint(h.Comp), "MessageID": fmt.Sprint(h.ID)}
		if h.Version == 2 {
			want["Signed"] = fmt.Sprint(h.Signed)
			want["IncompatibilityFlags"] = fmt.Sprint(h.Incompat)
			want["CompatibilityFlags"] = fmt.Sprint(h.Compat)
			want["Checksum"] = fmt.Sprintf("0x%x", h.Checksum(b))
			if h.Signed {
				want["Signature"] = hexs(b[len(b)-13:])
			}
		} else {
			want["Checksum"] = fmt.Sprint(h.Checksum(b))
		}
		for k, v := range want {
			if got[k] != v {
				p.Fail(map[string]string{"frame": hexs(b), "text": s}, "%s is shown as %q, and is %s", k, got[k], v)
			}
		}
		if _, ok := got["Signature"]; ok && !h.Signed {
			p.Fail(map[string]string{"frame": hexs(b), "text": s}, "an unsigned frame shows a signature")
		}
		um := &mavlink2.UnknownMessage{}
		um.Read(frameOf(b))
		gu := lines(fmt.Sprint(um))
		if gu["ID"] != fmt.Sprint(h.ID) || gu["Version"] != fmt.Sprint(h.Version) || gu["Raw"] != hexs(h.Payload(b)) {
			p.Fail(map[string]string{"frame": hexs(b)}, "the unknown message shows %v", gu)
		}
		p.Eval()
		p.Count("frames_compared", 1)
		p.Distinct(b)
	}
}

// lines parses "label: value" lines, with the spaces around the value removed.
func lines(s string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(s, "\n") {
		if k, v, ok := strings.Cut(l, ":"); ok {
			m[strings.TrimSpace(k)] = strings.TrimSpace(v)
		}
	}
	return m
}
