package mv

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

func init() {
	props["C05"] = hostile
	props["C06"] = ownership
	props["C07"] = verdicts
	props["C23"] = layout
}

// useFrame does with a complete frame everything a consumer can.
func useFrame(set *dset, f mavlink2.Frame) (what string, pan any, stack string) {
	step := "accessors"
	pan, stack = Guarded(func() {
		f.GetVersion()
		f.GetMessageLength()
		f.GetMessageSequence()
		f.GetSenderSystemID()
		f.GetSenderComponentID()
		f.GetMessageID()
		f.GetChecksum()
		f.GetChecksumInput()
		f.GetMessageBytes()
		f.Bytes()
		if v2, ok := f.(mavlink2.FrameV2); ok {
			v2.GetSignature()
			v2.GetIncompatibilityFlags()
			v2.GetCompatibilityFlags()
		}
		step = "String"
		_ = fmt.Sprint(f)
		step = "Validate"
		set.lib.Validate(f)
		step = "GetMessage"
		m, err := set.lib.GetMessage(f)
		step = "String of the message"
		if m != nil {
			_ = fmt.Sprint(m)
			step = "using the message"
			m.GetID()
			m.GetMessageName()
			m.GetDialect()
			m.GetVersion()
			if err == nil {
				if v, ok := m.(interface{ GetPayload() []byte }); ok {
					v.GetPayload()
				}
				for _, ver := range []int{1, 2} {
					m.Write(ver)
					set.lib.GetFrame(ver, 1, 2, 3, m)
				}
			}
		}
	})
	return step, pan, stack
}

func hostile(p *P) {
	p.rule = "a case is (a) a hostile stream read in invalid-frame mode, every delivered frame used in every way, or (b) a single frame of any content, length byte and flags, complete but otherwise arbitrary, used in every way, or (c) arbitrary bytes and length given to FrameFromBytes; non-trivial if a frame came out and was used"
	n := p.N(12000, 200000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		p.Doing("case %d, dialects %s", i, set.name)
		use := func(f mavlink2.Frame, from string) {
			b := append([]byte(nil), f.Bytes()...)
			what, pan, stack := useFrame(set, f)
			if pan != nil {
				p.Fail(map[string]string{"frame": hexs(b), "dialects": set.name, "stack": stack}, "%s panicked on a %s frame: %v", what, from, pan)
			}
			p.Count("frames_used", 1)
			p.Distinct([]byte(set.name), b)
		}
		p.Eval()
		switch i % 4 {
		case 0:
			st := genStream(r, set, 1+r.IntN(16), r.IntN(3) > 0)
			if r.IntN(3) == 0 {
				st = specialStream(r, set, r.IntN(8))
			}
			rd := runRead(p, set, withEnd(chunks(r, st.data, r.IntN(chunkStyles)), io.EOF), readOpts{invalid: r.IntN(4) > 0})
			for j, g := range rd.frames {
				if j < 60 {
					use(g.frame, "delivered")
				}
			}
		case 1, 2:
			for k := 0; k < 20; k++ {
				f := hostileFrame(r, set)
				use(frameOf(f), "complete")
				if k == 0 && i%(n/8+1) == 1 {
					p.Sample(map[string]any{"dialects": set.name, "frame": hexs(f)})
				}
			}
		case 3:
			for k := 0; k < 40; k++ {
				b := payloadBytes(r, r.IntN(40))
				if r.IntN(3) == 0 {
					b = hostileFrame(r, set)
					b = b[:r.IntN(len(b)+1)]
				}
				if r.IntN(20) == 0 {
					b = nil
				}
				fl := uint16(r.IntN(320))
				if r.IntN(10) == 0 {
					fl = uint16(r.IntN(1 << 16))
				}
				mc := r.IntN(2) == 0
				p.fromBytes(b, fl, mc)
			}
		}
	}
}

// fromBytes checks FrameFromBytes on any input.
func (p *P) fromBytes(b []byte, fl uint16, mc bool) {
	orig := append([]byte(nil), b...)
	var f mavlink2.Frame
	var err error
	w := map[string]any{"bytes": hexs(orig), "frameLength": fl, "makeCopy": mc}
	if pan, stack := Guarded(func() { f, err = mavlink2.FrameFromBytes(b, fl, mc) }); pan != nil {
		w["stack"] = stack
		p.Fail(w, "FrameFromBytes panicked: %v", pan)
		return
	}
	p.Count("FrameFromBytes_calls", 1)
	start := len(b) > 0 && (b[0] == 0xfd || b[0] == 0xfe)
	if !same(orig, b) {
		p.Fail(w, "FrameFromBytes changed its input")
	}
	switch {
	case !start && err == nil:
		p.Fail(w, "FrameFromBytes returned no error for bytes that do not start a frame")
	case start && mc && len(b) < int(fl) && err == nil:
		p.Fail(w, "FrameFromBytes returned no error for too few bytes")
	case start && len(b) >= int(fl):
		if err != nil || f == nil {
			p.Fail(w, "FrameFromBytes failed on enough bytes: %v", err)
			return
		}
		want := orig
		if mc {
			want = orig[:fl]
		}
		if !same(f.Bytes(), want) || f.GetVersion() != map[byte]int{0xfe: 1, 0xfd: 2}[b[0]] {
			p.Fail(w, "FrameFromBytes returned version %d, %x", f.GetVersion(), f.Bytes())
			return
		}
		if mc { // the copy is independent
			for j := range b {
				b[j] ^= 0x55
			}
			if !same(f.Bytes(), want) {
				p.Fail(w, "the copied frame changed with the input")
			}
			copy(b, orig)
		}
		p.Count("FrameFromBytes_frames", 1)
	}
}

// hostileFrame is complete (as long as its header says), and anything else.
func hostileFrame(r *rand.Rand, set *dset) []byte {
	ln := r.IntN(256)
	if r.IntN(3) == 0 {
		ln = []int{0, 1, 2, 4, 5, 6, 249, 250, 253, 254, 255}[r.IntN(11)]
	}
	id := anyID(r)
	if len(set.msgs) > 0 && r.IntN(8) > 0 {
		id = set.msgs[r.IntN(len(set.msgs))].ID
	}
	if r.IntN(20) == 0 {
		id = 248
	}
	var sig []byte
	if r.IntN(3) == 0 {
		sig = payloadBytes(r, 13)
	}
	pl := payloadBytes(r, ln)
	var f []byte
	if r.IntN(3) == 0 && id < 256 {
		f = ref.Frame1(anyByte(r), anyByte(r), anyByte(r), byte(id), pl, byte(r.IntN(256)))
	} else {
		f = ref.Frame2(anyByte(r)&^1, anyByte(r), anyByte(r), anyByte(r), anyByte(r), id, pl, byte(r.IntN(256)), sig)
	}
	if r.IntN(3) == 0 { // more bytes than the frame has
		f = append(f, randBytes(r, r.IntN(20))...)
	}
	return f
}

// ownership: what was handed out stays as it was, whatever comes later and whatever is done to its neighbours.
func ownership(p *P) {
	p.rule = "a case is a stream whose frames are all kept, decoded and (every other one, up to its full capacity) overwritten by the consumer while later frames arrive, or two frames built from one message and then scribbled on; non-trivial if at least 3 frames were kept and at least one overwritten"
	n := p.N(5000, 100000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		invalid := r.IntN(2) == 0
		st := genStream(r, set, 4+r.IntN(16), true)
		if r.IntN(5) == 0 {
			st = specialStream(r, set, r.IntN(7))
		}
		p.Doing("case %d, dialects %s", i, set.name)
		must, may := expected(set, st.data, invalid)
		type kept struct {
			f    mavlink2.Frame
			was  []byte
			m    mavlink2.Message
			mwas string
			mut  bool
		}
		var mu sync.Mutex
		var all []*kept
		o := readOpts{invalid: invalid, each: func(g got) {
			mu.Lock()
			defer mu.Unlock()
			k := &kept{f: g.frame, was: g.Raw}
			k.m, _ = set.lib.GetMessage(g.frame)
			k.mwas = fmt.Sprintf("%T %+v", k.m, k.m)
			all = append(all, k)
			if len(all)%2 == 0 {
				k.mut = true
				b := k.f.Bytes()
				b = b[:cap(b)]
				for j := range b {
					b[j] ^= 0xa5
				}
			}
		}}
		rd := runRead(p, set, withEnd(chunks(r, st.data, r.IntN(chunkStyles)), io.EOF), o)
		p.Eval()
		if bad := compare(st.data, rd.frames, must, may); bad != "" {
			p.Fail(witness(set, st.data, rd, ""), "with the consumer overwriting every other frame: %s", bad)
		}
		mut := 0
		for j, k := range all {
			if k.mut {
				mut++
			} else if !same(k.f.Bytes(), k.was) {
				p.Fail(witness(set, st.data, rd, ""), "frame %d was %x when it was delivered, and is %x after the stream went on", j, k.was, k.f.Bytes())
			}
			if now := fmt.Sprintf("%T %+v", k.m, k.m); now != k.mwas {
				p.Fail(witness(set, st.data, rd, ""), "the message decoded from frame %d changed from %s to %s", j, k.mwas, now)
			}
		}
		p.Count("frames_kept", len(all))
		p.Count("frames_overwritten", mut)
		if len(all) >= 3 && mut > 0 {
			p.Distinct(st.data)
		}
		// frames built from messages
		for k := 0; k < 6; k++ {
			ms := allMsgs()
			m := ms[r.IntN(len(ms))]
			msg := newMsg(m)
			w := values(r, m)
			if fill(msg, m, w) != nil {
				continue
			}
			if variable(m) {
				setLen(msg, r.IntN(250))
			}
			before := fmt.Sprintf("%+v", msg)
			d := mavlink2.Dialects{libDialects[m.pkg]}
			v := 2
			if m.ID < 256 && r.IntN(2) == 0 {
				v = 1
			}
			f1, e1 := d.GetFrame(v, 1, 2, 3, msg)
			f2, e2 := d.GetFrame(v, 4, 5, 6, msg)
			if e1 != nil || e2 != nil {
				continue // C08 and C11 decide errors
			}
			b2 := append([]byte(nil), f2.Bytes()...)
			x := f1.Bytes()
			x = x[:cap(x)]
			for j := range x {
				x[j] ^= 0x5a
			}
			if !same(f2.Bytes(), b2) {
				p.Fail(map[string]string{"message": showMsg(m), "values": hexs(w)}, "overwriting one built frame changed another one")
			}
			if now := fmt.Sprintf("%+v", msg); now != before {
				p.Fail(map[string]string{"message": showMsg(m), "before": before, "after": now}, "building frames changed the message")
			}
			p.Count("built_pairs", 1)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "stream": hexs(st.data), "kept": len(all), "overwritten": mut})
		}
	}
}

// verdicts: Validate says what the reference says, and only looks.
func verdicts(p *P) {
	p.rule = "a case is a complete frame (valid, corrupted, mis-sized, unknown, boundary lengths; with and without spare bytes behind it) and a dialect set; the verdict class of Validate, called twice, is compared with the reference's and the bytes are compared before and after; every case is non-trivial, distinct by set and bytes"
	n := p.N(400000, 6000000)
	class := map[error]ref.Verdict{nil: ref.OK, mavlink2.ErrUnknownMessage: ref.Unknown, mavlink2.ErrMessageTooShort: ref.TooShort, mavlink2.ErrMessageTooLong: ref.TooLong, mavlink2.ErrInvalidChecksum: ref.BadCRC}
	check := func(set *dset, f []byte, kind string) {
		h, ok := ref.ParseHeader(f)
		if !ok || len(f) < h.FrameLen {
			return
		}
		want := set.tabs.Check(f[:h.FrameLen])
		arr := append(append([]byte(nil), f...), 0x11, 0x22, 0x33, 0x44)
		in := arr[:len(f)]
		keep := append([]byte(nil), arr...)
		fr := frameOf(in)
		var e1, e2 error
		w := map[string]string{"frame": hexs(f), "dialects": set.name, "kind": kind}
		if pan, st := Guarded(func() { e1 = set.lib.Validate(fr); e2 = set.lib.Validate(fr) }); pan != nil {
			w["stack"] = st
			p.Fail(w, "Validate panicked: %v", pan)
			return
		}
		g1, k1 := class[e1]
		g2, k2 := class[e2]
		if want == ref.Refused { // the dialect's own error is the answer
			k1, k2 = errors.Is(e1, set.denial(h.ID)), errors.Is(e2, set.denial(h.ID))
			g1, g2 = want, want
		}
		if !k1 || g1 != want {
			p.Fail(w, "Validate says %v, the frame is: %v", e1, want)
		} else if !k2 || g2 != want {
			p.Fail(w, "the second Validate says %v, the frame is: %v", e2, want)
		}
		if !same(keep, arr) {
			p.Fail(w, "Validate changed the frame's memory from %x to %x", keep, arr)
		}
		p.Eval()
		p.Count("verdict_"+want.String(), 1)
		p.Count("kind_"+kind, 1)
		p.Distinct([]byte(set.name), f)
	}
	// every message at its boundary lengths, in both versions
	for _, m := range allMsgs() {
		set := mkset(m.pkg)
		r := p.Rand(int(m.ID) + 1<<25)
		p.Doing("boundary lengths of %s", showMsg(m))
		for _, l := range []int{0, 1, m.Min - 1, m.Min, m.Min + 1, m.Max - 1, m.Max, m.Max + 1, 255} {
			if l < 0 || l > 255 {
				continue
			}
			pl := randBytes(r, l)
			check(set, ref.Frame2(0, 0, 1, 2, 3, m.ID, pl, m.CRC, nil), "boundary")
			check(set, ref.Frame2(0, 0, 1, 2, 3, m.ID, pl, m.CRC, randBytes(r, 13)), "boundary")
			if m.ID < 256 {
				check(set, ref.Frame1(1, 2, 3, byte(m.ID), pl, m.CRC), "boundary")
			}
		}
		if p.Failed() {
			return
		}
	}
	var set *dset
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		if i%200 == 0 {
			set = pickSet(r)
			if i%2000 == 1000 {
				set = mkset()
			}
		}
		p.Doing("case %d, dialects %s", i, set.name)
		var f []byte
		kind := "valid"
		m := pmsg{}
		if len(set.msgs) > 0 {
			m = set.msgs[r.IntN(len(set.msgs))]
		} else {
			ms := mkset("common").msgs
			m = ms[r.IntN(len(ms))]
		}
		if len(set.msgs) == 0 {
			f = validFrame(r, mkset("common"), m)
		} else if r.IntN(3) == 0 {
			f = validFrame(r, set, m)
		} else if r.IntN(4) == 0 {
			kind, f = "hostile", hostileFrame(r, set)
		} else {
			kind, f = badFrame(r, set, m)
		}
		if r.IntN(4) == 0 {
			f = append(f, randBytes(r, r.IntN(30))...)
		}
		check(set, f, kind)
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "frame": hexs(f), "kind": kind})
		}
	}
}

// layout: the accessors read what the layout says is there.
func layout(p *P) {
	p.rule = "a case is a complete frame of arbitrary header, payload, checksum and signature bytes, as a FrameV1/FrameV2 value or from FrameFromBytes; each accessor is compared with the documented layout; distinct by bytes, non-trivial with a non-empty payload"
	n := p.N(400000, 6000000)
	set := mkset("common", "ardupilotmega")
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		f := hostileFrame(r, set)
		for j := 0; j < len(f); j++ {
			if j > 1 && r.IntN(40) == 0 && !(f[0] == 0xfd && j == 2) {
				f[j] = byte(r.IntN(256))
			}
		}
		h, _ := ref.ParseHeader(f)
		f = f[:h.FrameLen]
		keep := append([]byte(nil), f...)
		p.Doing("frame %x", f)
		var fr mavlink2.Frame = frameOf(f)
		if r.IntN(2) == 0 {
			g, err := mavlink2.FrameFromBytes(f, uint16(len(f)), r.IntN(2) == 0)
			if err != nil {
				p.Fail(hexs(f), "FrameFromBytes: %v", err)
				continue
			}
			fr = g
		}
		whole := true
		if r.IntN(4) == 0 { // a view of a buffer that goes on behind the frame, as streams use it
			whole = false
			long := append(append([]byte(nil), f...), payloadBytes(r, 1+r.IntN(40))...)
			g, err := mavlink2.FrameFromBytes(long, uint16(len(f)), false)
			if err != nil {
				p.Fail(hexs(long), "FrameFromBytes: %v", err)
				continue
			}
			fr = g
			p.Count("views_of_longer_buffers", 1)
		}
		eq := func(what string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				p.Fail(map[string]string{"frame": hexs(keep)}, "%s is %v, and should be %v", what, got, want)
			}
		}
		pan, st := Guarded(func() {
			eq("GetVersion", fr.GetVersion(), h.Version)
			eq("GetMessageLength", fr.GetMessageLength(), h.Len)
			eq("GetMessageSequence", fr.GetMessageSequence(), h.Seq)
			eq("GetSenderSystemID", fr.GetSenderSystemID(), h.Sys)
			eq("GetSenderComponentID", fr.GetSenderComponentID(), h.Comp)
			eq("GetMessageID", fr.GetMessageID(), h.ID)
			eq("GetMessageBytes", hexs(fr.GetMessageBytes()), hexs(h.Payload(keep)))
			eq("GetChecksum", fr.GetChecksum(), h.Checksum(keep))
			eq("GetChecksumInput", hexs(fr.GetChecksumInput()), hexs(keep[1:h.HeaderLen+h.Len]))
			if whole {
				eq("Bytes", hexs(fr.Bytes()), hexs(keep))
			}
			if v2, ok := fr.(mavlink2.FrameV2); ok {
				eq("GetIncompatibilityFlags", v2.GetIncompatibilityFlags(), h.Incompat)
				eq("GetCompatibilityFlags", v2.GetCompatibilityFlags(), h.Compat)
				sig := v2.GetSignature()
				if h.Signed {
					eq("GetSignature", hexs(sig), hexs(keep[len(keep)-13:]))
					p.Count("signed", 1)
				} else if sig != nil {
					eq("GetSignature", hexs(sig), "nil")
				}
			} else if h.Version == 2 {
				p.Fail(hexs(keep), "a V2 frame is a %T", fr)
			}
			um := &mavlink2.UnknownMessage{}
			if err := um.Read(fr); err != nil {
				p.Fail(hexs(keep), "UnknownMessage.Read: %v", err)
			}
			eq("UnknownMessage.Raw", hexs(um.Raw), hexs(h.Payload(keep)))
			eq("UnknownMessage.GetID", um.GetID(), h.ID)
			eq("UnknownMessage.GetVersion", um.GetVersion(), h.Version)
		})
		if pan != nil {
			p.Fail(map[string]string{"frame": hexs(keep), "stack": st}, "panic: %v", pan)
		}
		if !same(f, keep) {
			p.Fail(hexs(keep), "an accessor changed the frame to %x", f)
		}
		p.Eval()
		p.Count(fmt.Sprintf("v%d", h.Version), 1)
		if h.Len > 0 {
			p.Distinct(f)
		}
		if i%(n/8+1) == 0 {
			p.Sample(hexs(keep))
		}
	}
}
