package mv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing/synctest"
	"time"

	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

var errWire = errors.New("wire cut")

func init() {
	props["C01"] = func(p *P) { deliver(p, false) }
	props["C04"] = func(p *P) { deliver(p, true) }
	props["C02"] = segmentation
	props["C03"] = prompt
}

// deliver: the delivered frames are those of the reference scan.
func deliver(p *P, invalid bool) {
	p.rule = "a case is a dialect set, a byte stream (valid V1/V2/signed frames mixed with corrupted, mis-sized, unknown, cut and nested frames, noise and false starts) and a way to cut it into transport reads; it is non-trivial if the scan finds a valid frame and rejects at least one candidate, or is one of the special layouts"
	n := p.N(24000, 400000)
	for k := 0; k < p.N(3, 9) && !p.Failed(); k++ {
		// one stream for a very long time: more frames than 16 bits count, and more bytes than 24 bits do; and between
		// some frames, more rejected candidates in a row than 16 bits count
		r := p.Rand(1<<30 + k)
		set := mkset("common", "ardupilotmega")
		var data []byte
		if k%3 == 0 {
			data = longHaul(r, set, p.N(70000, 200000))
		} else if k%3 == 2 {
			for j := range 4 {
				m := set.msgs[r.IntN(len(set.msgs))]
				data = append(data, ref.Frame2(0, 0, anyByte(r), anyByte(r), anyByte(r), m.ID, randBytes(r, m.Max), m.CRC, nil)...)
				switch j {
				case 0: // complete frames of unknown messages, each of them some more candidates
					for range 70000 {
						data = append(data, ref.Frame2(0, 0, 0, byte(k), 1, 0xfffffe, nil, byte(j), nil)...)
					}
				case 1: // nothing but the starts of frames
					data = append(data, bytes.Repeat([]byte{0xfe, 0}, 70000)...)
				case 2: // nothing of any use
					data = append(data, make([]byte, 200000)...)
				}
			}
			data = append(data, make([]byte, 300)...)
		} else {
			var large []pmsg
			for _, m := range set.msgs {
				if m.Max > 150 {
					large = append(large, m)
				}
			}
			for len(data) < p.N(18<<20, 80<<20) {
				m := large[r.IntN(len(large))]
				data = append(data, ref.Frame2(0, 0, anyByte(r), anyByte(r), anyByte(r), m.ID, randBytes(r, m.Max), m.CRC, nil)...)
			}
		}
		p.Doing("long haul %d, %d bytes", k, len(data))
		must, may := expected(set, data, invalid)
		rd := runRead(p, set, withEnd(chunks(r, data, 3), io.EOF), readOpts{invalid: invalid})
		p.Eval()
		if bad := compare(data, rd.frames, must, may); bad != "" {
			p.Fail(map[string]any{"stream_sha_seed": p.Seed, "bytes": len(data), "delivered": len(rd.frames), "due": len(must), "err": fmt.Sprint(rd.err)}, "after %d frames: %s", len(rd.frames), bad)
		}
		p.Count("long_haul_delivered", len(rd.frames))
	}
	realReads(p, p.N(300, 6000), invalid)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		var st *stream
		special := i%12 == 5
		if special {
			st = specialStream(r, set, i/12)
		} else {
			st = genStream(r, set, 1+r.IntN(24), r.IntN(3) > 0)
		}
		style := r.IntN(chunkStyles)
		p.Doing("case %d, dialects %s, cut into %s", i, set.name, chunkName(style))
		must, may := expected(set, st.data, invalid)
		sc := chunks(r, st.data, style)
		if r.IntN(4) == 0 {
			for j := range sc {
				if r.IntN(6) == 0 {
					sc[j].after = pause(r)
				}
			}
		}
		rd := runRead(p, set, withEnd(sc, io.EOF), readOpts{invalid: invalid, nilIn: r.IntN(3) == 0, logger: anyLogger(r)})
		p.Eval()
		if bad := compare(st.data, rd.frames, must, may); bad != "" {
			p.Fail(witness(set, st.data, rd, chunkName(style)), "%s", bad)
		}
		if invalid { // nothing is lost with respect to the valid-only mode
			v := 0
			for _, c := range must {
				if c.V == 0 {
					v++
				}
				p.Count("candidate_"+c.V.String(), 1)
			}
			if v > 0 && v < len(must) {
				p.Distinct(st.data)
			}
		} else {
			rejected := 0
			for _, c := range set.tabs.Scan(st.data) {
				p.Count("candidate_"+c.V.String(), 1)
				if c.V != 0 {
					rejected++
				}
			}
			if len(must) > 0 && rejected > 0 || special {
				p.Distinct(st.data)
			}
		}
		countStream(p, st)
		p.Count("delivered", len(rd.frames))
		p.Count("cut_"+chunkName(style), 1)
		p.Count("transport_reads", rd.readCalls)
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "stream": hexs(st.data), "cut": chunkName(style), "delivered": len(rd.frames), "candidates_rejected_or_optional": len(may)})
		}
	}
}

// segmentation: how the transport cuts, delays and ends the bytes changes nothing.
func segmentation(p *P) {
	p.rule = "a case is one byte stream, in both delivery modes, carried by 8 transports that cut and delay it differently (whole, bytes, small, medium, datagrams with empty ones, around buffer sizes; the error in the same read as the last bytes; packets of up to 65507 bytes that are lost as far as they are not read at once) to consumers of different speed; non-trivial if at least one frame is delivered and the stream has at least two reads in each cut"
	realReads(p, p.N(200, 4000), false)
	n := p.N(4000, 80000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		st := genStream(r, set, 2+r.IntN(14), true)
		if i%15 == 3 {
			st = specialStream(r, set, i/15)
		}
		invalid := r.IntN(2) == 0
		end := anyErr(r)
		p.Doing("case %d, dialects %s, invalid frames %v", i, set.name, invalid)
		var rest []byte
		if i%3 == 1 && len(st.data) > 300 { // it fails anywhere, in the middle of a frame in particular
			at := 1 + r.IntN(len(st.data)-300)
			st.data, rest = st.data[:at:at], st.data[at:]
			p.Count("failed_anywhere", 1)
		}
		must, may := expected(set, st.data, invalid)
		for style := 0; style <= chunkStyles+1; style++ {
			var sc []step
			o := readOpts{invalid: invalid, nilIn: r.IntN(3) == 0, logger: anyLogger(r)}
			if style == chunkStyles+1 { // packets, the rest of which is lost if not read at once
				sc = withEnd(packets(r, st.data), end)
				o.lossy = true
			} else if style == chunkStyles {
				sc = chunks(r, st.data, 3)
				sc[len(sc)-1].err, sc[len(sc)-1].both = end, true
			} else {
				sc = withEnd(chunks(r, st.data, style), end)
			}
			if rest != nil && r.IntN(2) == 0 { // what would come after that is no business of the stream
				sc = append(sc, chunks(r, rest, 3)...)
			}
			for j := range sc {
				if r.IntN(6) == 0 {
					sc[j].after = pause(r)
				}
			}
			if r.IntN(2) == 0 {
				d := pause(r)
				o.slow = func(k int) time.Duration {
					if k > 100 { // all the pauses together have an end
						return d % time.Second
					}
					return d * time.Duration(k%3)
				}
			}
			rd := runRead(p, set, sc, o)
			how := "both"
			if style < chunkStyles {
				how = chunkName(style)
			} else if o.lossy {
				how = "packets"
			}
			if bad := compare(st.data, rd.frames, must, may); bad != "" {
				p.Fail(witness(set, st.data, rd, how), "cut into %s: %s", how, bad)
			}
			if !rd.closed {
				p.Fail(witness(set, st.data, rd, how), "the transport failed with %q, but the stream stayed open", end)
			} else if !sameErr(rd.err, end) {
				p.Fail(witness(set, st.data, rd, how), "the transport failed with %q, but the close error is %v", end, rd.err)
			}
			p.Count("delivered", len(rd.frames))
			p.Count("transport_reads", rd.readCalls)
			p.Count("runs", 1)
			p.Count("ended_by_"+end.Error(), 1)
		}
		p.Eval()
		countStream(p, st)
		if len(must) > 0 {
			p.Distinct(st.data)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "stream": hexs(st.data), "end": end.Error(), "frames": len(must)})
		}
	}
}

// prompt: an online monitor. After every single byte, with nothing more to come for now, what has been
// delivered is exactly what the scan of the bytes so far decides.
func prompt(p *P) {
	p.rule = "a case is one stream fed byte by byte to a live transport; with pauses in between, the monitor compares the delivered frames with the scan of the prefix after every byte, at quiescence; non-trivial if at least two frames are delivered before the end"
	n := p.N(4000, 60000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		st := genStream(r, set, 2+r.IntN(10), r.IntN(3) == 0)
		invalid := r.IntN(3) == 0
		var burst bool
		if r.IntN(3) == 0 {
			burst = true
		}
		p.Doing("case %d, dialects %s, invalid frames %v", i, set.name, invalid)
		var rd reading
		delivered := 0
		p.Bubble(func() {
			c := newConn()
			c.feed = make(chan step)
			in := make(chan mavlink2.Frame)
			s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, invalid, anyLogger(r))
			ctx, cancel := context.WithCancel(context.Background())
			loop, cons := make(chan struct{}), make(chan struct{})
			go func() { s.ReadContext(ctx); close(loop) }()
			frames := make(chan got, 100000)
			go func() {
				for f := range s.Read() {
					frames <- take(f)
				}
				close(cons)
			}()
			for k := 0; k < len(st.data); {
				m := 1
				if burst {
					m = min(1+r.IntN(90), len(st.data)-k)
				}
				c.feed <- step{data: st.data[k : k+m : k+m]}
				if r.IntN(200) == 0 {
					time.Sleep(pause(r))
				}
				k += m
				synctest.Wait()
				for len(frames) > 0 {
					rd.frames = append(rd.frames, <-frames)
				}
				must, _ := expected(set, st.data[:k], invalid)
				if bad := compare(st.data[:k], rd.frames, must, nil); bad != "" {
					p.Fatal(witness(set, st.data[:k], rd, ""), "after byte %d of %d, with the transport idle: %s", k, len(st.data), bad)
				}
				p.Count("online_checks", 1)
			}
			delivered = len(rd.frames)
			s.Close()
			cancel()
			<-loop
			<-cons
		})
		p.Eval()
		p.Count("delivered", delivered)
		countStream(p, st)
		if delivered >= 2 {
			p.Distinct(st.data)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "stream": hexs(st.data), "delivered": delivered, "bursts": burst})
		}
	}
}
