package mv

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

// got is one delivered frame: its bytes at the moment of delivery.
type got struct {
	Version int
	Raw     []byte
	frame   mavlink2.Frame
}

// reading is what was seen of one stream that was only read.
type reading struct {
	frames    []got
	closed    bool // Read() was closed before the harness closed anything
	err       error
	stuck     string // what did not end
	readCalls int
}

// readOpts say how to run a reader.
type readOpts struct {
	invalid bool
	logger  mavlink2.FrameLogger
	slow    func(i int) time.Duration // the consumer's delay before taking frame i
	each    func(g got)
	nilIn   bool // a stream that is only read needs no submission channel
	lossy   bool // the transport loses what does not fit a read
}

// runRead runs one stream over a scripted transport, in virtual time, until everything is quiet.
func runRead(p *P, set *dset, script []step, o readOpts) (rd reading) {
	p.Bubble(func() {
		c := newConn(script...)
		c.lossy = o.lossy
		var in chan mavlink2.Frame
		if !o.nilIn {
			in = make(chan mavlink2.Frame)
		}
		s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, o.invalid, o.logger)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		loop, cons := make(chan struct{}), make(chan struct{})
		go func() { s.ReadContext(ctx); close(loop) }()
		var mu sync.Mutex
		var frames []got
		go func() {
			defer close(cons)
			for i := 0; ; i++ {
				if o.slow != nil {
					if d := o.slow(i); d > 0 {
						time.Sleep(d)
					}
				}
				f, ok := <-s.Read()
				if !ok {
					return
				}
				g := take(f)
				mu.Lock()
				frames = append(frames, g)
				mu.Unlock()
				if o.each != nil {
					o.each(g)
				}
			}
		}()
		time.Sleep(long) // virtual: it passes once nothing else can happen
		synctest.Wait()
		select {
		case <-cons:
			rd.closed = true
		default:
		}
		rd.err = s.GetCloseErr()
		s.Close()
		cancel()
		time.Sleep(long)
		synctest.Wait()
		for what, ch := range map[string]chan struct{}{"the read loop": loop, "the frame channel": cons} {
			select {
			case <-ch:
			default:
				rd.stuck = what
			}
		}
		mu.Lock()
		rd.frames = frames
		mu.Unlock()
		rd.readCalls = c.reads
		if rd.stuck != "" {
			p.Fatal(nil, "%s did not end after the transport failed, Close and cancel", rd.stuck)
		}
	})
	return
}

// expected splits the scan's candidates into those a receiver must deliver and those it may.
func expected(set *dset, data []byte, invalid bool) (must, may []ref.Cand) {
	for _, c := range set.tabs.Scan(data) {
		if c.V != ref.OK && !invalid {
			continue
		}
		if c.Tail {
			may = append(may, c)
		} else {
			must = append(must, c)
		}
	}
	return
}

// compare checks delivered frames against the scan. It returns "" or what is wrong.
func compare(data []byte, frames []got, must, may []ref.Cand) string {
	all := append(append([]ref.Cand(nil), must...), may...)
	for i, g := range frames {
		if i >= len(all) {
			return fmt.Sprintf("frame %d (%x) was delivered, but the scan finds only %d", i, g.Raw, len(all))
		}
		w := data[all[i].Start:all[i].End]
		if !same(g.Raw, w) {
			return fmt.Sprintf("frame %d is %x, the scan's is %x (bytes %d..%d, %v)", i, g.Raw, w, all[i].Start, all[i].End, all[i].V)
		}
		if want := map[byte]int{0xfe: 1, 0xfd: 2}[w[0]]; g.Version != want {
			return fmt.Sprintf("frame %d (%x) was delivered as version %d", i, g.Raw, g.Version)
		}
	}
	if len(frames) < len(must) {
		c := must[len(frames)]
		return fmt.Sprintf("frame %d, %x (bytes %d..%d, %v), was not delivered", len(frames), data[c.Start:c.End], c.Start, c.End, c.V)
	}
	return ""
}

type streamWitness struct {
	Dialects  string
	Stream    string
	Delivered []string
	Chunks    string `json:",omitempty"`
	Err       string
}

func witness(set *dset, data []byte, rd reading, how string) streamWitness {
	w := streamWitness{Dialects: set.name, Stream: hexs(data), Chunks: how, Err: fmt.Sprint(rd.err)}
	for _, g := range rd.frames {
		w.Delivered = append(w.Delivered, hexs(g.Raw))
	}
	return w
}

// eof ends a script.
func withEnd(st []step, err error) []step { return append(st, step{err: err}) }

// countStream reports what a generated stream was made of.
func countStream(p *P, st *stream) {
	for k, n := range st.kinds {
		p.Count("sent_"+k, n)
	}
	p.Count("bytes", len(st.data))
}

func chunkName(i int) string {
	return [...]string{"one read", "byte by byte", "1-7 bytes", "1-300 bytes", "datagrams", "buffer sizes"}[i]
}

// special streams: exact layouts that random mixing seldom gives.
func specialStream(r *rand.Rand, s *dset, kind int) *stream {
	st := &stream{kinds: map[string]int{}}
	pick := func() pmsg { return s.msgs[r.IntN(len(s.msgs))] }
	switch kind % 8 {
	case 0: // a very long run of back-to-back largest signed frames
		for i := 0; i < 40; i++ {
			m := s.msgs[0]
			for _, x := range s.msgs {
				if x.Max > m.Max || x.Max == m.Max && r.IntN(3) == 0 {
					m = x
				}
			}
			p := randBytes(r, m.Max)
			st.add("signed", ref.Frame2(0, 0, byte(i), 1, 1, m.ID, p, m.CRC, randBytes(r, 13)))
		}
	case 1: // the smallest frames, thousands of them
		for i := 0; i < 400; i++ {
			m := pick()
			st.add("valid", ref.Frame2(0, 0, byte(i), 1, 1, m.ID, nil, m.CRC, nil))
		}
	case 2: // every frame behind a start byte
		for i := 0; i < 30; i++ {
			st.add("starts", []byte{0xfd + byte(r.IntN(2))})
			st.add("valid", validFrame(r, s, pick()))
		}
	case 3: // frames one byte apart in a hostile carrier: a false header that spans several real frames
		for i := 0; i < 20; i++ {
			st.add("falsestart", []byte{0xfd, byte(r.IntN(256)), byte(r.IntN(2))})
			for j := r.IntN(4); j >= 0; j-- {
				st.add("valid", validFrame(r, s, pick()))
			}
		}
	case 4: // only start bytes
		b := make([]byte, 1500)
		for i := range b {
			b[i] = 0xfd + byte(r.IntN(2))
		}
		st.add("starts", b)
		st.add("valid", validFrame(r, s, pick()))
	case 5: // duplicates: the same frame again and again
		f := validFrame(r, s, pick())
		for i := 0; i < 30; i++ {
			st.add("valid", f)
			if r.IntN(4) == 0 {
				st.add("noise", randBytes(r, 1))
			}
		}
	case 6: // signed and unsigned, versions and lengths alternating, no gaps
		for i := 0; i < 60; i++ {
			m := pick()
			v := 2
			if m.ID < 256 && i%2 == 0 {
				v = 1
			}
			st.add("valid", validFrameV(r, m, v, i%3 == 0))
		}
	case 7: // a long stream
		for i := 0; i < 40; i++ {
			st.add("noise", randBytes(r, 500+r.IntN(4000)))
			for j := r.IntN(5); j >= 0; j-- {
				st.add("valid", validFrame(r, s, pick()))
			}
		}
	}
	st.data = append(st.data, make([]byte, 300)...)
	return st
}
