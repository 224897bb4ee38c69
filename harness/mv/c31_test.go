package mv

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

func init() { props["C31"] = endurance }

// belt is a transport that goes on and on: it hands out what make makes for as long as its budget lasts, and says
// when a read finds nothing left; writes go nowhere.
type belt struct {
	mu      sync.Mutex
	more    *sync.Cond
	next    func(lap int) []byte
	cut     func() int
	cur     []byte
	lap     int
	budget  int  // laps to go
	dry     bool // a read waits for budget
	dead    bool
	written int
}

func newBelt(next func(int) []byte, cut func() int) *belt {
	b := &belt{next: next, cut: cut}
	b.more = sync.NewCond(&b.mu)
	return b
}

func (b *belt) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for len(b.cur) == 0 && !b.dead {
		if b.budget > 0 {
			b.budget--
			b.cur = b.next(b.lap)
			b.lap++
			continue
		}
		b.dry = true
		b.more.Broadcast()
		b.more.Wait()
	}
	if b.dead {
		return 0, errClosedConn
	}
	n := copy(p, b.cur[:min(len(b.cur), b.cut())])
	b.cur = b.cur[n:]
	return n, nil
}

// laps lets so many laps pass, and waits until they have been read and a read asks for more.
func (b *belt) laps(k int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for !b.dry && !b.dead {
		b.more.Wait()
	}
	b.budget, b.dry = b.budget+k, false
	b.more.Broadcast()
	for !b.dry && !b.dead {
		b.more.Wait()
	}
}

func (b *belt) Write(p []byte) (int, error) {
	b.mu.Lock()
	b.written++
	b.mu.Unlock()
	return len(p), nil
}

func (b *belt) Close() error {
	b.mu.Lock()
	b.dead = true
	b.more.Broadcast()
	b.mu.Unlock()
	return nil
}

// level is what the process holds on to: live heap bytes and objects, and goroutines, when all is still.
type level struct{ bytes, objects, goroutines int }

func levels() (l level) {
	best := level{math.MaxInt, math.MaxInt, math.MaxInt}
	for calm := 0; calm < 3; calm++ { // finalizers, pools and goroutines that are about to end take a while
		runtime.GC()
		time.Sleep(time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if g := runtime.NumGoroutine(); g < best.goroutines {
			calm = 0
			best.goroutines = g
		}
		best.bytes = min(best.bytes, int(m.HeapAlloc))
		best.objects = min(best.objects, int(m.HeapObjects))
	}
	return best
}

// work is something to be done over and over.
type work struct {
	name   string
	units  string
	prep   func()         // comes before everything
	run    func(laps int) // does so many laps, and returns when all is still
	per    int            // units per lap
	laps   int            // in the first, short, run
	end    func()
	linear bool // the time for a unit is to stay what it is
}

const tenfold = 10

// endurance: what goes on for long neither piles up nor gets slower.
func endurance(p *P) {
	p.rule = "a case does one kind of work (a stream that reads frames, rejected frames, noise, frames of ever new contents; a stream that writes; streams opened and closed under one context; frames and messages built, decoded and shown; UDP from many peers) for a while, and then for ten times as long: what the process holds when all is still (live heap bytes, objects, goroutines) must not have grown with the work, nor the processor time that a unit of work takes; judged by the difference, and confirmed by doing it all again twice; distinct by the work and its contents"
	n := p.N(48, 640)
	for i := 0; i < n && !p.Failed(); i++ {
		grown := []string{}
		var what string
		for try := range 3 {
			r := p.Rand(i)
			w := pickWork(p, r, i)
			p.Doing("case %d: %s", i, w.name)
			w.prep()
			w.run(w.laps) // warm: tables, pools, buffers
			c0 := cpu()
			w.run(w.laps)
			c1 := cpu()
			before := levels()
			for range tenfold { // in pieces, so that the watchdog sees it go on
				w.run(w.laps)
				p.beats.Add(1)
			}
			after := levels()
			c2 := cpu()
			w.run(w.laps)
			c3 := cpu()
			runtime.KeepAlive(w)
			units := w.laps * w.per * tenfold
			what = ""
			db, do, dg := after.bytes-before.bytes, after.objects-before.objects, after.goroutines-before.goroutines
			switch {
			case dg > 3+w.laps/10:
				what = fmt.Sprintf("%d goroutines more after %d more %s", dg, units, w.units)
			case db > 48<<10+units/4 || do > 300+units/16:
				what = fmt.Sprintf("%d bytes in %d objects more are held after %d more %s", db, do, units, w.units)
			case w.linear && c1-c0 > 4*time.Millisecond && c3-c2 > 5*(c1-c0):
				what = fmt.Sprintf("%d %s took %v of processor time at first, and %v after %d others", w.laps*w.per, w.units, c1-c0, c3-c2, units)
			}
			w.end()
			p.beats.Add(1)
			if try == 0 {
				p.Count("units_"+strings.ReplaceAll(w.name, " ", "_"), units)
				p.Count("growth_samples", 1)
				p.mu.Lock()
				p.counts["largest_growth_bytes"] = max(p.counts["largest_growth_bytes"], db)
				p.counts["largest_growth_objects"] = max(p.counts["largest_growth_objects"], do)
				p.mu.Unlock()
				p.Distinct([]byte(w.name), []byte{byte(i), byte(i >> 8)})
				if i%9 == 3 {
					p.Sample(map[string]any{"work": w.name, "units": units, "of": w.units, "bytes": db, "objects": do, "goroutines": dg, "first_ms": (c1 - c0).Milliseconds(), "last_ms": (c3 - c2).Milliseconds()})
				}
			}
			if what == "" {
				break
			}
			grown = append(grown, what)
		}
		if what != "" {
			p.Fail(grown, "%s", what)
		}
		p.Eval()
	}
}

func pickWork(p *P, r *rand.Rand, i int) *work {
	set := pickSet(r)
	for len(set.msgs) == 0 {
		set = pickSet(r)
	}
	switch i % 8 {
	case 0, 1, 2, 3:
		return readWork(p, r, set, i%8)
	case 4:
		return writeWork(p, r, set)
	case 5:
		return openWork(p, r, set)
	case 6:
		return codecWork(p, r)
	}
	return udpWork(p, r, set)
}

// open1 is a stream with a consumer on real threads.
func open1(b *belt, in chan mavlink2.Frame, set *dset, invalid bool, lg mavlink2.FrameLogger) (s *mavlink2.FrameStream, end func()) {
	s = mavlink2.NewFrameStreamWithLogger(b, in, set.lib, invalid, lg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { s.ReadContext(ctx); wg.Done() }()
	go func() { s.WriteContext(ctx); wg.Done() }()
	go func() {
		defer wg.Done()
		for { // as consumers are usually written: the stream is asked for its channels each time
			select {
			case f, ok := <-s.Read():
				if !ok {
					return
				}
				take(f)
				s.GetCloseErr()
			case <-s.Closed():
				return
			}
		}
	}()
	return s, func() { s.Close(); cancel(); wg.Wait() }
}

type deafLogger struct{}

func (deafLogger) LogRead([]byte) error    { return nil }
func (deafLogger) LogWritten([]byte) error { return errors.New("no log") }

func readWork(p *P, r *rand.Rand, set *dset, kind int) *work {
	w := &work{units: "frames", linear: true}
	invalid := r.IntN(2) == 0
	var lg mavlink2.FrameLogger
	if r.IntN(2) == 0 {
		lg = deafLogger{}
	}
	var next func(int) []byte
	switch kind {
	case 0: // the same again and again, of any kind
		st := genStream(r, set, 40, true)
		next = func(int) []byte { return st.data }
		w.name, w.per, w.laps = "mixed", 40, 100
	case 1: // valid frames, each different: sequence, sender, contents
		m := set.msgs[r.IntN(len(set.msgs))]
		w.name, w.per, w.laps = "valid", 40, 150
		next = func(lap int) (b []byte) {
			for k := range 40 {
				pl := payloadBytes(r, m.Max)
				b = append(b, ref.Frame2(0, 0, byte(k), byte(lap), byte(lap>>8), m.ID, pl, m.CRC, nil)...)
			}
			return
		}
	case 2: // rejected frames, always of the same sender, each different
		m := set.msgs[r.IntN(len(set.msgs))]
		w.name, w.per, w.laps = "rejected", 40, 60
		next = func(lap int) (b []byte) {
			for k := range 40 {
				pl := make([]byte, 12)
				for j := range pl {
					pl[j] = byte(lap>>(8*(j%3))) & 0x7f
				}
				b = append(b, ref.Frame2(0, 0, byte(k), 7, 7, m.ID, pl, m.CRC+1, nil)...)
			}
			return append(b, make([]byte, 300)...)
		}
	case 3: // noise without any start, or nothing
		w.name, w.units, w.per, w.laps = "noise", "kilobytes", 16, 200
		next = func(lap int) []byte {
			b := make([]byte, 16<<10)
			for j := range b {
				b[j] = byte(j+lap) & 0x7f
			}
			return b
		}
	}
	style := r.IntN(4)
	if style == 1 {
		w.laps = w.laps/4 + 1
	}
	cut := func() int { return []int{1 << 20, 1, 1500, 1 + r.IntN(600)}[style] }
	var b *belt
	var end func()
	w.prep = func() {
		b = newBelt(next, cut)
		_, end = open1(b, nil, set, invalid, lg)
	}
	w.run = func(laps int) { b.laps(laps) }
	w.end = func() { end() }
	return w
}

func writeWork(p *P, r *rand.Rand, set *dset) *work {
	w := &work{name: "writing", units: "frames", per: 50, laps: 80, linear: true}
	var lg mavlink2.FrameLogger
	if r.IntN(2) == 0 {
		lg = deafLogger{}
	}
	in := make(chan mavlink2.Frame, r.IntN(3))
	b := newBelt(func(int) []byte { return nil }, func() int { return 1 })
	var s *mavlink2.FrameStream
	var end func()
	var total int
	w.prep = func() { s, end = open1(b, in, set, false, lg) }
	w.run = func(laps int) {
		for range laps {
			for range w.per {
				total++
				select {
				case s.Write() <- frameOf(tagged(1+total>>16&0x7f, total&0xffff, 1+total&1)):
				case <-s.Closed():
					p.Fatal(nil, "the stream closed by itself: %v", s.GetCloseErr())
				}
			}
		}
		for { // the last ones are on their way
			b.mu.Lock()
			n := b.written
			b.mu.Unlock()
			if n >= total {
				return
			}
			runtime.Gosched()
		}
	}
	w.end = func() { end() }
	return w
}

// openWork opens and closes streams, in various ways, all under one context.
func openWork(p *P, r *rand.Rand, set *dset) *work {
	w := &work{name: "streams", units: "streams", per: 1, laps: 100}
	ctx, cancel := context.WithCancel(context.Background())
	st := genStream(r, set, 5, true)
	w.prep = func() {}
	w.run = func(laps int) {
		for range laps {
			how := r.IntN(4)
			end := step{err: errWire}
			c := newConn(append(chunks(r, st.data, 3), end)...)
			if how != 0 {
				c = newConn(chunks(r, st.data, 3)...)
			}
			in := make(chan mavlink2.Frame)
			if how == 1 {
				c.failAt, c.failErr = 0, errWire
			}
			s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, r.IntN(2) == 0, anyLogger(r))
			var wg sync.WaitGroup
			if r.IntN(8) > 0 {
				wg.Add(1)
				go func() { s.ReadContext(ctx); wg.Done() }()
			} else if how == 0 {
				how = 2
			}
			wg.Add(2)
			go func() { s.WriteContext(ctx); wg.Done() }()
			go func() {
				for f := range s.Read() {
					take(f)
				}
				wg.Done()
			}()
			switch how {
			case 1:
				select {
				case in <- frameOf(tagged(1, 1, 2)):
				case <-s.Closed():
				}
			case 2:
				s.Close()
			case 3:
				close(in)
			}
			wg.Wait()
			<-s.Closed()
		}
		time.Sleep(2 * time.Millisecond) // for helpers that end at their own time
	}
	w.end = func() { cancel() }
	return w
}

func codecWork(p *P, r *rand.Rand) *work {
	ms := allMsgs()
	w := &work{name: "codecs", units: "messages", per: len(ms), laps: 3, linear: true}
	w.prep = func() {}
	w.run = func(laps int) {
		for range laps {
			for _, m := range ms {
				lib := mavlink2.Dialects{libDialects["common"], libDialects[m.pkg]}
				msg := newMsg(m)
				fill(msg, m, values(r, m))
				for v := 1; v <= 2; v++ {
					f, err := lib.GetFrame(v, byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), msg)
					if err != nil {
						continue
					}
					b := f.Bytes()
					g, _ := mavlink2.FrameFromBytes(b, uint16(len(b)), true)
					lib.Validate(g)
					x, _ := lib.GetMessage(g)
					_, _ = fmt.Sprint(x), fmt.Sprint(g)
					b[len(b)-1]++
					lib.Validate(f)
				}
			}
		}
	}
	w.end = func() {}
	return w
}

// udpWork is traffic on one UDP transport from ever new peers.
func udpWork(p *P, r *rand.Rand, set *dset) *work {
	w := &work{name: "udp", units: "datagrams", per: 4, laps: 100}
	u, addr := newUDP(p)
	first := dial(p, addr)
	w.prep = func() {
		first.Write([]byte{1})
		u.Read(make([]byte, 10))
	}
	buf := make([]byte, 1500)
	w.run = func(laps int) {
		for range laps {
			c := dial(p, addr)
			d := payloadBytes(r, 1+r.IntN(300))
			for range w.per {
				c.Write(d)
				n, err := 0, errors.New("nothing came")
				t := time.AfterFunc(patience, func() {
					if dropped(addr.Port) > 0 {
						p.Inconclusive("the system dropped a datagram on the loopback interface")
					}
					p.Fatal(nil, "a datagram did not come out of Read")
				})
				n, err = u.Read(buf)
				t.Stop()
				if err != nil || n != len(d) {
					p.Fail(nil, "Read of a datagram of %d bytes: %d, %v", len(d), n, err)
				}
				u.Write(d)
				first.SetReadDeadline(time.Now().Add(patience))
				if n, err := first.Read(buf); err != nil || n != len(d) {
					p.Fail(nil, "the first peer did not get the %d bytes written: %d, %v", len(d), n, err)
				}
			}
			c.Close()
		}
	}
	w.end = func() { u.Close(); first.Close() }
	return w
}
