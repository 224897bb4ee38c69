package mv

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"verifharness/ref"
)

func init() {
	props["C14"] = writing
	props["C17"] = logging
	props["C24"] = independent
}

// tagged makes a valid frame that carries who sent it (system ID) and which one it is (a counter in the payload).
func tagged(who, k int, v int) []byte {
	pl := []byte{byte(k), byte(k >> 8), byte(who), 0xfd, 1, 2, 3, 4, 3}
	if v == 1 {
		return ref.Frame1(byte(k), byte(who), 7, 0, pl, 50) // HEARTBEAT
	}
	return ref.Frame2(0, 0, byte(k), byte(who), 7, 0, pl, 50, nil)
}

// openStream is a stream under the harness's control, inside a bubble.
type openStream struct {
	p       *P
	c       *conn
	in      chan mavlink2.Frame
	s       *mavlink2.FrameStream
	cancelR context.CancelFunc
	cancelW context.CancelFunc
	rd, wr  chan struct{}
}

func open(p *P, c *conn, buf int, lib mavlink2.Dialects, invalid bool, lg mavlink2.FrameLogger) *openStream {
	c.here()
	o := &openStream{p: p, c: c, in: make(chan mavlink2.Frame, buf), rd: make(chan struct{}), wr: make(chan struct{})}
	o.s = mavlink2.NewFrameStreamWithLogger(c.rwc(), o.in, lib, invalid, lg)
	var cr, cw context.Context
	cr, o.cancelR = context.WithCancel(context.Background())
	cw, o.cancelW = context.WithCancel(context.Background())
	go func() { o.s.ReadContext(cr); close(o.rd) }()
	go func() { o.s.WriteContext(cw); close(o.wr) }()
	return o
}

// end closes everything and makes sure that the loops are gone, as the bubble needs.
func (o *openStream) end() {
	o.s.Close()
	o.cancelR()
	o.cancelW()
	time.Sleep(long)
	synctest.Wait()
	select {
	case <-o.rd:
	default:
		o.p.Fatal(nil, "the read loop did not return after Close")
	}
	select {
	case <-o.wr:
	default:
		o.p.Fatal(nil, "the write loop did not return after Close")
	}
}

func isDone(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// writing: exactly once, whole, in order.
func writing(p *P) {
	p.rule = "a case is 1-5 producers submitting numbered frames (V1, V2, signed, of any size, from one shared array or separate ones) through an unbuffered or buffered channel, over a transport with delays, to a stream that stays open, whose channel is closed later or at once behind the last frame, or whose k-th write fails; the recorded transport writes are checked offline for exactly-once, wholeness, per-producer order and silence after the failure; non-trivial with at least 3 frames"
	set := mkset("common")
	realWrites(p, p.N(150, 3000))
	n := p.N(12000, 200000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		producers := 1 + r.IntN(5)
		per := 1 + r.IntN(12)
		buf := []int{0, 0, 1, 4, 64}[r.IntN(5)]
		mode := []string{"open", "channel closed", "write error", "closed at once"}[r.IntN(4)]
		if i < p.N(1, 4) { // one stream for a very long time: more frames than 16 bits count
			producers, per, mode = 2, 35000, "open"
		}
		deep := i%40 == 3 // a deep queue, and writes slower than the producers
		if deep {
			producers, per = 1+r.IntN(3), 100<<r.IntN(5)
			buf = producers * per
			if r.IntN(2) == 0 {
				buf = buf/2 + r.IntN(buf)
			}
		}
		failAt := -1
		failErr := anyErr(r)
		c := newConn()
		if mode == "write error" {
			failAt = r.IntN(producers * per)
			c.failAt, c.failErr, c.failShort = failAt, failErr, r.IntN(20)
		}
		if r.IntN(2) == 0 {
			c.writeDelay = time.Duration(r.IntN(5)) * time.Millisecond
			if r.IntN(4) == 0 {
				c.writeDelay = pause(r)
			}
		}
		slowly := r.IntN(4) == 0
		if per > 12 {
			slowly, c.writeDelay = false, c.writeDelay%time.Second
		}
		if deep {
			c.writeDelay = time.Duration(1+r.IntN(5)) * time.Millisecond
		}
		p.Doing("case %d: %d producers of %d frames, buffer %d, %s", i, producers, per, buf, mode)
		ev := &eventLog{}
		c.events = ev
		submitted := make([][][]byte, producers)
		accepted := make([]int, producers)
		var order [][]byte // a single producer's total order
		var bad string
		var closeErr error
		p.Bubble(func() {
			o := open(p, c, buf, set.lib, r.IntN(4) == 0, anyLogger(r))
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for w := range producers {
				rr := rand.New(rand.NewPCG(uint64(w)+1, uint64(i)))
				shared := make([]byte, 0, 4096)
				for k := 0; k < per; k++ {
					var b []byte
					switch rr.IntN(4) {
					case 0, 1:
						b = tagged(w+1, k, 1+rr.IntN(2))
					case 2: // any content, even what a receiver would reject
						b = ref.Frame2(byte(rr.IntN(256))&^1, byte(rr.IntN(256)), byte(k), byte(w+1), 9, uint32(rr.IntN(1<<24)), randBytes(rr, rr.IntN(256)), 0, nil)
					case 3:
						b = ref.Frame2(0, 0, byte(k), byte(w+1), 9, 0, randBytes(rr, rr.IntN(256)), 50, payloadBytes(rr, 13))
					}
					if w == 0 && rr.IntN(40) == 0 { // nothing at all; from one producer only, as nothing tells whose it is
						b = []byte{}
						p.Count("empty_frames", 1)
					} else if k > 0 && len(submitted[w][k-1]) > 0 && rr.IntN(4) == 0 { // like the one before: all of it, or its header
						b = append([]byte(nil), submitted[w][k-1]...)
						if h, _ := ref.ParseHeader(b); h.Len > 0 && rr.IntN(2) == 0 {
							b[h.HeaderLen+rr.IntN(h.Len)] ^= byte(1 + rr.IntN(255))
						}
						p.Count("frames_like_the_one_before", 1)
					}
					shared = append(shared, b...) // neighbours in one array, to see writes past an end
					submitted[w] = append(submitted[w], b)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					at := 0
					for k, b := range submitted[w] {
						var f mavlink2.Frame = mavlink2.FrameV2{}
						if len(b) > 0 {
							f = frameOf(shared[at : at+len(b)])
						}
						at += len(b)
						if k%8 == 7 {
							f = ownFrame{f}
						}
						if !deep && rr.IntN(4) == 0 {
							d := time.Duration(rr.IntN(4)) * time.Millisecond
							if slowly {
								d = pause(rr)
							}
							time.Sleep(d)
						}
						to := o.s.Write()
						if w%2 == 1 { // the channel given at the creation is the same one
							to = o.in
						}
						select {
						case to <- f:
							accepted[w] = k + 1
						case <-stop:
							return
						}
					}
				}()
			}
			if mode == "closed at once" { // with what is in the channel's buffer still to be written
				wg.Wait()
				close(o.in)
				time.Sleep(long)
				if !isDone(o.s.Closed()) {
					bad = "the write channel was closed, but the stream is open"
				}
				closeErr = o.s.GetCloseErr()
				o.end()
				return
			}
			time.Sleep(long)
			if mode == "write error" {
				if !isDone(o.s.Closed()) {
					bad = "the transport failed to write, but the stream is open"
				}
			} else if isDone(o.s.Closed()) {
				bad = fmt.Sprintf("the stream closed by itself: %v", o.s.GetCloseErr())
			}
			close(stop)
			wg.Wait()
			if mode == "channel closed" {
				close(o.in)
				time.Sleep(long)
				if !isDone(o.s.Closed()) && bad == "" {
					bad = "the write channel was closed, but the stream is open"
				}
			}
			closeErr = o.s.GetCloseErr()
			o.end()
		})
		writes, _ := c.snapshot()
		for _, s := range submitted {
			order = append(order, s...)
		}
		wit := map[string]any{"case": p.caseName(), "submitted": hexAll(order), "written": hexAll(writes), "events": ev.all(), "failAt": failAt}
		if bad != "" {
			p.Fail(wit, "%s", bad)
		}
		want := map[string]error{"open": nil, "channel closed": mavlink2.ErrWriteChannelClosed, "closed at once": mavlink2.ErrWriteChannelClosed, "write error": failErr}[mode]
		if closeErr != want {
			p.Fail(wit, "the close error is %v, and should be %v", closeErr, want)
		}
		if mode == "write error" {
			if len(writes) != failAt+1 {
				p.Fail(wit, "%d writes were tried, with write %d failing", len(writes), failAt)
			}
			writes = writes[:min(len(writes), failAt)]
		}
		if c.lateWrites > 0 {
			p.Fail(wit, "the transport was written to after it was closed")
		}
		// every write is the next frame of some producer
		next := make([]int, producers)
		for j, b := range writes {
			w := producerOf(b) - 1
			if len(b) == 0 {
				w = 0
			}
			if w < 0 || w >= producers || next[w] >= len(submitted[w]) || !same(submitted[w][next[w]], b) {
				p.Fail(wit, "write %d (%x) is not the next frame of its producer, whole and unchanged", j, b)
				break
			}
			next[w]++
		}
		total := 0
		for w := range next {
			total += next[w]
			if mode != "write error" && next[w] != per {
				p.Fail(wit, "producer %d submitted %d frames, %d were written", w, per, next[w])
			}
		}
		if mode == "write error" && total != failAt && !p.Failed() {
			p.Fail(wit, "%d frames were written before the failure, and should be %d", total, failAt)
		}
		p.Eval()
		p.Count("frames_written", len(writes))
		p.Count("mode_"+mode, 1)
		if deep {
			p.Count("deep_queues", 1)
		}
		if producers*per >= 3 {
			p.Distinct([]byte(strings.Join(hexAll(writes), ",")), []byte(mode))
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"case": p.caseName(), "written": len(writes)})
		}
	}
}

// ownFrame is a frame of a type that the library does not know.
type ownFrame struct{ mavlink2.Frame }

func producerOf(b []byte) int {
	if len(b) > 5 {
		if b[0] == 0xfe {
			return int(b[3])
		}
		return int(b[5])
	}
	return 0
}

func hexAll(bs [][]byte) (out []string) {
	for _, b := range bs {
		out = append(out, hexs(b))
	}
	return
}

// anyLogger is no logger, mostly, or one that takes everything, or one that takes nothing.
func anyLogger(r *rand.Rand) mavlink2.FrameLogger {
	switch r.IntN(6) {
	case 0:
		return goodLogger{}
	case 1:
		return deafLogger{}
	}
	return nil
}

type goodLogger struct{}

func (goodLogger) LogRead([]byte) error    { return nil }
func (goodLogger) LogWritten([]byte) error { return nil }

// memLogger records what it is told, into the same event log as the rest.
type memLogger struct {
	mu           sync.Mutex
	read, wrote  [][]byte
	ev           *eventLog
	err          error
	onRead       func()
	onWrite      func()
	readAliases  [][]byte
	writeAliases [][]byte
}

func (l *memLogger) LogRead(b []byte) error {
	l.mu.Lock()
	l.read = append(l.read, append([]byte(nil), b...))
	l.readAliases = append(l.readAliases, b)
	l.ev.add("log-read " + hexs(b))
	l.mu.Unlock()
	if l.onRead != nil {
		l.onRead()
	}
	return l.err
}

func (l *memLogger) LogWritten(b []byte) error {
	l.mu.Lock()
	l.wrote = append(l.wrote, append([]byte(nil), b...))
	l.writeAliases = append(l.writeAliases, b)
	l.ev.add("log-written " + hexs(b))
	l.mu.Unlock()
	if l.onWrite != nil {
		l.onWrite()
	}
	return l.err
}

// logging: the log is the history of the stream.
func logging(p *P) {
	p.rule = "a case is a duplex run (frames of all kinds arriving, frames submitted, slow consumer or loggers that fail or dawdle, a failing write, a failing read or Close in the middle) with a logger; the event log is checked offline: reads logged are the delivered frames in order, each before its delivery, with at most one more at the end; writes logged are exactly the successful transport writes, each after its write; non-trivial with at least 2 frames in each direction"
	n := p.N(12000, 200000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		invalid := r.IntN(3) == 0
		st := genStream(r, set, 2+r.IntN(10), true)
		haul := i < p.N(2, 4)
		if haul { // more frames than 16 bits count
			set = mkset("common")
			st = &stream{data: longHaul(r, set, 70000)}
		}
		ev := &eventLog{}
		lg := &memLogger{ev: ev}
		if r.IntN(3) == 0 {
			lg.err = errors.New("log full")
		}
		if r.IntN(3) == 0 {
			d := time.Duration(1+r.IntN(5)) * time.Millisecond
			if r.IntN(3) == 0 {
				d = pause(r)
			}
			lg.onRead = func() { time.Sleep(d) }
			lg.onWrite = lg.onRead
		}
		ending := r.IntN(4)
		if haul {
			ending = 2
		}
		if ending == 3 { // the transport's reading fails, anywhere
			at := 1 + r.IntN(len(st.data))
			st.data = st.data[:at:at]
		}
		sc := chunks(r, st.data, r.IntN(chunkStyles))
		if haul {
			sc = chunks(r, st.data, 3)
		}
		if ending == 3 {
			sc = withEnd(sc, anyErr(r))
			p.Count("reading_failed", 1)
		}
		for j := range sc {
			if r.IntN(4) == 0 {
				sc[j].after = time.Duration(r.IntN(3)) * time.Millisecond
				if r.IntN(8) == 0 {
					sc[j].after = pause(r)
				}
			}
		}
		c := newConn(sc...)
		nw := r.IntN(12)
		if haul {
			nw = 70000
		}
		if ending == 0 && nw > 0 {
			c.failAt, c.failErr = r.IntN(nw), anyErr(r)
		}
		c.events = ev
		var frames []got
		slow := time.Duration(0)
		if r.IntN(3) == 0 {
			slow = time.Duration(r.IntN(4)) * time.Millisecond
			if r.IntN(3) == 0 {
				slow = pause(r)
			}
		}
		stopAt := long
		if ending == 1 {
			stopAt = time.Duration(r.IntN(30)) * time.Millisecond
		}
		if haul {
			slow, lg.onRead, lg.onWrite = 0, nil, nil
			if lg.err = nil; i%2 == 0 {
				lg.err = errors.New("log full")
			}
		}
		p.Doing("case %d, dialects %s, invalid %v, %d submitted, ending %d", i, set.name, invalid, nw, ending)
		other := &memLogger{ev: &eventLog{}} // of a stream on which nothing happens
		p.Bubble(func() {
			aside := func() (end func()) {
				s := mavlink2.NewFrameStreamWithLogger(newConn(), make(chan mavlink2.Frame), set.lib, !invalid, other)
				ctx, cancel := context.WithCancel(context.Background())
				go s.ReadContext(ctx)
				go s.WriteContext(ctx)
				p.Count("other_streams", 1)
				return func() { s.Close(); cancel() }
			}
			where := r.IntN(4)
			if where == 0 {
				defer aside()()
			}
			o := open(p, c, 0, set.lib, invalid, lg)
			if where == 1 {
				defer aside()()
			}
			cons := make(chan struct{})
			go func() {
				defer close(cons)
				for f := range o.s.Read() {
					frames = append(frames, take(f))
					ev.add("delivered " + hexs(f.Bytes()))
					if slow > 0 {
						time.Sleep(slow)
					}
				}
			}()
			go func() {
				var last []byte
				for k := 0; k < nw; k++ {
					b := tagged(1, k, 1+k%2)
					switch {
					case haul:
					case last != nil && r.IntN(4) == 0:
						b = append([]byte(nil), last...)
					case r.IntN(3) == 0 && len(set.msgs) > 0:
						b = validFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
					}
					last = b
					select {
					case o.s.Write() <- frameOf(b):
					case <-o.s.Closed():
						return
					}
				}
			}()
			time.Sleep(stopAt)
			o.end()
			<-cons
		})
		writes, _ := c.snapshot()
		if c.failAt >= 0 && len(writes) > c.failAt {
			writes = writes[:c.failAt]
		}
		wit := map[string]any{"dialects": set.name, "stream": hexs(st.data), "events": ev.all()}
		must, may := expected(set, st.data, invalid)
		if stopAt < long || c.failAt >= 0 { // closed in the middle: a prefix
			must, may = nil, append(must, may...)
		}
		if bad := compare(st.data, frames, must, may); bad != "" {
			p.Fail(wit, "with a logger: %s", bad)
		}
		if len(lg.read) < len(frames) || len(lg.read) > len(frames)+1 {
			p.Fail(wit, "%d frames were delivered, %d logged", len(frames), len(lg.read))
		}
		if !(stopAt < long || c.failAt >= 0) && len(lg.read) != len(frames) {
			p.Fail(wit, "%d frames were delivered, %d logged, and the stream was not closed in between", len(frames), len(lg.read))
		}
		for j, g := range frames {
			if j < len(lg.read) && !same(lg.read[j], g.Raw) {
				p.Fail(wit, "delivered frame %d is %x, logged %x", j, g.Raw, lg.read[j])
				break
			}
		}
		if len(other.read)+len(other.wrote) > 0 {
			p.Fail(wit, "the logger of another stream, on which nothing happens, was told %d frames", len(other.read)+len(other.wrote))
		}
		if len(lg.wrote) != len(writes) {
			p.Fail(wit, "%d successful writes, %d logged", len(writes), len(lg.wrote))
		}
		for j := range lg.wrote {
			if j < len(writes) && !same(lg.wrote[j], writes[j]) {
				p.Fail(wit, "write %d is %x, logged %x", j, writes[j], lg.wrote[j])
			}
		}
		// the order of events
		reads, wrs := 0, 0
		for _, e := range ev.all() {
			switch {
			case strings.HasPrefix(e, "log-read"):
				reads++
			case strings.HasPrefix(e, "delivered"):
				if reads--; reads < 0 {
					p.Fail(wit, "a frame was delivered before it was logged")
				}
			case e == "write":
				wrs++
			case strings.HasPrefix(e, "log-written"):
				if wrs--; wrs < 0 {
					p.Fail(wit, "a write was logged before it was done")
				}
			}
		}
		p.Eval()
		p.Count("delivered", len(frames))
		p.Count("logged_reads", len(lg.read))
		p.Count("logged_writes", len(lg.wrote))
		p.Count("events", len(ev.all()))
		if len(lg.read) > len(frames) {
			p.Count("logged_but_closed_before_delivery", 1)
		}
		if len(frames) >= 2 && len(writes) >= 2 {
			p.Distinct(st.data, []byte(strings.Join(ev.all(), ",")))
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"case": p.caseName(), "events": len(ev.all())})
		}
	}
}

// independent: neither direction waits for the other.
func independent(p *P) {
	p.rule = "a case blocks one side for good (the consumer does not take frames; the transport has nothing to read; the transport's write hangs; nothing is submitted; the logger hangs in one direction; in the end, the transport's Close hangs) and checks, at quiescence, that everything the other side can do is done, and that Closed, GetCloseErr, Read and Write (the accessors) return; non-trivial with at least 2 frames in the free direction"
	n := p.N(12000, 200000)
	realStall(p, p.N(40, 600))
	kinds := []string{"consumer gone", "idle transport", "write hangs", "no submissions", "read logger hangs", "write logger hangs", "only reading", "only writing", "close hangs"}
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		kind := kinds[i%len(kinds)]
		set := pickSet(r)
		st := genStream(r, set, 2+r.IntN(12), true)
		invalid := r.IntN(3) == 0
		must, may := expected(set, st.data, invalid)
		nw := 2 + r.IntN(20)
		c := newConn(chunks(r, st.data, r.IntN(chunkStyles))...)
		if kind == "idle transport" {
			c = newConn()
			must, may = nil, nil
		}
		if kind == "write hangs" {
			c.blockAt = r.IntN(2)
		}
		hang := make(chan struct{})
		lg := &memLogger{ev: &eventLog{}}
		if kind == "read logger hangs" {
			lg.onRead = func() { <-hang }
		}
		if kind == "write logger hangs" {
			lg.onWrite = func() { <-hang }
		}
		var logger mavlink2.FrameLogger = lg
		if lg.onRead == nil && lg.onWrite == nil {
			logger = anyLogger(r)
		}
		p.Doing("case %d, %s, dialects %s", i, kind, set.name)
		var frames []got
		var mu sync.Mutex
		var bad string
		p.Bubble(func() {
			hang = make(chan struct{})
			c.here()
			o := &openStream{p: p, c: c, in: make(chan mavlink2.Frame), rd: make(chan struct{}), wr: make(chan struct{})}
			o.s = mavlink2.NewFrameStreamWithLogger(c.rwc(), o.in, set.lib, invalid, logger)
			ctx, cancel := context.WithCancel(context.Background())
			o.cancelR, o.cancelW = cancel, cancel
			if kind != "only writing" {
				go func() { o.s.ReadContext(ctx); close(o.rd) }()
			} else {
				close(o.rd)
			}
			if kind != "only reading" {
				go func() { o.s.WriteContext(ctx); close(o.wr) }()
			} else {
				close(o.wr)
			}
			consume := func() {
				for f := range o.s.Read() {
					mu.Lock()
					frames = append(frames, take(f))
					mu.Unlock()
				}
			}
			if kind != "consumer gone" {
				go consume()
			}
			if kind != "no submissions" && kind != "only reading" {
				go func() {
					for k := 0; k < nw; k++ {
						select {
						case o.s.Write() <- frameOf(tagged(1, k, 1+k%2)):
						case <-ctx.Done():
							return
						}
					}
				}()
			}
			time.Sleep(long)
			synctest.Wait()
			mu.Lock()
			fs := append([]got(nil), frames...)
			mu.Unlock()
			writes, _ := c.snapshot()
			done := 0
			for k, b := range writes {
				if b != nil && same(b, tagged(1, k, 1+k%2)) {
					done++
				}
			}
			if kind != "consumer gone" && kind != "read logger hangs" && kind != "only writing" {
				if why := compare(st.data, fs, must, may); why != "" {
					bad = "reading stopped: " + why
				}
			}
			if kind != "write hangs" && kind != "no submissions" && kind != "write logger hangs" && kind != "only reading" && done != nw {
				bad = fmt.Sprintf("writing stopped: %d of %d submitted frames are written", done, nw)
			}
			acc := make(chan struct{})
			if kind == "close hangs" {
				c.onClose = func() { <-hang }
				go o.s.Close()
				synctest.Wait()
			}
			go func() {
				if kind == "close hangs" {
					o.s.Closed()
					o.s.GetCloseErr()
				} else if isDone(o.s.Closed()) || o.s.GetCloseErr() != nil {
					bad = fmt.Sprintf("the stream closed by itself: %v", o.s.GetCloseErr())
				}
				o.s.Read()
				o.s.Write()
				close(acc)
			}()
			synctest.Wait()
			if !isDone(acc) {
				p.Fatal(nil, "Closed, GetCloseErr, Read or Write block while the other side is blocked")
			}
			p.Count("free_reads", len(fs))
			p.Count("free_writes", done)
			if len(fs) >= 2 || done >= 2 {
				p.Distinct(st.data, []byte(kind), []byte{byte(nw)})
			}
			close(hang)
			o.end()
		})
		if bad != "" {
			p.Fail(map[string]any{"dialects": set.name, "stream": hexs(st.data), "kind": kind, "submitted": nw}, "%s: %s", kind, bad)
		}
		p.Eval()
		p.Count(kind, 1)
		if i < 8 {
			p.Sample(p.caseName())
		}
	}
}
