package mv

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
)

func init() {
	props["C15"] = shutdown
	props["C16"] = causes
	props["C22"] = races
	props["C28"] = isolation
}

var errRead, errWrite = errors.New("read side broken"), errors.New("write side broken")

// A cause is a way to close a stream.
var causeNames = []string{"Close", "cancel-read", "cancel-write", "deadline", "read-error", "write-error", "channel-closed"}

// scenario is one shutdown: who does what, when (virtual milliseconds; many coincide on purpose).
type scenario struct {
	Causes    map[string][]int // cause -> times
	Frames    int              // frames arriving, one per entry
	FrameGap  int
	Submitted int
	SubGap    int
	Consumers int
	StopAfter int // the consumers stop after this many frames; -1: never
	Buf       int
	Invalid   bool
	Logger    bool
	CloseErr  bool // the transport's Close fails
	CloseFor  int  // the transport's Close takes this many turns of others
	CloseEnd  bool // and ends its reads and writes last
	BlockAt   int  // this write hangs until the transport is closed; -1: none
	CloseFrom string
	Shared    bool // one context for both loops
	ReadOnly  bool
	WriteOnly bool
	Unit      time.Duration // of all the times above
	LateRead  int           // when the loops are started
	LateWrite int
	Nosy      bool // everybody asks the stream about its state, from everywhere
	NilIn     bool // no submission channel
	ReadErr   int  // of transportErrs
	WriteErr  int
}

func genScenario(r *rand.Rand) scenario {
	s := scenario{Causes: map[string][]int{}, Frames: r.IntN(8), FrameGap: r.IntN(2), Submitted: r.IntN(8), SubGap: r.IntN(2),
		Consumers: 1 + r.IntN(2), StopAfter: -1, Buf: r.IntN(3), Invalid: r.IntN(3) == 0, Logger: r.IntN(2) == 0, CloseErr: r.IntN(4) == 0, BlockAt: -1, Shared: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		s.StopAfter = r.IntN(3)
	}
	if r.IntN(6) == 0 {
		s.BlockAt = r.IntN(3)
	}
	s.Unit = []time.Duration{time.Millisecond, time.Millisecond, time.Second, time.Minute, time.Hour}[r.IntN(5)]
	s.Nosy = r.IntN(3) == 0
	if r.IntN(4) == 0 {
		s.CloseFor, s.CloseEnd = 1+r.IntN(300), r.IntN(2) == 0
	}
	s.ReadErr, s.WriteErr = r.IntN(len(transportErrs)), r.IntN(len(transportErrs))
	if r.IntN(6) == 0 {
		s.LateRead = r.IntN(6)
	}
	if r.IntN(6) == 0 {
		s.LateWrite = r.IntN(6)
	}
	switch r.IntN(10) {
	case 0:
		s.ReadOnly = true
		s.NilIn = r.IntN(2) == 0
	case 1:
		s.WriteOnly = true
	}
	for k := 1 + r.IntN(4); k > 0; k-- {
		c := causeNames[r.IntN(len(causeNames))]
		s.Causes[c] = append(s.Causes[c], r.IntN(4))
		if c == "Close" {
			for r.IntN(2) == 0 {
				s.Causes[c] = append(s.Causes[c], r.IntN(4))
			}
		}
	}
	if s.NilIn {
		s.Submitted = 0
		delete(s.Causes, "channel-closed")
		delete(s.Causes, "write-error")
		if len(s.Causes) == 0 {
			s.Causes["Close"] = []int{r.IntN(4)}
		}
	}
	if r.IntN(8) == 0 {
		s.CloseFrom = []string{"consumer", "read logger", "write logger", "transport read", "transport write"}[r.IntN(5)]
		if strings.Contains(s.CloseFrom, "logger") {
			s.Logger = true
		}
	}
	return s
}

type outcome struct {
	events   []string
	err      error
	nilErr   int // observations before the closing
	problems []string
	closes   int
	firstAt  time.Duration
	frames   int
	writes   int
	late     int
}

// runScenario plays a scenario to quiescence. It always ends: Close is called at the end in any case,
// after what should have happened by then was checked.
func runScenario(p *P, s scenario, checkLeaks bool) (out outcome) {
	set := mkset("common")
	ev := &eventLog{}
	prob := func(f string, a ...any) {
		ev.mu.Lock()
		out.problems = append(out.problems, fmt.Sprintf(f, a...))
		ev.mu.Unlock()
	}
	ms := func(n int) time.Duration { return time.Duration(n) * s.Unit }
	p.Bubble(func() {
		start := time.Now()
		c := newConn()
		c.events = ev
		c.feed = make(chan step)
		if s.CloseErr {
			c.closeErr = errors.New("close failed")
		}
		c.blockAt = s.BlockAt
		c.closeFor, c.closeEnd = s.CloseFor, s.CloseEnd
		closedUp := func(who string) {
			c.mu.Lock()
			n := c.closedUp
			c.mu.Unlock()
			if n == 0 {
				prob("%s returned before the transport was closed", who)
			}
		}
		if at, ok := s.Causes["write-error"]; ok {
			c.failErr = transportErrs[s.WriteErr]
			c.failAt = at[0]
			s.Submitted = max(s.Submitted, at[0]+1)
		}
		lg := &memLogger{ev: ev}
		var logger mavlink2.FrameLogger
		if s.Logger {
			logger = lg
		}
		in := make(chan mavlink2.Frame, s.Buf)
		if s.NilIn {
			in = nil
		}
		st := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, s.Invalid, logger)
		if s.Nosy {
			look := func() {
				was := isDone(st.Closed())
				e := st.GetCloseErr()
				st.Read()
				st.Write()
				if was && e == nil {
					prob("Closed is closed, but GetCloseErr is nil")
				}
			}
			c.onRead, c.onWrite, c.onClose = look, look, look
			lg.onRead, lg.onWrite = look, look
		}
		closeOnce := sync.OnceFunc(func() {
			ev.add("reentrant-close")
			st.Close()
			closedUp("Close")
			if !isDone(st.Closed()) {
				prob("Close, called from the %s, returned before the stream was closed", s.CloseFrom)
			}
		})
		switch s.CloseFrom {
		case "read logger":
			lg.onRead = closeOnce
		case "write logger":
			lg.onWrite = closeOnce
		case "transport read":
			c.onRead = closeOnce
		case "transport write":
			c.onWrite = closeOnce
		}
		ctxR, cancelR := context.WithCancel(context.Background())
		ctxW, cancelW := context.WithCancel(context.Background())
		if at, ok := s.Causes["deadline"]; ok {
			ctxR, cancelR = context.WithTimeout(context.Background(), ms(at[0]))
		}
		if s.Shared {
			ctxW, cancelW = ctxR, cancelR
		}
		loops := map[string]chan struct{}{}
		loop := func(name string, f func()) {
			ch := make(chan struct{})
			loops[name] = ch
			go func() { f(); ev.add(name + "-returned"); close(ch) }()
		}
		if !s.WriteOnly {
			loop("read-loop", func() { time.Sleep(ms(s.LateRead)); st.ReadContext(ctxR) })
		}
		if !s.ReadOnly {
			loop("write-loop", func() { time.Sleep(ms(s.LateWrite)); st.WriteContext(ctxW) })
		}
		// the observer sees the closing and looks at once
		loop("observer", func() {
			<-st.Closed()
			e := st.GetCloseErr()
			if e == nil {
				prob("Closed is closed, but GetCloseErr is nil")
			}
			out.firstAt = time.Since(start)
			ev.add("observed-closed")
		})
		stopAll := make(chan struct{})
		for k := range s.Consumers {
			loop(fmt.Sprintf("consumer%d", k), func() {
				for n := 0; s.StopAfter < 0 || n < s.StopAfter; n++ {
					f, ok := <-st.Read()
					if !ok {
						if st.GetCloseErr() == nil {
							prob("the frame channel is closed, but GetCloseErr is nil")
						}
						return
					}
					take(f)
					ev.add("delivered")
					ev.mu.Lock()
					out.frames++
					ev.mu.Unlock()
					_ = f.Bytes()
					if s.CloseFrom == "consumer" {
						closeOnce()
					}
				}
			})
		}
		loop("peer", func() {
			for k := 0; k < s.Frames; k++ {
				if s.FrameGap > 0 {
					time.Sleep(ms(s.FrameGap))
				}
				select {
				case c.feed <- step{data: tagged(3, k, 1+k%2)}:
				case <-stopAll:
					return
				}
			}
			if at, ok := s.Causes["read-error"]; ok {
				time.Sleep(ms(at[0]))
				select {
				case c.feed <- step{err: transportErrs[s.ReadErr]}:
				case <-stopAll:
				}
			}
		})
		loop("submitter", func() {
			for k := 0; k < s.Submitted; k++ {
				if s.SubGap > 0 {
					time.Sleep(ms(s.SubGap))
				}
				select {
				case in <- frameOf(tagged(4, k, 1+k%2)):
				case <-stopAll:
					return
				}
			}
			if at, ok := s.Causes["channel-closed"]; ok {
				time.Sleep(ms(at[0]))
				ev.add("channel-closed")
				close(in)
			}
		})
		for i, at := range s.Causes["Close"] {
			loop(fmt.Sprintf("closer%d", i), func() {
				time.Sleep(ms(at))
				st.Close()
				closedUp("Close")
				ev.add("Close-returned")
				if !isDone(st.Closed()) {
					prob("Close returned, but the stream is not closed")
				}
				if st.GetCloseErr() == nil {
					prob("Close returned, but GetCloseErr is nil")
				}
			})
		}
		for i, at := range s.Causes["cancel-read"] {
			loop(fmt.Sprintf("cancel-read%d", i), func() { time.Sleep(ms(at)); ev.add("cancel-read"); cancelR() })
		}
		for i, at := range s.Causes["cancel-write"] {
			loop(fmt.Sprintf("cancel-write%d", i), func() { time.Sleep(ms(at)); ev.add("cancel-write"); cancelW() })
		}
		time.Sleep(long)
		synctest.Wait()
		forced := false
		if !isDone(st.Closed()) {
			// some cause may rightly be stuck behind another (an error behind an unread frame): then close by hand
			if why := mustClose(s); why != "" {
				prob("%s, but the stream did not close", why)
			}
			forced = true
			if st.GetCloseErr() != nil {
				prob("GetCloseErr is %v on an open stream", st.GetCloseErr())
			}
			st.Close()
			if !isDone(st.Closed()) {
				prob("Close returned, but the stream is not closed")
			}
		}
		close(stopAll)
		time.Sleep(long)
		synctest.Wait()
		stuck := []string{}
		for name, ch := range loops {
			if !isDone(ch) {
				stuck = append(stuck, name)
			}
		}
		sort.Strings(stuck)
		select {
		case _, ok := <-st.Read():
			if ok {
				prob("long after the close a frame came out of Read")
			}
		default:
			prob("long after the close, the frame channel is open")
		}
		out.err = st.GetCloseErr()
		st.Close() // once more: nothing happens
		if e := st.GetCloseErr(); e != out.err {
			prob("GetCloseErr changed from %v to %v", out.err, e)
		}
		if forced && out.err != mavlink2.ErrUserClosed {
			prob("closed by Close, but GetCloseErr is %v", out.err)
		}
		w, closes := c.snapshot()
		out.closes, out.writes = closes, len(w)
		c.mu.Lock()
		out.late = c.lateWrites
		c.mu.Unlock()
		if len(stuck) > 0 {
			p.Fatal(map[string]any{"scenario": s, "events": ev.all(), "stacks": allStacks()}, "after the stream closed (%v), these never end: %s", out.err, strings.Join(stuck, ", "))
		}
		if checkLeaks {
			// the contexts may live for as long as the program: nothing of the stream may wait for them
			if st := libGoroutines(); st != "" {
				prob("after the stream closed and its loops returned, a goroutine of the library remains: %s", st)
			}
		}
		cancelR()
		cancelW()
		synctest.Wait()
	})
	out.events = ev.all()
	if out.closes != 1 {
		out.problems = append(out.problems, fmt.Sprintf("the transport was closed %d times", out.closes))
	}
	if out.late > 1 {
		out.problems = append(out.problems, fmt.Sprintf("%d writes were begun after the transport was closed", out.late))
	}
	return
}

// libGoroutines gives the stack of a goroutine that the library started or is in.
func libGoroutines() string {
	for _, g := range strings.Split(allStacks(), "\n\n")[1:] {
		if strings.Contains(g, "github.com/botlink/go-mavlink2") {
			return g
		}
	}
	return ""
}

// mustClose says why the scenario's stream has to have closed by itself, or "".
func mustClose(s scenario) string {
	if len(s.Causes["Close"]) > 0 {
		return "Close was called"
	}
	if (len(s.Causes["cancel-read"]) > 0 || len(s.Causes["deadline"]) > 0) && !s.WriteOnly {
		return "the reader's context is done"
	}
	if len(s.Causes["cancel-write"]) > 0 && !s.ReadOnly {
		return "the writer's context is done"
	}
	if s.Shared && (len(s.Causes["cancel-read"]) > 0 || len(s.Causes["cancel-write"]) > 0 || len(s.Causes["deadline"]) > 0) {
		return "the shared context is done"
	}
	if len(s.Causes["read-error"]) > 0 && s.StopAfter < 0 && !s.WriteOnly {
		return "the transport's reads fail"
	}
	if len(s.Causes["write-error"]) > 0 && !s.ReadOnly && s.BlockAt < 0 {
		return "a transport write failed"
	}
	if len(s.Causes["channel-closed"]) > 0 && !s.ReadOnly && s.BlockAt < 0 {
		return "the write channel was closed"
	}
	return ""
}

// allowed lists the close errors that a scenario can give.
func allowed(s scenario) (es []error) {
	es = append(es, mavlink2.ErrUserClosed) // the harness closes at the end what is still open
	for c := range s.Causes {
		switch c {
		case "cancel-read", "cancel-write":
			es = append(es, context.Canceled)
		case "deadline":
			es = append(es, context.DeadlineExceeded)
		case "read-error":
			es = append(es, transportErrs[s.ReadErr])
		case "write-error":
			es = append(es, transportErrs[s.WriteErr])
		case "channel-closed":
			es = append(es, mavlink2.ErrWriteChannelClosed)
		}
	}
	return
}

func shutdown(p *P) {
	p.rule = "a case is a random shutdown: 1-5 causes (Close from several goroutines or from inside the consumer, the logger or the transport; either context cancelled; deadline; read error; write error; write channel closed) at coinciding moments of virtual time, with frames in flight both ways, consumers that stop, hanging writes, loggers; monitors: no panic, loops return, channels closed, transport closed exactly once, at most one write begun afterwards, Close complete when it returns; run in the race detector's schedule; non-trivial if frames were in flight or at least two causes competed; distinct by scenario shape and observed event order"
	n := p.N(16000, 400000)
	orders := map[string]bool{}
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		s := genScenario(r)
		if i%64 == 0 {
			runtime.GOMAXPROCS([]int{1, 2, 4, 8, 3}[i/64%5])
		}
		p.Doing("case %d: %+v", i, s)
		out := runScenario(p, s, i%8 == 0)
		if i%8 == 0 {
			p.Count("leak_checks", 1)
		}
		for _, x := range out.problems {
			p.Fail(map[string]any{"scenario": s, "events": out.events}, "%s", x)
		}
		ok := false
		for _, e := range allowed(s) {
			ok = ok || sameErr(out.err, e)
		}
		if !ok {
			p.Fail(map[string]any{"scenario": s, "events": out.events}, "the close error is %v", out.err)
		}
		p.Eval()
		key := strings.Join(out.events, " ")
		orders[key] = true
		if out.frames+out.writes > 0 || len(s.Causes) > 1 {
			p.Distinct([]byte(key))
		}
		p.Count("delivered", out.frames)
		p.Count("writes", out.writes)
		p.Count("events", len(out.events))
		p.Count(fmt.Sprintf("closed_by_%v", out.err), 1)
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"scenario": s, "events": out.events, "err": fmt.Sprint(out.err)})
		}
	}
	p.Count("distinct_event_orders", len(orders))
	realEnds(p, p.N(150, 2000))
}

// causes: with one cause, or one that is clearly first, the close error is that cause, once and for all.
func causes(p *P) {
	p.rule = "a case closes a busy stream by one cause, with later causes of other kinds following (virtual time apart); the close error is nil, and the stream open, until then; it is the first cause's error right after, at Closed, and for ever after; distinct by the order of causes and the traffic around them"
	n := p.N(40000, 600000)
	set := mkset("common")
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		perm := r.Perm(len(causeNames))
		k := 1 + r.IntN(len(causeNames))
		var names []string
		for _, x := range perm[:k] {
			names = append(names, causeNames[x])
		}
		idle := r.IntN(2) == 0
		shared := r.IntN(2) == 0
		wrapped := r.IntN(2) == 0
		re, we := anyErr(r), anyErr(r)
		if wrapped {
			re, we = fmt.Errorf("read: %w", errRead), fmt.Errorf("write: %w", errWrite)
		}
		unit := []time.Duration{time.Millisecond, time.Millisecond, time.Second, time.Minute, time.Hour}[r.IntN(5)]
		p.Doing("case %d: %s; idle %v, shared %v, unit %v", i, strings.Join(names, " then "), idle, shared, unit)
		var bad string
		p.Bubble(func() {
			c := newConn()
			c.feed = make(chan step)
			c.closeErr = errors.New("close failed")
			in := make(chan mavlink2.Frame)
			st := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, r.IntN(4) == 0, anyLogger(r))
			var ctxR, ctxW context.Context
			var cancelR, cancelW context.CancelFunc
			dl := time.Duration(-1)
			for j, nm := range names {
				if nm == "deadline" {
					dl = time.Duration(j+1) * 10 * unit
				}
			}
			ctxR, cancelR = anyContext(r.IntN(4), dl)
			ctxW, cancelW = anyContext(r.IntN(4), -1)
			if shared {
				ctxW = ctxR
				cancelW = cancelR
			}
			rd, wr, con := make(chan struct{}), make(chan struct{}), make(chan struct{})
			go func() { st.ReadContext(ctxR); close(rd) }()
			go func() { st.WriteContext(ctxW); close(wr) }()
			early := false
			go func() {
				for f := range st.Read() {
					take(f)
				}
				early = st.GetCloseErr() == nil
				close(con)
			}()
			stop := make(chan struct{})
			if !idle {
				go func() {
					for j := 0; ; j++ {
						select {
						case c.feed <- step{data: tagged(3, j, 1+j%2), after: unit}:
						case <-stop:
							return
						}
					}
				}()
			}
			var first error
			closedIn := false
			for j, nm := range names {
				// until time j*10+5 nothing new happens
				time.Sleep(5 * unit)
				synctest.Wait()
				if j == 0 && (isDone(st.Closed()) || st.GetCloseErr() != nil) {
					bad = fmt.Sprintf("closed before any cause: %v", st.GetCloseErr())
				}
				time.Sleep(5 * unit)
				var want error
				switch nm {
				case "Close":
					st.Close()
					want = mavlink2.ErrUserClosed
				case "cancel-read":
					cancelR()
					want = ctxR.Err()
				case "cancel-write":
					cancelW()
					want = ctxW.Err()
				case "deadline": // happens by itself
					synctest.Wait()
					want = ctxR.Err()
				case "read-error":
					select {
					case c.feed <- step{err: re}:
					case <-st.Closed():
					}
					want = re
				case "write-error":
					c.mu.Lock()
					c.failAt, c.failErr = len(c.writes), we
					c.mu.Unlock()
					if !closedIn {
						select {
						case in <- frameOf(tagged(4, 0, 2)):
						case <-st.Closed():
						}
					}
					want = we
				case "channel-closed":
					close(in)
					closedIn = true
					want = mavlink2.ErrWriteChannelClosed
				}
				synctest.Wait()
				if first == nil {
					first = want
				}
				if !isDone(st.Closed()) {
					bad = fmt.Sprintf("after %s (cause %d) the stream is open", nm, j)
					break
				}
				if e := st.GetCloseErr(); !sameErr(e, first) {
					bad = fmt.Sprintf("after %s (cause %d) GetCloseErr is %v, and the first cause gave %v", nm, j, e, first)
					break
				}
				if e := st.GetCloseErr(); !sameErr(e, first) {
					bad = fmt.Sprintf("the second GetCloseErr is %v", e)
				}
				p.Count("cause_"+nm, 1)
			}
			close(stop)
			st.Close()
			cancelR()
			cancelW()
			time.Sleep(long)
			synctest.Wait()
			for what, ch := range map[string]chan struct{}{"read loop": rd, "write loop": wr, "frame channel": con} {
				if !isDone(ch) {
					p.Fatal(nil, "the %s did not end after the close", what)
				}
			}
			if early && bad == "" {
				bad = "the frame channel was closed while GetCloseErr was nil"
			}
			if e := st.GetCloseErr(); !sameErr(e, first) && bad == "" {
				bad = fmt.Sprintf("in the end GetCloseErr is %v, and the first cause gave %v", e, first)
			}
		})
		if bad != "" {
			p.Fail(map[string]any{"causes": names, "idle": idle, "shared": shared}, "%s", bad)
		}
		p.Eval()
		p.Count("first_"+names[0], 1)
		p.Distinct([]byte(strings.Join(names, " ")), []byte(fmt.Sprint(idle, shared, wrapped)))
		if i%(n/8+1) == 0 {
			p.Sample(p.caseName())
		}
	}
	contended(p, p.N(6000, 100000))
	realEnds(p, p.N(150, 2000))
}

// ownContext is a context of a type that the standard library does not know, with an error of its own.
type ownContext struct {
	context.Context
	err error
}

func (c ownContext) Err() error {
	if c.Context.Err() == nil {
		return nil
	}
	return c.err
}

// anyContext is a context with a deadline (unless it is negative), of one of several kinds.
func anyContext(kind int, deadline time.Duration) (context.Context, context.CancelFunc) {
	cause := errors.New("a cause, which is not the context's error")
	ctx := context.Background()
	stop := context.CancelFunc(func() {})
	if kind > 0 && deadline >= 0 {
		ctx, stop = context.WithTimeoutCause(ctx, deadline, cause)
	} else if deadline >= 0 {
		return context.WithTimeout(ctx, deadline)
	}
	switch kind {
	case 0:
		return context.WithCancel(ctx)
	case 1:
		c, cancel := context.WithCancelCause(ctx)
		return c, func() { cancel(cause); stop() }
	case 2: // what happens to the parent happens to the child
		c, cancel := context.WithCancelCause(ctx)
		d, cancel2 := context.WithCancel(context.WithValue(c, ownContext{}, 1))
		return d, func() { cancel(cause); cancel2(); stop() }
	}
	c, cancel := context.WithCancel(ctx)
	return ownContext{c, errors.New("the context's own error")}, func() { cancel(); stop() }
}

// races: every pair of operations the API allows at the same time, under the race detector.
func races(p *P) {
	p.rule = "a case runs, on real threads under the race detector, a stream with traffic both ways while goroutines call Closed, GetCloseErr, Read, Write and Close, decode and validate delivered frames, build frames, and share frames, dialects and messages for reading; the oracle is the race detector (any report in which library code takes part) and the absence of panics; distinct by the seeds of the goroutines, with the operation counts as observed"
	n := p.N(600, 12000)
	for k := range p.N(2, 40) {
		everyType(p, k)
	}
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		runtime.GOMAXPROCS([]int{8, 4, 2, 8}[i%4])
		set := pickSet(r)
		invalid := r.IntN(2) == 0
		st := genStream(r, set, 30, true)
		p.Doing("case %d, dialects %s", i, set.name)
		c := newConn(chunks(r, st.data, 1+r.IntN(5))...)
		lg := &memLogger{ev: &eventLog{}}
		var logger mavlink2.FrameLogger
		if r.IntN(2) == 0 {
			logger = lg
		}
		in := make(chan mavlink2.Frame, r.IntN(3))
		s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, invalid, logger)
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		var ops sync.Map
		do := func(name string, f func(r *rand.Rand)) {
			rr := rand.New(rand.NewPCG(r.Uint64(), uint64(i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				f(rr)
				ops.Store(name, true)
			}()
		}
		go func() { s.ReadContext(ctx) }()
		go func() { s.WriteContext(ctx) }()
		ms := allMsgs()
		sharedMsg := newMsg(ms[r.IntN(len(ms))])
		for k := 0; k < 2; k++ {
			do("consume", func(rr *rand.Rand) {
				for f := range s.Read() {
					take(f)
					fan := 1 + rr.IntN(3)
					var fw sync.WaitGroup
					for j := 0; j < fan; j++ { // one frame, several readers
						fw.Add(1)
						go func() {
							defer fw.Done()
							useFrame(set, f)
						}()
					}
					fw.Wait()
					p.Count("frames_shared", 1)
				}
			})
			do("observe", func(rr *rand.Rand) {
				for !isDone(s.Closed()) {
					s.GetCloseErr()
					s.Read()
					s.Write()
					p.Count("observations", 1)
					if rr.IntN(3) == 0 {
						runtime.Gosched()
					}
				}
				if s.GetCloseErr() == nil {
					p.Fail(nil, "closed, but GetCloseErr is nil")
				}
			})
			do("submit", func(rr *rand.Rand) {
				for j := 0; j < 30; j++ {
					f, err := set.lib.GetFrame(2, 1, 2, byte(j), sharedMsg)
					if err != nil {
						f = frameOf(tagged(5, j, 1))
					}
					select {
					case s.Write() <- f:
						p.Count("submitted", 1)
					case <-s.Closed():
						return
					}
				}
			})
			do("build", func(rr *rand.Rand) {
				for j := 0; j < 30; j++ {
					m := ms[rr.IntN(len(ms))]
					d := mavlink2.Dialects{libDialects[m.pkg]}
					x := newMsg(m)
					if fill(x, m, values(rr, m)) != nil {
						continue
					}
					if f, err := d.GetFrame(2, 1, 2, 3, x); err == nil {
						d.Validate(f)
						d.GetMessage(f)
					}
					sharedMsg.Write(2)
					_ = fmt.Sprint(sharedMsg)
					p.Count("built", 1)
				}
			})
		}
		closers := 1 + r.IntN(3)
		for k := 0; k < closers; k++ {
			do("close", func(rr *rand.Rand) {
				for j := rr.IntN(4000); j > 0; j-- {
					runtime.Gosched()
				}
				if rr.IntN(4) == 0 {
					cancel()
				} else {
					s.Close()
				}
			})
		}
		wg.Wait()
		<-s.Closed()
		cancel()
		ops.Range(func(k, _ any) bool { p.Count("ran_"+k.(string), 1); return true })
		p.Eval()
		p.Distinct(st.data)
		if i%(n/8+1) == 0 {
			p.Sample(p.caseName())
		}
	}
}

// everyType: goroutines do everything that there is to do with a message, with messages of one type: each with its own, and
// all of them with one that they only read.
func everyType(p *P, k int) {
	r := p.Rand(1<<22 + k)
	for _, m := range allMsgs() {
		if p.Failed() {
			return
		}
		p.Doing("round %d, %s.%s in four goroutines", k, m.pkg, m.Name)
		d := mavlink2.Dialects{libDialects[m.pkg]}
		common := newMsg(m)
		if err := fill(common, m, values(r, m)); err != nil {
			continue
		}
		frame, err := d.GetFrame(2, 1, 2, 3, common)
		var start, end sync.WaitGroup
		start.Add(4)
		for range 4 {
			rr := rand.New(rand.NewPCG(r.Uint64(), 22))
			end.Add(1)
			go func() {
				defer end.Done()
				start.Done()
				start.Wait()
				x := newMsg(m)
				fill(x, m, values(rr, m))
				for range 2 {
					useMessage(rr, x, true)
					useMessage(rr, common, false)
					for v := 1; v <= 2; v++ {
						if f, err := d.GetFrame(v, 1, 2, 3, x); err == nil {
							d.Validate(f)
							d.GetMessage(f)
							x.Read(f)
						}
						d.GetFrame(v, 1, 2, 3, common)
					}
					if err == nil {
						useFrame(&dset{lib: d}, frame)
					}
				}
				p.Count("messages_used", 4)
			}()
		}
		end.Wait()
		p.Eval()
	}
}

// useMessage calls every method that has no argument, and those that set a text if it may be changed.
func useMessage(r *rand.Rand, m mavlink2.Message, change bool) {
	v := reflect.ValueOf(m)
	for j := range v.NumMethod() {
		f := v.Method(j)
		switch t := f.Type(); {
		case t.NumIn() == 0:
			f.Call(nil)
		case t.NumIn() == 1 && t.In(0).Kind() == reflect.Int: // Write
			f.Call([]reflect.Value{reflect.ValueOf(1 + r.IntN(2))})
		case t.NumIn() == 1 && t.In(0).Kind() == reflect.String && change:
			f.Call([]reflect.Value{reflect.ValueOf(string(payloadBytes(r, r.IntN(60))))})
		}
	}
}

// trouble starts streams that get stuck, each in its own way, and waits until they are. What it returns ends them.
func trouble(p *P, r *rand.Rand, set *dset, k int) func() {
	free := make(chan struct{})
	var wg sync.WaitGroup
	var streams []*mavlink2.FrameStream
	for j := range k {
		kind := []string{"consumer", "write", "read logger", "write logger", "close", "read", "dialect"}[r.IntN(7)]
		p.Count("stuck_in_"+strings.ReplaceAll(kind, " ", "_"), 1)
		stuck := make(chan struct{})
		hang := func() {
			select {
			case <-stuck:
			default:
				close(stuck)
			}
			<-free
		}
		c := newConn(step{data: tagged(j+1, 0, 2)}, step{data: tagged(j+1, 1, 2)})
		in := make(chan mavlink2.Frame, 1)
		lg := &memLogger{ev: &eventLog{}}
		lib := set.lib
		switch kind {
		case "write":
			c.onWrite = hang
		case "read":
			c.onRead = hang
		case "close":
			c.onClose = hang
		case "read logger":
			lg.onRead = hang
		case "write logger":
			lg.onWrite = hang
		case "dialect":
			lib = mavlink2.Dialects{hangingDialect(hang)}
		}
		s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, lib, true, lg)
		streams = append(streams, s)
		wg.Add(2)
		go func() { defer wg.Done(); s.ReadContext(context.Background()) }()
		go func() { defer wg.Done(); s.WriteContext(context.Background()) }()
		in <- frameOf(tagged(j+1, 2, 1))
		switch kind {
		case "consumer": // nobody takes frames
			continue
		case "close":
			go s.Close()
		case "read logger", "dialect":
			wg.Add(1)
			go func() {
				defer wg.Done()
				for f := range s.Read() {
					take(f)
				}
			}()
		}
		<-stuck
	}
	return func() {
		close(free)
		for _, s := range streams {
			s.Close()
		}
		wg.Wait()
	}
}

// hangingDialect knows nothing, and takes its time to say so.
type hangingDialect func()

func (d hangingDialect) GetMeta(uint32) (mavlink2.MessageMeta, error) {
	d()
	return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
}
func (d hangingDialect) GetMessage(mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// lateConn is a transport whose reads and writes do not end with Close, but some time later, with data.
type lateConn struct {
	data [][]byte
	gate chan struct{} // of reads after the first, and of writes
	here chan struct{} // one for each call that waits at the gate
	bad  string
}

func (c *lateConn) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.data[0])
	c.data = c.data[1:]
	if len(c.data) == 0 { // the last one comes late
		c.here <- struct{}{}
		<-c.gate
	}
	return n, nil
}

func (c *lateConn) Write(p []byte) (int, error) {
	was := append([]byte(nil), p...)
	c.here <- struct{}{}
	<-c.gate
	if !same(was, p) {
		c.bad = fmt.Sprintf("a write that took long was given %x, which became %x meanwhile", was, p)
	}
	return len(p), nil
}

func (c *lateConn) Close() error { return nil }

// lateness is a number of streams that are closed, with transport calls that have not returned yet.
type lateness struct {
	mu    sync.Mutex
	conns []*lateConn
	ends  []func()
	at    int
	bad   string
}

func (l *lateness) next() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.at < len(l.conns) {
		l.at++
		close(l.conns[l.at-1].gate)
		l.ends[l.at-1]()
		if b := l.conns[l.at-1].bad; b != "" {
			l.bad = b
		}
	}
}

func (l *lateness) end() {
	for range l.conns {
		l.next()
	}
}

// lateComers makes k such streams.
func lateComers(p *P, r *rand.Rand, set *dset, k int) *lateness {
	l := &lateness{}
	for j := range k {
		st := genStream(r, set, 2+r.IntN(4), true).data
		cut := r.IntN(len(st) + 1)
		c := &lateConn{data: [][]byte{st[:cut], append(st[cut:], randBytes(r, 1+r.IntN(600))...)}, gate: make(chan struct{}), here: make(chan struct{}, 2)}
		in := make(chan mavlink2.Frame)
		s := mavlink2.NewFrameStreamWithLogger(c, in, set.lib, r.IntN(2) == 0, anyLogger(r))
		var wg sync.WaitGroup
		wg.Add(3)
		var frames []got
		go func() { defer wg.Done(); s.ReadContext(context.Background()) }()
		go func() { defer wg.Done(); s.WriteContext(context.Background()) }()
		go func() {
			defer wg.Done()
			for f := range s.Read() {
				frames = append(frames, take(f))
			}
		}()
		in <- frameOf(tagged(j+1, 0, 2))
		<-c.here
		<-c.here
		s.Close()
		l.conns = append(l.conns, c)
		l.ends = append(l.ends, func() {
			wg.Wait()
			for _, g := range frames {
				if !same(g.frame.Bytes(), g.Raw) {
					l.bad = fmt.Sprintf("a frame of a stream that was closed since was %x and is now %x", g.Raw, g.frame.Bytes())
				}
			}
		})
	}
	p.Count("closed_streams_with_late_transports", k)
	return l
}

// isolation: streams that run side by side do not see each other.
func isolation(p *P) {
	p.rule = "a case runs 4-40 streams at the same time on real threads under the race detector, each with its own dialects (shared values among them), bytes, mode and submitted frames; each must deliver and write exactly what it would alone; non-trivial if at least 4 streams delivered frames"
	n := p.N(1500, 20000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		k := 4 + r.IntN(37)
		shared := pickSet(r)
		p.Doing("case %d: %d streams", i, k)
		type one struct {
			set     *dset
			data    []byte
			invalid bool
			frames  []got
			writes  [][]byte
			sent    [][]byte
			err     error
			end     error
			log     *memLogger // or nil
		}
		all := make([]*one, k)
		release := func() {}
		if r.IntN(3) == 0 {
			release = trouble(p, r, shared, 1+r.IntN(4))
		}
		var late *lateness
		if r.IntN(3) == 0 {
			late = lateComers(p, r, shared, 2+r.IntN(6))
		}
		var wg sync.WaitGroup
		for j := range all {
			o := &one{set: shared, invalid: r.IntN(3) == 0, end: anyErr(r)}
			if r.IntN(2) == 0 {
				o.set = pickSet(r)
			}
			o.data = genStream(r, o.set, 3+r.IntN(12), true).data
			for x := 0; x < r.IntN(15); x++ {
				o.sent = append(o.sent, tagged(j+1, x, 1+x%2))
			}
			var logger mavlink2.FrameLogger
			if r.IntN(2) == 0 {
				o.log = &memLogger{ev: &eventLog{}}
				if r.IntN(4) == 0 {
					o.log.err = errors.New("log full")
				}
				logger = o.log
			}
			all[j] = o
			sc := chunks(r, o.data, r.IntN(chunkStyles))
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := newConn(sc...)
				c.feed = make(chan step)
				if late != nil {
					reads := 0
					c.onRead = func() { // between two reads of this stream, a closed one gets something
						if reads++; reads%3 == 2 {
							late.next()
						}
					}
				}
				in := make(chan mavlink2.Frame)
				s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, o.set.lib, o.invalid, logger)
				var lw sync.WaitGroup
				lw.Add(3)
				go func() { s.ReadContext(context.Background()); lw.Done() }()
				go func() { s.WriteContext(context.Background()); lw.Done() }()
				go func() {
					for f := range s.Read() {
						o.frames = append(o.frames, take(f))
					}
					lw.Done()
				}()
				for _, b := range o.sent {
					in <- frameOf(append([]byte(nil), b...))
				}
				// the last write is done once the loop takes something more, or closes
				c.feed <- step{err: o.end}
				<-s.Closed()
				lw.Wait()
				o.err = s.GetCloseErr()
				o.writes, _ = c.snapshot()
			}()
		}
		wg.Wait()
		if late != nil {
			late.end()
			if late.bad != "" {
				p.Fail(map[string]any{"case": p.caseName()}, "%s", late.bad)
			}
		}
		release()
		live := 0
		for j, o := range all {
			must, may := expected(o.set, o.data, o.invalid)
			rd := reading{frames: o.frames, err: o.err}
			if bad := compare(o.data, o.frames, must, may); bad != "" {
				p.Fail(witness(o.set, o.data, rd, ""), "stream %d of %d: %s", j, k, bad)
			}
			if !sameErr(o.err, o.end) {
				p.Fail(witness(o.set, o.data, rd, ""), "stream %d of %d: close error %v", j, k, o.err)
			}
			// the frame in flight when the transport closed may be lost; no other
			if len(o.writes) < len(o.sent)-1 || len(o.writes) > len(o.sent) {
				p.Fail(hexAll(o.writes), "stream %d of %d: %d frames were written of %d", j, k, len(o.writes), len(o.sent))
			}
			for x, b := range o.writes {
				if x < len(o.sent) && !same(b, o.sent[x]) {
					p.Fail(hexAll(o.writes), "stream %d of %d: write %d is %x, and should be %x", j, k, x, b, o.sent[x])
				}
			}
			if len(o.frames) > 0 {
				live++
			}
			for x, g := range o.frames {
				if !same(g.frame.Bytes(), g.Raw) {
					p.Fail(nil, "stream %d of %d: frame %d, kept by its consumer, was %x and is now %x", j, k, x, g.Raw, g.frame.Bytes())
				}
			}
			if o.log != nil {
				var read [][]byte
				for _, g := range o.frames {
					read = append(read, g.Raw)
				}
				if !slices.EqualFunc(o.log.read, read, same) || !slices.EqualFunc(o.log.wrote, o.writes, same) {
					p.Fail(map[string]any{"read": hexAll(read), "logged as read": hexAll(o.log.read), "written": hexAll(o.writes), "logged as written": hexAll(o.log.wrote)}, "stream %d of %d: its logger was told of other traffic than its own", j, k)
				}
				p.Count("logged", len(o.log.read)+len(o.log.wrote))
			}
			p.Count("delivered", len(o.frames))
			p.Count("written", len(o.writes))
		}
		p.Eval()
		p.Count("streams", k)
		if live >= 4 {
			p.Distinct(all[0].data, all[1].data, all[2].data)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"case": p.caseName(), "delivering": live})
		}
	}
}
