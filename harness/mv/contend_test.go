package mv

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"

	mavlink2 "github.com/botlink/go-mavlink2"
)

// contended: on real threads, several causes end a stream at the same moment, while others ask for the close error
// without pause. Whichever cause it is, it is one of them, and once somebody has seen it everybody sees it.
func contended(p *P, n int) {
	set := mkset("common")
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<28 + i)
		c := newConn()
		c.feed = make(chan step)
		in := make(chan mavlink2.Frame)
		s := mavlink2.NewFrameStreamWithLogger(c.rwc(), in, set.lib, r.IntN(2) == 0, anyLogger(r))
		ctxR, cancelR := context.WithCancel(context.Background())
		ctxW, cancelW := anyContext(r.IntN(4), -1)
		re, we := fmt.Errorf("read %d: %w", i, errWire), fmt.Errorf("write %d: %w", i, errWire)
		c.failAt, c.failErr = 0, we
		type cause struct {
			name string
			want error
			do   func()
		}
		all := []cause{
			{"Close", mavlink2.ErrUserClosed, s.Close},
			{"another Close", mavlink2.ErrUserClosed, s.Close},
			{"cancel-read", context.Canceled, cancelR},
			{"cancel-write", nil, cancelW},
			{"channel-closed", mavlink2.ErrWriteChannelClosed, func() { close(in) }},
			{"read-error", re, func() {
				select {
				case c.feed <- step{err: re}:
				case <-s.Closed():
				}
			}},
			{"write-error", we, func() {
				select {
				case in <- frameOf(tagged(4, 0, 2)):
				case <-s.Closed():
				}
			}},
		}
		if r.IntN(2) == 0 { // a channel cannot be closed under one who sends on it
			all = append(all[:4], all[5:]...)
		} else {
			all = all[:6]
		}
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		all = all[:2+r.IntN(3)]
		var names []string
		for _, x := range all {
			names = append(names, x.name)
		}
		p.Doing("contest %d: %s", i, strings.Join(names, ", "))
		rl, wl := make(chan struct{}), make(chan struct{})
		go func() { s.ReadContext(ctxR); close(rl) }()
		go func() { s.WriteContext(ctxW); close(wl) }()
		if r.IntN(2) == 0 { // let the loops begin
			for range r.IntN(50) {
				runtime.Gosched()
			}
		}
		start, over := make(chan struct{}), make(chan struct{})
		var mu sync.Mutex
		var bad string
		seen := map[error]bool{}
		fail := func(format string, a ...any) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(format, a...)
			}
			mu.Unlock()
		}
		var polls, doers sync.WaitGroup
		for k := range 3 {
			polls.Add(1)
			go func() {
				defer polls.Done()
				var last error
				looks := 0
				for done := false; !done; {
					done = isDone(over)
					was := isDone(s.Closed())
					e := s.GetCloseErr()
					if was && e == nil {
						fail("Closed is closed, but GetCloseErr is nil")
					}
					if last != nil && e != last {
						fail("GetCloseErr was %v, and then %v", last, e)
					}
					last = e
					looks++
					if k > 0 || looks%64 == 0 {
						runtime.Gosched()
					}
				}
				mu.Lock()
				seen[last] = true
				mu.Unlock()
			}()
		}
		for _, x := range all {
			doers.Add(1)
			go func() { defer doers.Done(); <-start; x.do() }()
		}
		close(start)
		doers.Wait()
		if !within(s.Closed()) || !within(rl) || !within(wl) {
			p.Fatal(map[string]any{"causes": names, "stacks": allStacks()}, "the stream goes on after %s", strings.Join(names, ", "))
		}
		close(over)
		polls.Wait()
		cancelR()
		cancelW()
		err := s.GetCloseErr()
		ok := false
		for k := range all {
			if all[k].name == "cancel-write" {
				all[k].want = ctxW.Err()
			}
			ok = ok || err == all[k].want
		}
		wit := map[string]any{"causes": names}
		if bad == "" && (len(seen) != 1 || !seen[err]) {
			bad = fmt.Sprintf("different observers saw different close errors: %v, and in the end %v", seen, err)
		}
		if bad != "" {
			p.Fail(wit, "with %s at the same moment: %s", strings.Join(names, ", "), bad)
		} else if !ok {
			p.Fail(wit, "the close error is %v, after %s", err, strings.Join(names, ", "))
		}
		p.Eval()
		p.Count("contests", 1)
		for _, x := range all {
			if err == x.want {
				p.Count("won_"+x.name, 1)
			}
		}
		p.Distinct([]byte(strings.Join(names, " ")), []byte("contest"))
	}
}
