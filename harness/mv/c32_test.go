package mv

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
)

func init() { props["C32"] = relays }

// node is one router: it takes frames from the streams that lead to it, and submits each, as it is, to all the
// streams that lead on.
type node struct {
	set     *dset
	invalid bool
	in      []*hop
	out     []*hop
	look    bool          // it decodes, validates and prints what passes
	turn    chan struct{} // a mutex that the virtual clock takes for waiting
	passed  []got         // in the order in which they were submitted
}

// hop is a wire between two nodes, with the streams at both its ends.
type hop struct {
	from, to int // -1: the source
	src, dst *conn
	ins      chan mavlink2.Frame
	back     chan mavlink2.Frame // what is sent back where it came from
	ws, rs   *mavlink2.FrameStream
	sent     []byte
	writes   [][]byte
	arrived  []got
	busy     string
}

// near is a transport end that hands what is written to the other end, in pieces, and takes its time.
type near struct {
	*conn
	h *hop
	r *rand.Rand
	p *P
}

func (n near) Write(b []byte) (int, error) {
	keep := append([]byte(nil), b...)
	if n.r.IntN(4) == 0 {
		time.Sleep(time.Duration(n.r.IntN(100)) * time.Millisecond)
	}
	for _, s := range chunks(n.r, keep, n.r.IntN(4)) {
		select {
		case n.h.dst.feed <- s:
		case <-n.h.dst.closed:
			return 0, errClosedConn
		case <-n.conn.closed:
			return 0, errClosedConn
		}
	}
	if !same(b, keep) {
		n.h.busy = fmt.Sprintf("the bytes of a write changed while it went on, from %x to %x", keep, b)
	}
	n.h.sent = append(n.h.sent, keep...)
	n.h.writes = append(n.h.writes, keep)
	return len(b), nil
}

// relays: frames pass through routers unchanged.
func relays(p *P) {
	p.rule = "a case is a tree or a diamond of 1-6 routers, each of which submits every frame that it receives, as it is, to all its outgoing streams (the same frame to each), and at times back to the stream that it came from, over wires that cut and delay; a source sends valid frames of any kind (signed, flagged, untrimmed, V1 and V2) and trouble; at each wire, what was written must be exactly what the router received, one write per frame, in order, and what arrives must be what the scan of that wire's bytes finds; non-trivial if a frame passed at least two routers"
	n := p.N(4000, 50000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		nodes := []*node{}
		var hops []*hop
		link := func(a, b int) {
			h := &hop{from: a, to: b}
			hops = append(hops, h)
			if a >= 0 {
				nodes[a].out = append(nodes[a].out, h)
			}
			nodes[b].in = append(nodes[b].in, h)
		}
		twice, raw := false, false // what multiplies frames comes once
		mixed := r.IntN(3) == 0    // routers that know different dialects, or pass invalid frames
		for k := 1 + r.IntN(6); k > 0; k-- {
			nd := &node{set: set, look: r.IntN(2) == 0}
			if mixed {
				nd.set = pickSet(r)
				if r.IntN(3) == 0 && !raw {
					nd.invalid, raw = true, true
				}
			}
			nodes = append(nodes, nd)
			j := len(nodes) - 1
			if j == 0 {
				link(-1, 0)
				continue
			}
			link(r.IntN(j), j)
			if j > 1 && r.IntN(3) == 0 && !twice { // a second way to get there
				link(r.IntN(j), j)
				twice = true
			}
		}
		st := genStream(r, set, 3+r.IntN(12), true)
		if r.IntN(2) == 0 && len(set.msgs) > 0 {
			st = &stream{kinds: map[string]int{}}
			for k := 3 + r.IntN(20); k > 0; k-- {
				st.add("valid", validFrame(r, set, set.msgs[r.IntN(len(set.msgs))]))
			}
		}
		p.Doing("case %d: %d routers, %d wires, dialects %s", i, len(nodes), len(hops), set.name)
		p.Bubble(func() {
			ctx, cancel := context.WithCancel(context.Background())
			var wg, routers sync.WaitGroup
			run := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
			for _, h := range hops {
				h.dst = newConn()
				h.dst.feed = make(chan step)
				to := nodes[h.to]
				if r.IntN(4) == 0 {
					h.back = make(chan mavlink2.Frame, r.IntN(3))
				}
				h.rs = mavlink2.NewFrameStreamWithLogger(h.dst, h.back, to.set.lib, to.invalid, anyLogger(r))
				run(func() { h.rs.ReadContext(ctx) })
				if h.back != nil || r.IntN(2) == 0 {
					run(func() { h.rs.WriteContext(ctx) })
				}
				if h.from < 0 {
					continue
				}
				h.src = newConn()
				h.ins = make(chan mavlink2.Frame, r.IntN(3))
				rr := rand.New(rand.NewPCG(r.Uint64(), 1))
				h.ws = mavlink2.NewFrameStreamWithLogger(near{h.src, h, rr, p}, h.ins, nil, r.IntN(4) == 0, anyLogger(r))
				run(func() { h.ws.WriteContext(ctx) })
			}
			for _, nd := range nodes {
				nd.turn = make(chan struct{}, 1)
				for _, h := range nd.in {
					routers.Add(1)
					go func() {
						defer routers.Done()
						for f := range h.rs.Read() {
							g := take(f)
							nd.turn <- struct{}{}
							h.arrived = append(h.arrived, g)
							nd.passed = append(nd.passed, g)
							for _, o := range nd.out {
								select {
								case o.ws.Write() <- f:
								case <-o.ws.Closed():
								}
							}
							if h.back != nil {
								select {
								case h.rs.Write() <- f:
								case <-h.rs.Closed():
								}
							}
							<-nd.turn
							if nd.look { // while it is being written
								if what, pan, stack := useFrame(nd.set, f); pan != nil {
									p.Fail(map[string]string{"frame": hexs(g.Raw), "stack": stack}, "%s panics: %v", what, pan)
								}
							}
						}
					}()
				}
			}
			src := hops[0]
			src.sent = st.data
			for _, s := range chunks(r, st.data, r.IntN(chunkStyles)) {
				src.dst.feed <- s
				if r.IntN(10) == 0 {
					time.Sleep(pause(r))
				}
			}
			time.Sleep(long)
			synctest.Wait()
			for k, h := range hops {
				for what, s := range map[string]*mavlink2.FrameStream{"reading": h.rs, "writing": h.ws} {
					if s != nil && isDone(s.Closed()) {
						p.Fail(nil, "the %s stream of wire %d closed by itself: %v", what, k, s.GetCloseErr())
					}
				}
			}
			for _, h := range hops {
				if h.ws != nil {
					h.ws.Close()
				}
				h.rs.Close()
			}
			cancel()
			wg.Wait()
			routers.Wait()
		})
		for k, h := range hops {
			wit := map[string]any{"case": p.caseName(), "wire": k, "from": h.from, "to": h.to, "bytes": hexs(h.sent), "dialects": nodes[h.to].set.name}
			if h.busy != "" {
				p.Fail(wit, "wire %d: %s", k, h.busy)
			}
			must, may := expected(nodes[h.to].set, h.sent, nodes[h.to].invalid)
			if bad := compare(h.sent, h.arrived, must, may); bad != "" {
				p.Fail(wit, "wire %d, into router %d: %s", k, h.to, bad)
				break
			}
			for _, g := range h.arrived {
				if !same(g.frame.Bytes(), g.Raw) {
					p.Fail(wit, "a frame that passed router %d became %x, and was %x", h.to, g.frame.Bytes(), g.Raw)
				}
			}
			back, _ := h.dst.snapshot()
			if h.back != nil && len(back) != len(h.arrived) || h.back == nil && len(back) > 0 {
				p.Fail(wit, "%d frames came in from wire %d, and %d were sent back", len(h.arrived), k, len(back))
				break
			}
			for j, b := range back {
				if !same(b, h.arrived[j].Raw) {
					p.Fail(wit, "frame %d that came in from wire %d is %x; sent back was %x", j, k, h.arrived[j].Raw, b)
					break
				}
			}
			p.Count("frames_sent_back", len(back))
			if h.from < 0 {
				continue
			}
			passed := nodes[h.from].passed
			if len(h.writes) != len(passed) {
				p.Fail(wit, "router %d received %d frames, and %d were written to wire %d", h.from, len(passed), len(h.writes), k)
				break
			}
			for j, b := range h.writes {
				if !same(b, passed[j].Raw) {
					p.Fail(wit, "frame %d that router %d received is %x; written to wire %d was %x", j, h.from, passed[j].Raw, k, b)
					break
				}
			}
			p.Count("frames_relayed", len(passed))
			if !mixed && len(h.arrived) > 0 {
				p.Distinct(h.sent, []byte{byte(k), byte(len(nodes))})
			}
		}
		p.Eval()
		p.Count("routers", len(nodes))
		p.Count("wires", len(hops))
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"case": p.caseName(), "source": hexs(st.data[:min(len(st.data), 200)])})
		}
	}
}
