package mv

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"verifharness/ref"
)

func init() {
	props["C21"] = udp
	props["C26"] = notices
	props["C27"] = endToEnd
}

// newUDP opens the library's transport on a free loopback port.
func newUDP(p *P) (*util.UDPReadWriteCloser, *net.UDPAddr) { return newUDPAt(p, "127.0.0.1") }

func newUDPAt(p *P, local string) (*util.UDPReadWriteCloser, *net.UDPAddr) {
	for try := 0; try < 50; try++ {
		probe, err := net.ListenPacket("udp", local+":0")
		if err != nil {
			continue
		}
		a := probe.LocalAddr().(*net.UDPAddr)
		probe.Close()
		u, err := util.NewUDPReadWriteCloser(local, a.Port)
		if err == nil {
			if a.IP == nil || a.IP.IsUnspecified() { // where peers send to
				a.IP = net.IPv4(127, 0, 0, 1)
			}
			return u, a
		}
	}
	p.Inconclusive("no UDP port to be had on the loopback interface")
	return nil, nil
}

// locals are the local addresses that a transport can be opened on here.
var locals = sync.OnceValue(func() (l []string) {
	for _, a := range []string{"127.0.0.1", "0.0.0.0", "", "127.0.0.9", "[::1]", "[::]"} {
		server, err := net.ListenPacket("udp", a+":0")
		if err != nil {
			continue
		}
		opens := true
		if a != "127.0.0.1" && a != "0.0.0.0" { // how other addresses are spelled is up to the library
			u, err := util.NewUDPReadWriteCloser(a, 0)
			if opens = err == nil; opens {
				u.Close()
			}
		}
		to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: server.LocalAddr().(*net.UDPAddr).Port}
		switch a {
		case "[::1]":
			to.IP = net.IPv6loopback
		case "127.0.0.9":
			to.IP = net.IPv4(127, 0, 0, 9)
		}
		// there and back, without the library
		if c, err := net.DialUDP("udp", nil, to); err == nil {
			b := make([]byte, 10)
			c.Write([]byte{1})
			server.SetReadDeadline(time.Now().Add(time.Second))
			if _, from, err := server.ReadFrom(b); err == nil {
				server.WriteTo([]byte{2}, from)
				c.SetReadDeadline(time.Now().Add(time.Second))
				if _, err := c.Read(b); err == nil {
					if opens {
						l = append(l, a)
					} else {
						closedTo = append(closedTo, a)
					}
				}
			}
			c.Close()
		}
		server.Close()
	}
	return
})

// closedTo are the local addresses that the system can use and the transport does not, as locals spells them.
var closedTo []string

// everyLocal: a transport opens on any address of the machine, in one or another spelling.
func everyLocal(p *P) {
	locals()
	p.Count("local_addresses", len(locals()))
	for _, a := range closedTo {
		var errs []error
		for _, spelling := range []string{a, strings.Trim(a, "[]")} {
			u, err := util.NewUDPReadWriteCloser(spelling, 0)
			if err == nil {
				u.Close()
				errs = nil
				break
			}
			errs = append(errs, err)
		}
		if errs != nil && (a == "[::1]" || a == "127.0.0.9") {
			p.Fail(map[string]any{"address": a}, "the transport cannot be opened on %s, where the system can receive and send: %v", a, errs)
		}
	}
}

// dialFrom makes n peers; those of IPv4 are on several addresses, some with one port number.
func dialFrom(p *P, r *rand.Rand, a *net.UDPAddr, n int) (peers []*net.UDPConn) {
	port := 0
	for k := range n {
		var from *net.UDPAddr
		if a.IP.To4() != nil && r.IntN(2) == 0 {
			from = &net.UDPAddr{IP: net.IPv4(127, 0, 0, byte(2+k)), Port: port}
			if r.IntN(3) == 0 {
				from.Port = 0
			}
		}
		c, err := net.DialUDP("udp", from, a)
		if err != nil {
			c = dial(p, a)
		}
		if c == nil {
			return
		}
		port = c.LocalAddr().(*net.UDPAddr).Port
		peers = append(peers, c)
	}
	r.Shuffle(n, func(i, j int) { peers[i], peers[j] = peers[j], peers[i] })
	return
}

func dial(p *P, a *net.UDPAddr) *net.UDPConn {
	c, err := net.DialUDP("udp", nil, a)
	if err != nil {
		p.Inconclusive("no UDP socket: %v", err)
	}
	return c
}

// dropped is the number of datagrams that the system threw away on the local port's socket, for want of memory.
func dropped(port int) (n int) {
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) < 13 || !strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				continue
			}
			k, _ := strconv.Atoi(w[len(w)-1])
			n += k
		}
	}
	return
}

const patience = 20 * time.Second // for one datagram on the loopback interface

type readResult struct {
	n   int
	err error
	buf []byte
}

// udp: a lockstep monitor of the UDP transport against its model.
func udp(p *P) {
	p.rule = "a case is a random history on one UDP transport with 1-4 peers: datagrams of any size (empty to 65507 bytes) sent by any peer and read with buffers of any size, writes back, reads and writes at the same time, close during a read; the model is: no peer yet, no write (ErrNoAddress, nothing sent); one Read is one datagram's bytes (cut to the buffer); writes go whole to the peer heard first, and to no other; Close ends a blocked Read; non-trivial if at least 2 peers sent"
	everyLocal(p)
	firstAtOnce(p, p.N(600, 10000))
	n := p.N(1500, 20000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		local := locals()[i%len(locals())]
		u, addr := newUDPAt(p, local)
		np := 1 + r.IntN(4)
		peers := dialFrom(p, r, addr, np)
		p.Count("transports_on "+local, 1)
		var hist []string
		note := func(f string, a ...any) {
			hist = append(hist, fmt.Sprintf(f, a...))
			p.Doing("case %d, %d peers: %s", i, np, strings.Join(hist, "; "))
		}
		note("on %q", local)
		for _, c := range peers {
			note("peer %v", c.LocalAddr())
		}
		fail := func(f string, a ...any) { p.Fail(map[string]any{"history": hist}, f, a...) }
		first, heard := -1, map[int]bool{}
		read := func(size int) (readResult, bool) {
			ch := make(chan readResult, 1)
			go func() {
				b := make([]byte, size)
				k, err := u.Read(b)
				ch <- readResult{k, err, b}
			}()
			select {
			case x := <-ch:
				return x, true
			case <-time.After(patience):
				return readResult{}, false
			}
		}
		for step := 4 + r.IntN(16); step > 0 && !p.Failed(); step-- {
			switch k := r.IntN(11); {
			case k == 0: // several datagrams wait in the queue, with one read already pending or not
				m := 2 + r.IntN(12)
				note("%d datagrams before any is read", m)
				var ch chan readResult
				if r.IntN(2) == 0 {
					ch = make(chan readResult, 1)
					go func() {
						b := make([]byte, 4096)
						k, err := u.Read(b)
						ch <- readResult{k, err, b}
					}()
				}
				sent := map[string]int{} // by contents, unique: the sender
				for j := range m {
					w := r.IntN(np)
					d := append([]byte{byte(j), byte(w)}, payloadBytes(r, r.IntN(300))...)
					sent[string(d)] = w
					note("peer %d sends %d bytes", w, len(d))
					if _, err := peers[w].Write(d); err != nil {
						p.Inconclusive("loopback send: %v", err)
					}
				}
				for range m {
					var x readResult
					ok := true
					if ch != nil {
						select {
						case x = <-ch:
						case <-time.After(patience):
							ok = false
						}
						ch = nil
					} else {
						x, ok = read(4096)
					}
					if !ok {
						if dropped(addr.Port) > 0 {
							p.Inconclusive("the system dropped a datagram on the loopback interface")
						}
						fail("one of %d datagrams did not come out of Read", m)
						break
					}
					w, known := sent[string(x.buf[:max(x.n, 0)])]
					if x.err != nil || !known {
						fail("Read gives %d bytes, %v: %x, which is none of the datagrams that wait", x.n, x.err, x.buf[:max(x.n, 0)])
						break
					}
					delete(sent, string(x.buf[:x.n]))
					if first < 0 {
						first = w
					}
					heard[w] = true
					p.Count("datagrams_read", 1)
				}
			case k == 1: // several writers at once
				if first < 0 {
					continue
				}
				m := 2 + r.IntN(6)
				note("%d writers at once", m)
				var wg sync.WaitGroup
				want := map[string]bool{}
				var ds [][]byte
				for j := range m {
					d := append([]byte{byte(j)}, payloadBytes(r, r.IntN(200))...)
					ds, want[string(d)] = append(ds, d), true
				}
				errs := make([]error, m)
				for j, d := range ds {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if n, err := u.Write(d); err != nil || n != len(d) {
							errs[j] = fmt.Errorf("Write of %d bytes says %d, %v", len(d), n, err)
						}
					}()
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						fail("%v", err)
					}
				}
				for range m {
					buf := make([]byte, 1000)
					peers[first].SetReadDeadline(time.Now().Add(patience))
					k, err := peers[first].Read(buf)
					if err != nil || !want[string(buf[:k])] {
						fail("peer %d, which was heard first, received %x, %v, none of what was written", first, buf[:max(k, 0)], err)
						break
					}
					delete(want, string(buf[:k]))
				}
				p.Count("datagrams_written", m)
			case k < 7: // a peer sends, the transport reads
				w := r.IntN(np)
				d := payloadBytes(r, []int{0, 1, 17, 280, 1400, r.IntN(1400)}[r.IntN(6)])
				size := 4096
				if r.IntN(12) == 0 { // up to what UDP can carry
					d = payloadBytes(r, []int{1472, 1473, 4096, 4097, 9000, 65507, r.IntN(65508)}[r.IntN(7)])
					size = 65536
				}
				if r.IntN(5) == 0 {
					size = 1 + r.IntN(1500)
				}
				note("peer %d sends %d bytes, read with %d", w, len(d), size)
				if _, err := peers[w].Write(d); err != nil {
					p.Inconclusive("loopback send: %v", err)
				}
				x, ok := read(size)
				if !ok {
					if dropped(addr.Port) > 0 {
						p.Inconclusive("the system dropped a datagram on the loopback interface")
					}
					fail("a datagram of %d bytes did not come out of Read", len(d))
					break
				}
				if x.err != nil || x.n != min(len(d), size) || !same(x.buf[:x.n], d[:x.n]) {
					fail("Read gives %d bytes, %v: %x; the datagram was %x", x.n, x.err, x.buf[:x.n], d)
				}
				if first < 0 {
					first = w
				}
				heard[w] = true
				p.Count("datagrams_read", 1)
			default: // the transport writes
				d := payloadBytes(r, 1+r.IntN(1400))
				if r.IntN(12) == 0 {
					d = payloadBytes(r, []int{0, 1472, 1473, 4096, 4097, 9000, 65507, r.IntN(65508)}[r.IntN(8)])
				}
				if r.IntN(16) == 0 && first >= 0 { // more than one datagram can carry
					d = make([]byte, 65536+r.IntN(5000))
					note("write %d bytes", len(d))
					if m, err := u.Write(d); err == nil {
						fail("Write of %d bytes, more than a datagram can carry, says %d and no error", len(d), m)
					}
					p.Count("oversize_writes", 1)
					break
				}
				note("write %d bytes", len(d))
				keep := append([]byte(nil), d...)
				m, err := u.Write(d)
				if first < 0 {
					if err != util.ErrNoAddress || m != 0 {
						fail("Write without a peer says %d, %v", m, err)
					}
					p.Count("refused_writes", 1)
					break
				}
				if err != nil || m != len(d) || !same(keep, d) {
					fail("Write says %d, %v", m, err)
					break
				}
				buf := make([]byte, 65536)
				peers[first].SetReadDeadline(time.Now().Add(patience))
				k, err := peers[first].Read(buf)
				if err != nil || !same(buf[:k], d) {
					fail("peer %d, which was heard first, received %x, %v; written was %x", first, buf[:k], err, d)
				}
				p.Count("datagrams_written", 1)
			}
		}
		// nobody else received anything
		for w, c := range peers {
			c.SetReadDeadline(time.Now().Add(time.Millisecond))
			if k, err := c.Read(make([]byte, 2000)); err == nil && !p.Failed() {
				fail("peer %d (first heard: %d) received a stray datagram of %d bytes", w, first, k)
			}
		}
		// reads and writes at the same time, from the first datagram on
		if first < 0 && !p.Failed() {
			note("the first datagrams arrive while writes are tried")
			var wg sync.WaitGroup
			var bad string
			wrote := make(chan []byte, 1)
			stop := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; ; k++ {
					d := []byte{byte(k), byte(k >> 8), 7, 7}
					m, err := u.Write(d)
					if err == util.ErrNoAddress && m == 0 {
						select {
						case <-stop:
							bad = "after a datagram was read, Write still says ErrNoAddress"
							return
						default:
							time.Sleep(20 * time.Microsecond)
							continue
						}
					}
					if err != nil || m != len(d) {
						bad = fmt.Sprintf("Write says %d, %v", m, err)
					}
					wrote <- d
					return
				}
			}()
			for k := 0; k < 5; k++ {
				d := payloadBytes(r, 1+r.IntN(100))
				w := r.IntN(np)
				peers[w].Write(d)
				x, ok := read(4096)
				if !ok || x.err != nil || !same(x.buf[:x.n], d) {
					fail("Read gives %d bytes, %v: %x; the datagram was %x", x.n, x.err, x.buf[:x.n], d)
					break
				}
				if first < 0 {
					first = w
				}
			}
			time.AfterFunc(patience, func() { close(stop) })
			wg.Wait()
			if bad != "" {
				fail("%s", bad)
			} else {
				buf := make([]byte, 100)
				peers[first].SetReadDeadline(time.Now().Add(patience))
				d := <-wrote
				if k, err := peers[first].Read(buf); err != nil || !same(buf[:k], d) {
					fail("peer %d, which was heard first, received %x, %v; written was %x", first, buf[:max(k, 0)], err, d)
				}
			}
			p.Count("contended_first_datagrams", 1)
		}
		// full duplex, then close during a read
		if first >= 0 && r.IntN(2) == 0 && !p.Failed() {
			note("duplex")
			var wg sync.WaitGroup
			var bad string
			wg.Add(2)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					d := []byte{byte(k), 1, 2}
					if _, err := u.Write(d); err != nil {
						bad = fmt.Sprintf("Write during Read: %v", err)
						return
					}
					buf := make([]byte, 10)
					peers[first].SetReadDeadline(time.Now().Add(patience))
					if m, err := peers[first].Read(buf); err != nil || !same(buf[:m], d) {
						bad = fmt.Sprintf("write %d did not arrive while a Read was pending: %x, %v", k, buf[:m], err)
						return
					}
				}
			}()
			got := make(chan readResult, 1)
			go func() {
				b := make([]byte, 100)
				k, err := u.Read(b)
				got <- readResult{k, err, b}
			}()
			go func() { wg.Done() }()
			wg.Wait()
			if bad != "" {
				fail("%s", bad)
			}
			note("close during a read")
			u.Close()
			select {
			case x := <-got:
				if x.err == nil {
					fail("Read returned %d bytes and no error after Close", x.n)
				}
				p.Count("reads_ended_by_close", 1)
			case <-time.After(patience):
				fail("Close does not end a blocked Read")
			}
		} else {
			u.Close()
		}
		if !p.Failed() {
			if x, ok := read(10); !ok || x.err == nil {
				fail("Read after Close: %+v %v", x, ok)
			}
			// the port is free again
			if v, err := util.NewUDPReadWriteCloser(local, addr.Port); err == nil {
				if w, err := util.NewUDPReadWriteCloser(local, addr.Port); err == nil {
					w.Close()
					fail("one port could be opened twice")
				}
				v.Close()
				p.Count("ports_reopened", 1)
			}
		}
		for _, c := range peers {
			c.Close()
		}
		p.Eval()
		p.Count("histories", 1)
		if len(heard) >= 2 {
			p.Distinct([]byte(strings.Join(hist, ";")), []byte{byte(i), byte(i >> 8), byte(i >> 16)})
		}
		if i%(n/8+1) == 0 {
			p.Sample(hist)
		}
	}
	if !p.Failed() {
		longHistories(p, p.N(90, 2000))
	}
}

// longHistories: many datagrams from one peer alone, the same contents again and again, and hours of virtual
// time in between. In a bubble, the clock moves on if nobody waits for the network, so all is in lockstep.
func longHistories(p *P, n int) {
	// If the library itself waits for the network in a goroutine of its own, the clock stands still: no verdict from that.
	var naps atomic.Int64 // odd: in a nap
	go func() {
		for last := int64(0); ; time.Sleep(4 * time.Second) {
			if k := naps.Load(); k%2 == 1 && k == last {
				p.Note("the virtual clock stands still in the long histories: left out")
				p.finish("held", "")
				os.Exit(0)
			} else {
				last = k
			}
		}
	}()
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<21 + i)
		p.Bubble(func() {
			u, addr := newUDPAt(p, "127.0.0.1")
			defer u.Close()
			peers := dialFrom(p, r, addr, 2+r.IntN(2))
			for _, c := range peers {
				defer c.Close()
			}
			var hist []string
			note := func(f string, a ...any) {
				hist = append(hist, fmt.Sprintf(f, a...))
				p.Doing("long history %d, %d peers: %s", i, len(peers), strings.Join(hist, "; "))
			}
			fail := func(f string, a ...any) { p.Fail(map[string]any{"history": hist}, f, a...) }
			first := -1
			buf := make([]byte, 70000)
			for step := 3 + r.IntN(10); step > 0 && !p.Failed(); step-- {
				if r.IntN(2) == 0 {
					d := []time.Duration{time.Millisecond, time.Second, 5 * time.Second, time.Minute, 20 * time.Minute, 5 * time.Hour, 40 * 24 * time.Hour}[r.IntN(7)]
					d += time.Duration(r.Int64N(int64(d)))
					note("%v pass", d)
					naps.Add(1)
					time.Sleep(d)
					naps.Add(1)
					p.Count("idle_times", 1)
				}
				many := 1 + r.IntN(3)
				if r.IntN(8) == 0 {
					many = 1 << r.IntN(12)
				}
				if i == 0 && step <= 2 && os.Getenv("VERIF_SHARE") == "" { // more than 16 bits count
					many = 70000
				}
				d := payloadBytes(r, 1+r.IntN(300))
				again := r.IntN(2) == 0
				if w := r.IntN(len(peers)); many == 70000 && step == 2 || many != 70000 && r.IntN(2) == 0 {
					note("peer %d sends, and the transport reads, %d datagrams (the same: %v)", w, many, again)
					for k := 0; k < many && !p.Failed(); k++ {
						if !again {
							d = payloadBytes(r, 1+r.IntN(300))
						}
						if _, err := peers[w].Write(d); err != nil {
							p.Inconclusive("loopback send: %v", err)
						}
						if m, err := u.Read(buf); err != nil || !same(buf[:max(m, 0)], d) {
							fail("Read %d gives %d bytes, %v: %x; the datagram was %x", k, m, err, buf[:max(m, 0)], d)
						}
						if first < 0 {
							first = w
						}
						p.Count("datagrams_read", 1)
					}
				} else {
					note("the transport writes %d datagrams (the same: %v)", many, again)
					for k := 0; k < many && !p.Failed(); k++ {
						if !again {
							d = payloadBytes(r, 1+r.IntN(300))
						}
						m, err := u.Write(d)
						if first < 0 {
							if err != util.ErrNoAddress || m != 0 {
								fail("Write without a peer says %d, %v", m, err)
							}
							continue
						}
						if err != nil || m != len(d) {
							fail("Write says %d, %v", m, err)
							break
						}
						peers[first].SetReadDeadline(time.Now().Add(patience))
						if m, err = peers[first].Read(buf); err != nil || !same(buf[:m], d) {
							fail("write %d: peer %d, which was heard first, received %x, %v; written was %x", k, first, buf[:max(m, 0)], err, d)
						}
						p.Count("datagrams_written", 1)
					}
				}
			}
			for w, c := range peers {
				c.SetReadDeadline(time.Now().Add(time.Millisecond))
				if k, err := c.Read(buf); err == nil && !p.Failed() {
					fail("peer %d (first heard: %d) received a stray datagram of %d bytes", w, first, k)
				}
			}
			p.Count("long_histories", 1)
		})
		p.Eval()
	}
}

// firstAtOnce: several Reads wait when the first datagrams of several peers come in, and Writes are tried all the
// time: which peer is answered is open, but it is one of those read, and one for good.
func firstAtOnce(p *P, n int) {
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<20 + i)
		u, addr := newUDPAt(p, "127.0.0.1")
		np := 2 + r.IntN(3)
		peers := dialFrom(p, r, addr, np)
		var names []string
		for _, c := range peers {
			names = append(names, c.LocalAddr().String())
		}
		p.Doing("contest %d: one Read each for the first datagrams of %v, at once, while Writes are tried", i, names)
		fail := func(f string, a ...any) {
			p.Fail(map[string]any{"contest": i, "peers": names}, f, a...)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad string
		say := func(f string, a ...any) {
			mu.Lock()
			bad = fmt.Sprintf(f, a...)
			mu.Unlock()
		}
		start, done := make(chan struct{}), make(chan struct{})
		from := make(chan int, np)
		for range np { // the Reads
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 100)
				k, err := u.Read(b)
				if err != nil || k != 3 || b[0] != 'f' || int(b[1]) >= np || b[2] != 'd' {
					say("Read gives %x, %v, none of the datagrams sent", b[:max(k, 0)], err)
					return
				}
				from <- int(b[1])
			}()
		}
		for w, c := range peers { // the peers
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if _, err := c.Write([]byte{'f', byte(w), 'd'}); err != nil {
					p.Inconclusive("loopback send: %v", err)
				}
			}()
		}
		var ww sync.WaitGroup
		sent := make([]int, 2)
		for k := range sent { // the Writes
			ww.Add(1)
			go func() {
				defer ww.Done()
				for {
					last := false
					select {
					case <-done:
						last = true // all Reads have returned
					default:
					}
					m, err := u.Write([]byte{'w', byte(k), byte(sent[k])})
					switch {
					case err == nil && m == 3:
						sent[k]++
					case err != util.ErrNoAddress || m != 0 || sent[k] > 0 || last:
						say("Write %d of %d says %d, %v (all Reads have returned: %v)", sent[k], k, m, err, last)
						return
					}
					if last {
						return
					}
					if sent[k] > 20 {
						<-done
					}
					runtime.Gosched()
				}
			}()
		}
		close(start)
		ended := make(chan struct{})
		go func() { wg.Wait(); close(ended) }()
		select {
		case <-ended:
		case <-time.After(patience):
			if dropped(addr.Port) > 0 {
				p.Inconclusive("the system dropped a datagram on the loopback interface")
			}
			fail("%d peers sent one datagram each, but only %d of %d Reads have returned", np, len(from), np)
			u.Close()
			<-ended
		}
		close(done)
		ww.Wait()
		if bad != "" && !p.Failed() {
			fail("%s", bad)
		}
		seen := map[int]bool{}
		for range len(from) {
			w := <-from
			if seen[w] && !p.Failed() {
				fail("one datagram of peer %d came out of two Reads", w)
			}
			seen[w] = true
		}
		// all that was written is with one peer
		total, have := sent[0]+sent[1], make([]int, np)
		for arrived, t0 := 0, time.Now(); arrived < total && !p.Failed(); {
			for w, c := range peers {
				b := make([]byte, 100)
				c.SetReadDeadline(time.Now().Add(300 * time.Microsecond))
				for {
					k, err := c.Read(b)
					if err != nil {
						break
					}
					if k != 3 || b[0] != 'w' {
						fail("peer %d received %x, which was never written", w, b[:k])
					}
					have[w]++
					arrived++
				}
			}
			if time.Since(t0) > patience {
				for _, c := range peers {
					if dropped(c.LocalAddr().(*net.UDPAddr).Port) > 0 {
						p.Inconclusive("the system dropped a datagram on the loopback interface")
					}
				}
				fail("of %d datagrams written, the peers received %v", total, have)
			}
		}
		answered := 0
		for _, k := range have {
			if k > 0 {
				answered++
			}
		}
		if answered != 1 && !p.Failed() {
			fail("%d peers were answered, %v datagrams each, not one and the same", answered, have)
		}
		for _, c := range peers {
			c.Close()
		}
		u.Close()
		p.Count("first_datagrams_at_once", 1)
		p.Count("contest_writes", total)
		p.Eval()
	}
}

var numbers = regexp.MustCompile(`\d+`)

// notices: standard output is told once about each kind of rejected frame, and about nothing else.
func notices(p *P) {
	p.rule = "a case is a stream of valid frames and rejected candidates, many of them repeated, in either delivery mode, with standard output recorded; its lines must be exactly one per distinct (version, message ID, system, component) of the scan's rejected candidates; non-trivial if at least one kind is rejected twice or more"
	n := p.N(12000, 200000)
	f, err := os.CreateTemp(os.Getenv("VERIF_TMP"), "notices")
	if err != nil {
		p.Inconclusive("no temporary file: %v", err)
	}
	os.Remove(f.Name())
	real := os.Stdout
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		invalid := r.IntN(2) == 0
		st := genStream(r, set, 3+r.IntN(10), false)
		if r.IntN(2) == 0 { // the same trouble over and over, from other senders too
			one := st.data
			for k := r.IntN(4); k >= 0; k-- {
				st.data = append(append([]byte(nil), st.data...), one...)
			}
			if len(set.msgs) > 0 {
				m := set.msgs[r.IntN(len(set.msgs))]
				for sys := 0; sys < 3; sys++ {
					for k := 0; k < 3; k++ {
						st.data = append(st.data, ref.Frame2(0, 0, byte(k), byte(sys), 1, m.ID, []byte{9, 9, byte(k)}, m.CRC+1, nil)...)
					}
				}
			}
		}
		if i < p.N(2, 6) { // very many kinds, and each of them again later: more than 8, then 16 bits count
			kinds := []int{70000, 3000}[i%2]
			set = mkset("common")
			st = &stream{}
			for round := range 2 {
				for k := range kinds {
					st.data = append(st.data, ref.Frame2(0, 0, byte(round), byte(k), byte(k>>8), uint32(70000+k>>16), []byte{1}, 0, nil)...)
				}
			}
		}
		st.data = append(st.data, make([]byte, 300)...)
		p.Doing("case %d, dialects %s, invalid %v", i, set.name, invalid)
		want, total := map[string]int{}, 0
		for _, c := range set.tabs.Scan(st.data) {
			if c.V == ref.OK || c.Tail {
				continue
			}
			h, _ := ref.ParseHeader(st.data[c.Start:c.End])
			want[fmt.Sprintf("%d %d %d %d", h.Version, h.ID, h.Sys, h.Comp)]++
			total++
		}
		f.Truncate(0)
		f.Seek(0, io.SeekStart)
		os.Stdout = f
		runRead(p, set, withEnd(chunks(r, st.data, r.IntN(chunkStyles)), errWire), readOpts{invalid: invalid})
		os.Stdout = real
		f.Seek(0, io.SeekStart)
		out, _ := io.ReadAll(f)
		got, nlines := map[string]int{}, 0
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			nlines++
			got[strings.Join(numbers.FindAllString(l, -1), " ")]++
		}
		wit := map[string]any{"dialects": set.name, "stream": hexs(st.data[:min(len(st.data), 20000)]), "stdout": string(out[:min(len(out), 20000)]), "rejected": len(want)}
		for k := range want {
			if got[k] != 1 {
				p.Fail(wit, "%d notices about rejected frames of (version, ID, system, component) %s; there were %d such frames, and there should be one notice", got[k], k, want[k])
				break
			}
		}
		if nlines != len(want) {
			p.Fail(wit, "%d lines on standard output for %d kinds of rejected frames", nlines, len(want))
		}
		p.Eval()
		p.Count("rejected_frames", total)
		p.Count("kinds_rejected", len(want))
		p.Count("notices", nlines)
		if total > len(want) {
			p.Distinct(st.data)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"dialects": set.name, "rejected": total, "kinds": len(want), "stdout": string(out[:min(len(out), 300)])})
		}
	}
}

// pipeEnd is one end of an in-memory wire; what it writes goes to the other end in pieces, with noise
// between the writes.
type pipeEnd struct {
	*conn
	to    *conn
	r     *rand.Rand
	noise bool
	mu    sync.Mutex
	sent  []byte // everything put on the wire, noise included
}

func (e *pipeEnd) Write(b []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	out := append([]byte(nil), b...)
	if e.noise && e.r.IntN(3) == 0 {
		x := payloadBytes(e.r, e.r.IntN(60))
		if e.r.IntN(2) == 0 {
			out = append(x, out...)
		} else {
			out = append(out, x...)
		}
	}
	e.sent = append(e.sent, out...)
	for _, s := range chunks(e.r, out, []int{0, 1, 2, 3}[e.r.IntN(4)]) {
		select {
		case e.to.feed <- s:
		case <-e.to.closed:
			return 0, errClosedConn
		case <-e.conn.closed:
			return 0, errClosedConn
		}
	}
	return len(b), nil
}

// endToEnd: two endpoints talk; each receives, decoded, what the other sent.
func endToEnd(p *P) {
	p.rule = "a case is two endpoints with the same dialects that send each other random messages (any type, any fields, V1 and V2, from one or two system IDs) at the same time, over an in-memory wire that cuts and adds noise, or in lockstep over UDP on the loopback interface; each must receive exactly the frames sent, in order, and decode them to equal fields; with noise, what the scan of the wire finds, and every sent frame is in it; non-trivial with at least 3 messages each way"
	n := p.N(5000, 60000)
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		set := pickSet(r)
		for set.made || len(set.msgs) == 0 {
			set = pickSet(r)
		}
		type sent struct {
			m     pmsg
			w     []byte
			frame []byte
			plen  int
			v     int
		}
		alike := r.IntN(3) == 0 // few types, sequence numbers, IDs; values that repeat
		var last [3]*sent
		mk := func(k, who int) (sent, mavlink2.Frame) {
			m := set.msgs[r.IntN(len(set.msgs))]
			if alike {
				m = set.msgs[i%len(set.msgs)]
			}
			w := values(r, m)
			comp := byte(r.IntN(256))
			if alike {
				k, comp = r.IntN(2), byte(r.IntN(2))
				if last[who] != nil && r.IntN(2) == 0 {
					w = append([]byte(nil), last[who].w...)
				}
			}
			msg := newMsg(m)
			if err := fill(msg, m, w); err != nil {
				p.Fatal(nil, "%v", err)
			}
			s := sent{m: m, w: w, v: 2}
			if variable(m) {
				s.plen = r.IntN(250)
				setLen(msg, s.plen)
				clear(s.w[5+s.plen:])
			}
			if m.ID < 256 && r.IntN(2) == 0 {
				s.v = 1
				if !variable(m) {
					clear(s.w[m.Min:])
				}
			}
			f, err := set.lib.GetFrame(s.v, byte(who), comp, byte(k), msg)
			if err != nil {
				p.Fatal(map[string]string{"message": showMsg(m)}, "GetFrame: %v", err)
			}
			s.frame = append([]byte(nil), f.Bytes()...)
			last[who] = &s
			return s, f
		}
		overUDP := i%10 == 9
		haul := i < p.N(1, 4) // more messages than 16 bits count
		noise := !overUDP && !haul && r.IntN(2) == 0
		count := 1 + r.IntN(20)
		if haul {
			count = 66000
		}
		p.Doing("case %d, dialects %s, %d messages each way, UDP %v, noise %v", i, set.name, count, overUDP, noise)
		var sents [2][]sent
		var frames [2][]mavlink2.Frame // to be sent
		for side := range 2 {
			for k := 0; k < count; k++ {
				s, f := mk(k, side+1)
				sents[side] = append(sents[side], s)
				frames[side] = append(frames[side], f)
			}
		}
		var received [2][]got
		var wires [2][]byte
		if i%20 == 4 {
			udpBatches(p, r, set)
		}
		if overUDP {
			received = udpTalk(p, set, frames)
		} else if !noise && !haul && i%3 == 0 {
			kind := realKinds[i/3%len(realKinds)]
			if received = realTalk(p, kind, set, frames); received[0] == nil {
				continue
			}
			p.Count("connection_"+kind, 1)
		} else {
			p.Bubble(func() {
				a, b := newConn(), newConn()
				a.feed, b.feed = make(chan step), make(chan step)
				ends := [2]*pipeEnd{{conn: a, to: b, r: rand.New(rand.NewPCG(1, uint64(i))), noise: noise}, {conn: b, to: a, r: rand.New(rand.NewPCG(2, uint64(i))), noise: noise}}
				var ss [2]*mavlink2.FrameStream
				ctx, cancel := context.WithCancel(context.Background())
				var wg sync.WaitGroup
				for side := range 2 {
					in := make(chan mavlink2.Frame)
					ss[side] = mavlink2.NewFrameStreamWithLogger(ends[side], in, set.lib, false, anyLogger(r))
					wg.Add(3)
					go func() { ss[side].ReadContext(ctx); wg.Done() }()
					go func() { ss[side].WriteContext(ctx); wg.Done() }()
					go func() {
						for f := range ss[side].Read() {
							received[side] = append(received[side], take(f))
						}
						wg.Done()
					}()
					slowly := r.IntN(4) == 0 && !haul
					pr := rand.New(rand.NewPCG(uint64(i), uint64(side)))
					go func() {
						for _, f := range frames[side] {
							if slowly {
								time.Sleep(pause(pr))
							}
							select {
							case ss[side].Write() <- f:
							case <-ss[side].Closed():
								return
							}
						}
					}()
				}
				time.Sleep(long)
				synctest.Wait()
				// enough silence for false starts in the noise to be decided
				for side := range 2 {
					if noise {
						a := ends[side]
						a.mu.Lock()
						a.sent = append(a.sent, make([]byte, 300)...)
						a.mu.Unlock()
						select {
						case a.to.feed <- step{data: make([]byte, 300)}:
						case <-a.to.closed:
						}
					}
				}
				time.Sleep(long)
				synctest.Wait()
				for side := range 2 {
					if isDone(ss[side].Closed()) {
						p.Fail(nil, "endpoint %d closed by itself: %v", side, ss[side].GetCloseErr())
					}
				}
				ss[0].Close()
				ss[1].Close()
				cancel()
				wg.Wait()
				wires[0], wires[1] = ends[1].sent, ends[0].sent // what each side hears
			})
		}
		for side := range 2 {
			theirs := sents[1-side]
			wit := map[string]any{"case": p.caseName(), "wire": hexs(wires[side])}
			rec := received[side]
			if noise {
				must, may := expected(set, wires[side], false)
				if bad := compare(wires[side], rec, must, may); bad != "" {
					p.Fail(wit, "endpoint %d: %s", side, bad)
					break
				}
				// the noise may hold a valid frame by chance, and so may swallow sent ones; leave it at that then
				if len(rec) != len(theirs) {
					p.Count("noise_made_frames", 1)
					continue
				}
			}
			if len(rec) != len(theirs) {
				p.Fail(wit, "endpoint %d received %d frames of %d sent", side, len(rec), len(theirs))
				break
			}
			for k, g := range rec {
				s := theirs[k]
				if !same(g.Raw, s.frame) {
					p.Fail(wit, "endpoint %d received %x as frame %d, sent was %x", side, g.Raw, k, s.frame)
					break
				}
				msg, err := set.lib.GetMessage(g.frame)
				if err != nil || fmt.Sprintf("%T", msg) != fmt.Sprintf("%T", newMsg(s.m)) {
					p.Fail(wit, "frame %d (%x) decodes to %T, %v; sent was %s", k, g.Raw, msg, err, showMsg(s.m))
					break
				}
				if w, err := fieldsOf(msg, s.m); err != nil || !same(w, s.w) {
					p.Fail(wit, "frame %d (%s, %x) decodes to %x, sent was %x%s", k, showMsg(s.m), g.Raw, w, s.w, diffField(s.m, w, s.w))
					break
				}
				p.Count("messages_compared", 1)
			}
		}
		p.Eval()
		if overUDP {
			p.Count("udp_cases", 1)
		}
		if noise {
			p.Count("noisy_cases", 1)
		}
		if count >= 3 {
			p.Distinct(sents[0][0].frame, sents[1][0].frame, sents[0][count-1].frame)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"case": p.caseName(), "first": hexs(sents[0][0].frame)})
		}
	}
}

// udpTalk: side 0 is a stream on the library's UDP transport, side 1 a stream on a plain socket to it.
func udpTalk(p *P, set *dset, frames [2][]mavlink2.Frame) (received [2][]got) {
	u, addr := newUDP(p)
	ends := [2]io.ReadWriteCloser{u, dial(p, addr)}
	var ss [2]*mavlink2.FrameStream
	var chans [2]chan got
	var wg sync.WaitGroup
	for side := range 2 {
		in := make(chan mavlink2.Frame)
		ss[side] = mavlink2.NewFrameStream(ends[side], in, set.lib, false)
		chans[side] = make(chan got, 1000)
		wg.Add(3)
		go func() { ss[side].ReadContext(context.Background()); wg.Done() }()
		go func() { ss[side].WriteContext(context.Background()); wg.Done() }()
		go func() {
			for f := range ss[side].Read() {
				chans[side] <- take(f)
			}
			close(chans[side])
			wg.Done()
		}()
	}
	// the outsider speaks first: until then there is no address to write to
	for k := range frames[1] {
		for _, side := range []int{1, 0} {
			select {
			case ss[side].Write() <- frames[side][k]:
			case <-ss[side].Closed():
				p.Fail(nil, "endpoint %d closed by itself: %v", side, ss[side].GetCloseErr())
			}
			select {
			case g, ok := <-chans[1-side]:
				if ok {
					received[1-side] = append(received[1-side], g)
				}
			case <-time.After(patience):
				if dropped(addr.Port) > 0 {
					p.Inconclusive("the system dropped a datagram on the loopback interface")
				}
				p.Fail(hexs(frames[side][k].Bytes()), "frame %d from endpoint %d did not arrive over UDP", k, side)
			}
			if p.Failed() {
				break
			}
		}
	}
	ss[0].Close()
	ss[1].Close()
	wg.Wait()
	for side := range 2 {
		for g := range chans[side] {
			received[side] = append(received[side], g)
		}
	}
	return
}

// udpBatches: datagrams of many frames, and of none, all the same give what the scan of their bytes gives.
func udpBatches(p *P, r *rand.Rand, set *dset) {
	u, addr := newUDP(p)
	peer := dial(p, addr)
	defer peer.Close()
	s := mavlink2.NewFrameStream(u, nil, set.lib, false)
	ch := make(chan got, 5000)
	loop := make(chan struct{})
	go func() { s.ReadContext(context.Background()); close(loop) }()
	go func() {
		for f := range s.Read() {
			ch <- take(f)
		}
		close(ch)
	}()
	for k := 1 + r.IntN(4); k > 0 && !p.Failed(); k-- {
		if r.IntN(3) == 0 {
			for j := 150 + r.IntN(50); j > 0; j-- {
				peer.Write(nil)
			}
			p.Count("udp_empty_datagrams", 150)
			// the next datagram goes out once these are gone from the socket's queue
			b := validFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
			peer.Write(b)
			select {
			case g := <-ch:
				if !same(g.Raw, b) {
					p.Fail(hexs(b), "after many empty datagrams, a frame came as %x", g.Raw)
				}
			case <-time.After(patience):
				if dropped(addr.Port) == 0 {
					p.Fail(hexs(b), "a frame did not arrive after many empty datagrams")
				}
			}
		}
		most := []int{600, 1400, 5000, 20000, 65000}[r.IntN(5)]
		var d []byte
		for {
			b := validFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
			if r.IntN(10) == 0 {
				_, b = badFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
			}
			if len(d)+len(b)+300 > most {
				break
			}
			d = append(d, b...)
		}
		d = append(d, make([]byte, 300)...)
		must, may := expected(set, d, false)
		peer.Write(d)
		var rec []got
		late := false
		for range must {
			select {
			case g, ok := <-ch:
				if ok {
					rec = append(rec, g)
				}
			case <-time.After(patience):
				late = true
			}
			if late {
				break
			}
		}
		if dropped(addr.Port) > 0 { // not the library's doing
			p.Count("udp_kernel_drops", 1)
			break
		}
		if bad := compare(d, rec, must, may); bad != "" {
			p.Fail(map[string]any{"dialects": set.name, "datagram": hexs(d), "err": fmt.Sprint(s.GetCloseErr())}, "a datagram of %d bytes over UDP: %s", len(d), bad)
		}
		p.Count("udp_batched_frames", len(rec))
		p.beats.Add(1)
	}
	s.Close()
	<-loop
}
