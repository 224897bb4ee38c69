package mv

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"syscall"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
)

// Streams on the system's own connections, as users have them: given to the library as they are, so that whatever it
// does with what it knows of their types shows. What happens is decided by the other end and by the stream's channels.

var realKinds = []string{"tcp", "tcp6", "unix", "pipe", "file"}

// realPair gives both ends of a connection; nil where the system has none of the kind.
func realPair(p *P, kind string) (a, b io.ReadWriteCloser) {
	switch kind {
	case "pipe":
		x, y := net.Pipe()
		return x, y
	case "file":
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		if err != nil {
			break
		}
		for _, fd := range fds {
			syscall.CloseOnExec(fd)
			syscall.SetNonblock(fd, true)
		}
		return os.NewFile(uintptr(fds[0]), "left"), os.NewFile(uintptr(fds[1]), "right")
	default:
		network, addr := "tcp", "127.0.0.1:0"
		if kind == "tcp6" {
			addr = "[::1]:0"
		}
		if kind == "unix" {
			dir, err := os.MkdirTemp("", "mv")
			if err != nil {
				break
			}
			defer os.RemoveAll(dir)
			network, addr = "unix", dir+"/s"
		}
		l, err := net.Listen(network, addr)
		if err != nil {
			break
		}
		defer l.Close()
		x, err := net.DialTimeout(network, l.Addr().String(), patience)
		if err != nil {
			break
		}
		y, err := l.Accept()
		if err != nil {
			x.Close()
			break
		}
		if x.LocalAddr().Network() != "unix" && x.LocalAddr().String() != y.RemoteAddr().String() {
			x.Close()
			y.Close()
			break
		}
		return x, y
	}
	p.Count("no_connection_"+kind, 1)
	return nil, nil
}

// within waits for something to end.
func within(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	case <-time.After(3 * patience):
		return false
	}
}

// pieces writes the bytes in pieces.
func pieces(r *rand.Rand, w io.Writer, b []byte) error {
	for len(b) > 0 {
		n := min(len(b), 1+r.IntN(1<<(1+r.IntN(12))))
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if r.IntN(8) == 0 {
			time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
		}
	}
	return nil
}

// realReads: what comes over a connection until its other end closes it.
func realReads(p *P, n int, invalid bool) {
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<29 + i)
		kind := realKinds[i%len(realKinds)]
		near, far := realPair(p, kind)
		if near == nil {
			continue
		}
		set := pickSet(r)
		st := genStream(r, set, 1+r.IntN(40), r.IntN(3) > 0)
		p.Doing("connection %d (%s), dialects %s, %d bytes, invalid frames %v", i, kind, set.name, len(st.data), invalid)
		must, may := expected(set, st.data, invalid)
		s := mavlink2.NewFrameStreamWithLogger(near, nil, set.lib, invalid, anyLogger(r))
		loop, cons := make(chan struct{}), make(chan struct{})
		go func() { s.ReadContext(context.Background()); close(loop) }()
		rd := reading{}
		slow := r.IntN(4) == 0
		go func() {
			defer close(cons)
			for f := range s.Read() {
				if slow {
					time.Sleep(100 * time.Microsecond)
				}
				rd.frames = append(rd.frames, take(f))
			}
		}()
		err := pieces(r, far, st.data)
		if h, ok := far.(interface{ CloseWrite() error }); ok && r.IntN(2) == 0 {
			h.CloseWrite() // no more bytes, but the connection stays
		} else {
			far.Close()
		}
		if !within(loop) || !within(cons) {
			p.Fatal(witness(set, st.data, reading{}, kind), "the stream goes on after the end of its connection (%s)", kind)
		}
		far.Close()
		rd.err = s.GetCloseErr()
		p.Eval()
		if err != nil {
			p.Fail(witness(set, st.data, rd, kind), "the stream closed its connection (%s) before all bytes were sent: %v; its close error is %v", kind, err, rd.err)
		} else if bad := compare(st.data, rd.frames, must, may); bad != "" {
			p.Fail(witness(set, st.data, rd, kind), "over a connection (%s): %s", kind, bad)
		} else if rd.err != io.EOF && rd.err != io.ErrUnexpectedEOF {
			p.Fail(witness(set, st.data, rd, kind), "the other end closed its connection (%s), and the close error is %v", kind, rd.err)
		}
		p.Count("connection_"+kind, 1)
		p.Count("connection_frames", len(rd.frames))
		if len(must) > 0 {
			p.Distinct(st.data)
		}
	}
}

// realWrites: what is submitted until the submission channel is closed arrives at the other end, and then its end.
func realWrites(p *P, n int) {
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<29 + i)
		kind := realKinds[i%len(realKinds)]
		near, far := realPair(p, kind)
		if near == nil {
			continue
		}
		set := mkset("common", "ardupilotmega")
		in := make(chan mavlink2.Frame, r.IntN(3)*r.IntN(40))
		s := mavlink2.NewFrameStreamWithLogger(near, in, set.lib, false, anyLogger(r))
		loops := make(chan struct{}, 2)
		both := r.IntN(2) == 0
		go func() { s.WriteContext(context.Background()); loops <- struct{}{} }()
		if both {
			go func() { s.ReadContext(context.Background()); loops <- struct{}{} }()
		}
		count := 1 + r.IntN(60)
		if i%16 < len(realKinds) {
			count = 3000 // more than the system's buffers hold
		}
		p.Doing("connection %d (%s), %d frames written, with a reading loop: %v", i, kind, count, both)
		var want bytes.Buffer
		var frames []mavlink2.Frame
		for range count {
			b := validFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
			want.Write(b)
			frames = append(frames, frameOf(b))
		}
		heard := make(chan struct{})
		var wire []byte
		var err error
		lazy := r.IntN(3) == 0
		go func() {
			defer close(heard)
			if lazy {
				time.Sleep(5 * time.Millisecond)
			}
			wire, err = io.ReadAll(far)
		}()
		for _, f := range frames {
			select {
			case in <- f:
			case <-s.Closed():
				p.Fatal(nil, "the stream on a connection (%s) closed by itself: %v", kind, s.GetCloseErr())
			case <-time.After(3 * patience):
				p.Fatal(nil, "a frame is not taken for a connection (%s) whose other end is read", kind)
			}
		}
		close(in)
		if !within(s.Closed()) || !within(heard) || !within(loops) || both && !within(loops) {
			p.Fatal(nil, "the stream on a connection (%s) goes on after its submission channel was closed", kind)
		}
		far.Close()
		p.Eval()
		if err != nil || !same(wire, want.Bytes()) {
			p.Fail(map[string]any{"sent": hexs(want.Bytes()), "arrived": hexs(wire)}, "of %d bytes submitted, %d arrived over a connection (%s), with error %v", want.Len(), len(wire), kind, err)
		}
		if e := s.GetCloseErr(); e != mavlink2.ErrWriteChannelClosed {
			p.Fail(nil, "the submission channel was closed, and the close error is %v (%s)", e, kind)
		}
		p.Count("connection_"+kind, 1)
		p.Count("connection_bytes", len(wire))
		p.Distinct(wire)
	}
}

// realEnds: streams blocked in the calls of real connections end at once and with the right error.
func realEnds(p *P, n int) {
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<29 + i)
		kind := realKinds[i%len(realKinds)]
		near, far := realPair(p, kind)
		if near == nil {
			continue
		}
		set := mkset("common")
		in := make(chan mavlink2.Frame)
		s := mavlink2.NewFrameStreamWithLogger(near, in, set.lib, false, anyLogger(r))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cause := r.IntN(5)
		if cause == 2 {
			ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+r.IntN(10))*time.Millisecond)
			defer cancel()
		}
		rl, wl := make(chan struct{}), make(chan struct{})
		go func() { s.ReadContext(ctx); close(rl) }()
		go func() { s.WriteContext(ctx); close(wl) }()
		stuffed := r.IntN(2) == 0 && cause != 3 // the other end does not read
		idle := r.IntN(2) == 0
		p.Doing("connection %d (%s), ended by cause %d, with its buffers full: %v", i, kind, cause, stuffed)
		if stuffed {
			f := frameOf(validFrame(r, set, set.msgs[0]))
			for full := false; !full; {
				select {
				case in <- f:
				case <-s.Closed():
					full = true
				case <-time.After(20 * time.Millisecond):
					full = true
				}
			}
		}
		if idle {
			time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
		}
		var want error
		switch cause {
		case 0:
			s.Close()
			want = mavlink2.ErrUserClosed
		case 1:
			cancel()
			want = context.Canceled
		case 2:
			want = context.DeadlineExceeded
		case 3:
			close(in)
			want = mavlink2.ErrWriteChannelClosed
		case 4: // the transport's own: which one the system says
			if c, ok := far.(*net.TCPConn); ok && r.IntN(2) == 0 {
				c.SetLinger(0) // a reset
			}
			far.Close()
		}
		if !within(s.Closed()) || !within(rl) || !within(wl) {
			p.Fatal(nil, "a stream on a connection (%s) goes on after cause %d", kind, cause)
		}
		if _, ok := <-s.Read(); ok {
			p.Fail(nil, "a frame comes from a connection (%s) that brought none", kind)
		}
		err := s.GetCloseErr()
		if want != nil && err != want {
			p.Fail(nil, "the close error of a stream on a connection (%s) is %v, and should be %v", kind, err, want)
		}
		if want == nil {
			var op *net.OpError
			switch {
			case err == nil || err == mavlink2.ErrUserClosed || err == mavlink2.ErrWriteChannelClosed || errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded):
				p.Fail(nil, "the other end of a connection (%s) went away, and the close error is %v", kind, err)
			case err == io.EOF || err == io.ErrClosedPipe:
			case errors.As(err, &op) && error(op) != err:
				p.Fail(nil, "the close error (%s) is %v, and not the connection's own %v", kind, err, op)
			}
			p.Count("end_"+fmt.Sprintf("%.40s", errName(err)), 1)
		}
		// nothing is left open: the other end sees the end
		if cause != 4 {
			done := make(chan struct{})
			go func() { io.Copy(io.Discard, far); close(done) }()
			if !within(done) {
				p.Fatal(nil, "the connection (%s) is still open after its stream has ended", kind)
			}
		}
		far.Close()
		p.Eval()
		p.Count("connection_"+kind, 1)
		p.Distinct([]byte(fmt.Sprint(kind, cause, stuffed, idle)))
	}
	// of the streams nothing remains, although the contexts live on
	for end := time.Now().Add(3 * patience); libGoroutines() != "" && !p.Failed(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			p.Fail(nil, "long after the streams ended, a goroutine of the library remains: %s", libGoroutines())
		}
	}
}

func errName(err error) string {
	for _, e := range []error{io.EOF, io.ErrClosedPipe, syscall.ECONNRESET, syscall.EPIPE} {
		if errors.Is(err, e) {
			return e.Error()
		}
	}
	return "other"
}

// realTalk: two streams at the ends of one connection, both ways at once.
func realTalk(p *P, kind string, set *dset, frames [2][]mavlink2.Frame) (received [2][]got) {
	var ends [2]io.ReadWriteCloser
	ends[0], ends[1] = realPair(p, kind)
	if ends[0] == nil {
		return
	}
	var ss [2]*mavlink2.FrameStream
	var loops, fed [2]chan struct{}
	var cons [2]chan struct{}
	for side := range 2 {
		in := make(chan mavlink2.Frame)
		ss[side] = mavlink2.NewFrameStream(ends[side], in, set.lib, false)
		loops[side], cons[side], fed[side] = make(chan struct{}, 2), make(chan struct{}), make(chan struct{})
		go func() { ss[side].ReadContext(context.Background()); loops[side] <- struct{}{} }()
		go func() { ss[side].WriteContext(context.Background()); loops[side] <- struct{}{} }()
		go func() {
			defer close(cons[side])
			for f := range ss[side].Read() {
				received[side] = append(received[side], take(f))
				if len(received[side]) == len(frames[1-side]) {
					return
				}
			}
		}()
		go func() {
			defer close(fed[side])
			for _, f := range frames[side] {
				select {
				case in <- f:
				case <-ss[side].Closed():
					return
				}
			}
		}()
	}
	for side := range 2 {
		if !within(fed[side]) || !within(cons[side]) {
			p.Fatal(nil, "endpoint %d (%s) did not get all frames", side, kind)
		}
		if isDone(ss[side].Closed()) {
			p.Fail(nil, "endpoint %d (%s) closed by itself: %v", side, kind, ss[side].GetCloseErr())
		}
	}
	for side := range 2 {
		ss[side].Close()
		if !within(loops[side]) || !within(loops[side]) {
			p.Fatal(nil, "endpoint %d (%s) goes on after Close", side, kind)
		}
	}
	return
}

// realStall: the other end of a connection does not read, and still everything it sends is delivered.
func realStall(p *P, n int) {
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(1<<29 + i)
		kind := realKinds[i%len(realKinds)]
		near, far := realPair(p, kind)
		if near == nil {
			continue
		}
		set := mkset("common", "ardupilotmega")
		in := make(chan mavlink2.Frame)
		s := mavlink2.NewFrameStreamWithLogger(near, in, set.lib, false, anyLogger(r))
		loops := make(chan struct{}, 2)
		go func() { s.ReadContext(context.Background()); loops <- struct{}{} }()
		go func() { s.WriteContext(context.Background()); loops <- struct{}{} }()
		p.Doing("connection %d (%s), whose other end does not read", i, kind)
		f := frameOf(validFrame(r, set, set.msgs[0]))
		for full := false; !full; {
			select {
			case in <- f:
			case <-s.Closed():
				p.Fatal(nil, "the stream on a connection (%s) closed by itself: %v", kind, s.GetCloseErr())
			case <-time.After(20 * time.Millisecond):
				full = true
			}
		}
		for k := range 50 {
			b := validFrame(r, set, set.msgs[r.IntN(len(set.msgs))])
			sent := make(chan error, 1)
			go func() { _, err := far.Write(b); sent <- err }()
			select {
			case g := <-s.Read():
				if g == nil || !same(g.Bytes(), b) {
					p.Fatal(hexs(b), "frame %d came over a connection (%s) as %v; the close error is %v", k, kind, g, s.GetCloseErr())
				}
			case <-time.After(3 * patience):
				p.Fatal(hexs(b), "frame %d did not come over a connection (%s) whose other direction is stuck", k, kind)
			}
			<-sent
		}
		s.Close()
		if !within(loops) || !within(loops) {
			p.Fatal(nil, "the stream on a connection (%s) goes on after Close", kind)
		}
		far.Close()
		p.Eval()
		p.Count("connection_"+kind, 1)
	}
}
