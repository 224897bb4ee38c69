package mv

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

var errClosedConn = errors.New("transport closed")

// transportErrs are what transports fail with. Whatever it is, it is final for the stream, and its close error.
var transportErrs = []error{io.EOF, errWire, io.ErrUnexpectedEOF, errClosedConn, fmt.Errorf("wrapped: %w", errWire), fmt.Errorf("wrapped: %w", io.EOF),
	io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, io.ErrShortBuffer, net.ErrClosed, os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.ETIMEDOUT, syscall.ECONNRESET, syscall.ECONNREFUSED, syscall.EPIPE, syscall.EIO, syscall.ENOBUFS, syscall.EMSGSIZE,
	&net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed},
	&net.OpError{Op: "write", Net: "udp", Err: syscall.ECONNREFUSED}, &net.OpError{Op: "write", Net: "udp", Err: os.NewSyscallError("sendto", syscall.ENOBUFS)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}, &net.DNSError{Err: "no such host", IsTemporary: true, IsTimeout: true},
	passing("not now"), &fs.PathError{Op: "read", Path: "/dev/ttyUSB0", Err: syscall.EAGAIN}, errors.Join(errWire, errClosedConn),
	mavlink2.ErrFrameTooShort, mavlink2.ErrUnknownStartByte, mavlink2.ErrUnknownMessage, mavlink2.ErrInvalidChecksum, util.ErrNoAddress,
	errors.ErrUnsupported, syscall.ENOTSUP, os.ErrPermission, fs.ErrNotExist, syscall.EBADF, syscall.ENOTCONN, syscall.EHOSTUNREACH, syscall.ENETDOWN, syscall.ENODEV,
	bufio.ErrBufferFull, bufio.ErrNegativeCount, io.ErrNoProgress, mavlink2.ErrMessageTooLong, mavlink2.ErrMessageTooShort, mavlink2.ErrUnsupportedVersion,
	&net.OpError{Op: "read", Net: "unix", Err: io.EOF}, os.NewSyscallError("read", syscall.EINTR), &os.LinkError{Op: "link", Err: syscall.EIO}}

func anyErr(r *rand.Rand) error { return transportErrs[r.IntN(len(transportErrs))] }

// sameErr also takes the end of the file in the middle of a (false) frame, which may be reported as unexpected.
func sameErr(got, want error) bool {
	return got == want || want == io.EOF && got == io.ErrUnexpectedEOF
}

// passing is an error that says that it passes, as those of sockets with a deadline do.
type passing string

func (e passing) Error() string   { return string(e) }
func (e passing) Timeout() bool   { return true }
func (e passing) Temporary() bool { return true }

// step is one transport read: wait, then hand out data and/or an error.
type step struct {
	after time.Duration
	data  []byte
	err   error
	both  bool // data and err in the same Read
}

// conn is an in-memory transport whose reads follow a script, and whose writes are recorded.
// Every blocking point is on a channel or on the (virtual) clock, so synctest sees quiescence.
type conn struct {
	mu       sync.Mutex
	script   []step
	feed     chan step // when set, the script continues from here
	closed   chan struct{}
	once     sync.Once
	closes   int
	closeErr error
	closeFor int  // Close takes this long: so many other turns (a closer that waits for a mutex would stop the virtual clock)
	closeEnd bool // and ends the reads and writes last, not first
	closedUp int  // how often Close has returned

	writes     [][]byte
	failAt     int // the write with this index fails
	failErr    error
	failShort  int           // how many bytes of the failing write it reports
	writeDelay time.Duration // virtual
	blockAt    int           // the write with this index blocks until Close
	reads      int
	zeroReads  int
	events     *eventLog
	afterClose int // reads and writes begun after Close
	lateWrites int // writes begun after Close
	onRead     func()
	onWrite    func()
	onClose    func()
	lossy      bool // like a packet socket: what does not fit the read is lost
	rdl, wdl   deadline
}

// deadline of one direction, for transports that have them; like that of net.Pipe.
type deadline struct {
	mu    sync.Mutex
	timer *time.Timer
	gone  chan struct{}
	sets  int
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.sets++
	if d.timer != nil && !d.timer.Stop() {
		<-d.gone // wait for the timer's function
	}
	d.timer = nil
	past := false
	select {
	case <-d.gone:
		past = true
	default:
	}
	if t.IsZero() {
		if past {
			d.gone = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if past {
			d.gone = make(chan struct{})
		}
		gone := d.gone
		d.timer = time.AfterFunc(dur, func() { close(gone) })
		return
	}
	if !past {
		close(d.gone)
	}
}

func (d *deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.gone
}

// sockConn is the transport with all that a net.Conn can do.
type sockConn struct{ *conn }

func (c sockConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 14550} }
func (c sockConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 14551} }
func (c sockConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c sockConn) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.rdl.set(t)
	return nil
}
func (c sockConn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.wdl.set(t)
	return nil
}

var _ net.Conn = sockConn{}

var conns atomic.Uint32

// rwc gives the transport as it is or, every third, as a net.Conn.
func (c *conn) rwc() io.ReadWriteCloser {
	if conns.Add(1)%3 == 0 {
		return sockConn{c}
	}
	return c
}

func newConn(script ...step) *conn {
	return (&conn{script: script, failAt: -1, blockAt: -1}).here()
}

// here makes the channels anew, in the caller's bubble.
func (c *conn) here() *conn {
	c.closed = make(chan struct{})
	c.rdl.gone, c.wdl.gone = make(chan struct{}), make(chan struct{})
	return c
}

func (c *conn) log(e string) {
	if c.events != nil {
		c.events.add(e)
	}
}

func (c *conn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	c.reads++
	c.mu.Unlock()
	if c.onRead != nil {
		c.onRead()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.isClosed() {
		c.mu.Lock()
		c.afterClose++
		c.mu.Unlock()
		return 0, errClosedConn
	}
	c.mu.Lock()
	if len(c.script) == 0 {
		feed := c.feed
		c.mu.Unlock()
		if feed == nil {
			select {
			case <-c.closed:
				return 0, errClosedConn
			case <-c.rdl.wait():
				return 0, os.ErrDeadlineExceeded
			}
		}
		select {
		case s := <-feed:
			c.mu.Lock()
			c.script = append(c.script, s)
		case <-c.closed:
			return 0, errClosedConn
		case <-c.rdl.wait():
			return 0, os.ErrDeadlineExceeded
		}
	}
	s := c.script[0]
	c.script[0].after = 0
	c.mu.Unlock()
	if s.after > 0 {
		t := time.NewTimer(s.after)
		defer t.Stop()
		select {
		case <-t.C:
		case <-c.closed:
			return 0, errClosedConn
		case <-c.rdl.wait():
			return 0, os.ErrDeadlineExceeded
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	n := copy(p, s.data)
	if n < len(s.data) && !c.lossy {
		c.script[0].data = s.data[n:]
		return n, nil
	}
	if s.err != nil && len(s.data) > 0 && !s.both {
		c.script[0].data = nil
		return n, nil
	}
	c.script = c.script[1:]
	if n == 0 && s.err == nil {
		c.zeroReads++
	}
	return n, s.err
}

func (c *conn) Write(p []byte) (int, error) {
	if c.onWrite != nil {
		c.onWrite()
	}
	c.mu.Lock()
	if c.isClosed() {
		c.afterClose++
		c.lateWrites++
		c.mu.Unlock()
		return 0, errClosedConn
	}
	c.mu.Unlock()
	if c.writeDelay > 0 {
		t := time.NewTimer(c.writeDelay)
		defer t.Stop()
		select {
		case <-t.C:
		case <-c.closed:
			return 0, errClosedConn
		case <-c.wdl.wait():
			return 0, os.ErrDeadlineExceeded
		}
	}
	c.mu.Lock()
	if c.isClosed() {
		c.mu.Unlock()
		return 0, errClosedConn
	}
	i := len(c.writes)
	if i == c.blockAt {
		c.writes = append(c.writes, nil)
		c.mu.Unlock()
		select {
		case <-c.closed:
			return 0, errClosedConn
		case <-c.wdl.wait():
			return 0, os.ErrDeadlineExceeded
		}
	}
	defer c.mu.Unlock()
	if i == c.failAt {
		c.writes = append(c.writes, append([]byte(nil), p[:min(c.failShort, len(p))]...))
		c.log("write-error")
		return min(c.failShort, len(p)), c.failErr
	}
	c.writes = append(c.writes, append([]byte(nil), p...))
	c.log("write")
	return len(p), nil
}

func (c *conn) Close() error {
	if c.onClose != nil {
		c.onClose()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	c.log("transport-close")
	end := func() { c.once.Do(func() { close(c.closed) }) }
	if !c.closeEnd {
		end()
	}
	if c.closeFor > 0 {
		c.mu.Unlock()
		for range c.closeFor {
			runtime.Gosched()
		}
		c.mu.Lock()
	}
	end()
	c.closedUp++
	return c.closeErr
}

func (c *conn) snapshot() (writes [][]byte, closes int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.writes...), c.closes
}

var _ io.ReadWriteCloser = (*conn)(nil)

// eventLog is the recorded history of one run.
type eventLog struct {
	mu sync.Mutex
	ev []string
}

func (l *eventLog) add(e string) { l.mu.Lock(); l.ev = append(l.ev, e); l.mu.Unlock() }

func (l *eventLog) all() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.ev...)
}
