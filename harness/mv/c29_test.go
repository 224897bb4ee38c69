package mv

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"verifharness/ref"
)

func init() { props["C29"] = shipped }

var stamp = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? `)

// logLines are the non-empty lines, without time stamps.
func logLines(s string) (out []string) {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(stamp.ReplaceAllString(l, ""))
		if l != "" {
			out = append(out, l)
		}
	}
	return
}

// screen is what the monitor's output goes to.
type screen struct {
	gate  sync.Mutex // held: a terminal that does not take anything for now
	mu    sync.Mutex
	lines []string // the non-empty lines, without time stamps
	rest  []byte   // an incomplete one
	last  []byte   // the end of it all, as it came
}

func (s *screen) Write(p []byte) (int, error) {
	s.gate.Lock()
	defer s.gate.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.last = append(s.last, p...)
	s.last = s.last[max(0, len(s.last)-20000):]
	s.rest = append(s.rest, p...)
	if k := bytes.LastIndexByte(s.rest, '\n'); k >= 0 {
		s.lines = append(s.lines, logLines(string(s.rest[:k]))...)
		s.rest = append([]byte(nil), s.rest[k+1:]...)
	}
	return len(p), nil
}

func (s *screen) count() int     { s.mu.Lock(); defer s.mu.Unlock(); return len(s.lines) }
func (s *screen) String() string { s.mu.Lock(); defer s.mu.Unlock(); return string(s.last) }
func (s *screen) from(k int) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.lines[min(k, len(s.lines)):]...)
}

// elsewhere builds the packages for other platforms on which the library is used.
func elsewhere(p *P) {
	platforms := []string{"linux/386", "linux/arm", "linux/arm64", "windows/amd64", "darwin/arm64"}
	if p.Thorough {
		platforms = append(platforms, "windows/386", "darwin/amd64", "linux/mips", "linux/mips64", "linux/riscv64", "linux/ppc64", "linux/s390x", "android/arm64", "freebsd/amd64", "openbsd/amd64")
	}
	var wg sync.WaitGroup
	for _, pl := range platforms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sys, arch, _ := strings.Cut(pl, "/")
			build := func(what ...string) ([]byte, error) {
				c := exec.Command("go", append([]string{"build"}, what...)...)
				c.Dir = repoDir()
				c.Env = append(os.Environ(), "GOOS="+sys, "GOARCH="+arch, "CGO_ENABLED=0")
				return c.CombinedOutput()
			}
			if _, err := build("bufio", "bytes", "context", "encoding/binary", "errors", "fmt", "io", "log", "math", "net", "sync", "text/tabwriter"); err != nil {
				p.Note("this toolchain does not build for %s", pl)
				return
			}
			if b, err := build("./..."); err != nil {
				p.Fail(map[string]string{"platform": pl, "output": string(b)}, "the packages do not build for %s: %v", pl, err)
			}
			p.Eval()
			p.Count("platforms_built_for", 1)
			p.Distinct([]byte(pl))
		}()
	}
	wg.Wait()
}

// shipped: every package of the repository can be used, and the monitor program shows what arrives.
func shipped(p *P) {
	p.rule = "(a) every package of the module is built; (b) a case is a datagram history sent to the running monitor program (frames of all of its messages, V1, V2 and signed, several in a datagram or split over two, between rejected frames and noise): its log must show each valid frame's message once, in order, and nothing else, and it must stay up; non-trivial if a frame was due"
	tmp, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "c29")
	if err != nil {
		p.Inconclusive("%v", err)
	}
	defer os.RemoveAll(tmp)
	list := exec.Command("go", "list", "-e", "-f", "{{.ImportPath}} {{.Name}}", "./...")
	list.Dir = repoDir()
	out, err := list.Output()
	if err != nil {
		p.Inconclusive("go list: %v", err)
	}
	monitor := ""
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		path, name, _ := strings.Cut(l, " ")
		p.Doing("building %s", path)
		exe := filepath.Join(tmp, "out")
		c := exec.Command("go", "build", "-o", exe, path)
		if name != "main" {
			c = exec.Command("go", "build", path)
		}
		c.Dir = repoDir()
		if b, err := c.CombinedOutput(); err != nil {
			p.Fail(map[string]string{"package": path, "output": string(b)}, "package %s does not build: %v", path, err)
		}
		if name == "main" && strings.HasSuffix(path, "/cmd") {
			monitor = filepath.Join(tmp, "monitor")
			os.Rename(exe, monitor)
		}
		p.Eval()
		p.Count("packages_built", 1)
		p.Distinct([]byte(path))
	}
	elsewhere(p)
	if p.Failed() || monitor == "" {
		return
	}
	// the monitor's port is fixed; wait for it to be free
	const port = 14551
	for try := 0; ; try++ {
		probe, err := net.ListenPacket("udp", fmt.Sprintf("0.0.0.0:%d", port))
		if err == nil {
			probe.Close()
			break
		}
		if try > 60 {
			p.Inconclusive("UDP port %d is taken: %v", port, err)
		}
		time.Sleep(time.Second)
	}
	set := mkset("common", "ardupilotmega")
	n := p.N(500, 8000)
	var stderr screen
	cmd := exec.Command(monitor)
	cmd.Stdout = io.Discard
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		p.Inconclusive("starting the monitor: %v", err)
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	defer cmd.Process.Kill()
	c := dial(p, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	var want []string
	awaitLines := func() bool {
		deadline := time.Now().Add(30 * time.Second)
		for {
			select {
			case err := <-exited:
				p.Fatal(map[string]string{"stderr": tail(stderr.String())}, "the monitor ended: %v", err)
			default:
			}
			if stderr.count() >= len(want) {
				return true
			}
			if time.Now().After(deadline) {
				return false
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	show := func(b []byte) []string {
		m, err := set.lib.GetMessage(frameOf(b))
		if err != nil {
			p.Fatal(hexs(b), "GetMessage: %v", err)
		}
		return logLines(fmt.Sprint(m))
	}
	// it may take a moment to listen
	hello := ref.Frame1(0, 1, 1, 0, make([]byte, 9), 50)
	up := false
	for try := 0; try < 600 && !up; try++ {
		c.Write(hello)
		time.Sleep(100 * time.Millisecond)
		up = stderr.count() > 0
		select {
		case err := <-exited:
			if strings.Contains(stderr.String(), "in use") {
				p.Inconclusive("UDP port %d is taken", port)
			}
			p.Fatal(map[string]string{"stderr": tail(stderr.String())}, "the monitor ended: %v", err)
		default:
		}
	}
	if !up {
		p.Fatal(map[string]string{"stderr": tail(stderr.String())}, "the monitor does not show a heartbeat")
	}
	time.Sleep(200 * time.Millisecond)
	hellos := stderr.count()
	if h := show(hello); hellos%len(h) != 0 {
		p.Fatal(map[string]string{"stderr": tail(stderr.String())}, "the monitor shows heartbeats as something else")
	} else {
		for k := 0; k < hellos/len(h); k++ {
			want = append(want, h...)
		}
	}
	checked := 0
	for i := 0; i < n && !p.Failed(); i++ {
		r := p.Rand(i)
		var data []byte
		var due [][]byte
		alike := r.IntN(2) == 0 // one type, and frames that come again
		pick := set.msgs[r.IntN(len(set.msgs))]
		many := 1 + r.IntN(5)
		burst := i%25 == 24
		if burst {
			many = 200 + r.IntN(2000)
		}
		var f []byte
		for k := many; k > 0 && len(data) < 60000; k-- {
			if !alike {
				pick = set.msgs[r.IntN(len(set.msgs))]
			}
			switch r.IntN(4) {
			case 0:
				_, b := badFrame(r, set, pick)
				data = append(data, b...)
			case 1:
				data = append(data, randBytes(r, r.IntN(20))...)
			default:
				if f == nil || !alike || r.IntN(2) == 0 {
					f = validFrame(r, set, pick)
				}
				data = append(data, f...)
			}
		}
		data = append(data, make([]byte, 300)...)
		for _, x := range set.tabs.Scan(data) {
			if x.V == ref.OK && !x.Tail {
				due = append(due, data[x.Start:x.End])
			}
		}
		p.Doing("datagram history %d: %x", i, data)
		slow := burst && r.IntN(2) == 0
		if slow {
			stderr.gate.Lock()
			p.Count("slow_terminals", 1)
		}
		if r.IntN(3) == 0 {
			k := r.IntN(len(data))
			c.Write(data[:k])
			c.Write(data[k:])
		} else {
			c.Write(data)
		}
		if slow {
			time.Sleep(200 * time.Millisecond)
			stderr.gate.Unlock()
		}
		for _, b := range due {
			want = append(want, show(b)...)
			p.Distinct(b)
		}
		if !awaitLines() {
			if dropped(port) > 0 {
				p.Inconclusive("the system dropped a datagram on the loopback interface")
			}
			p.Fail(map[string]string{"data": hexs(data), "stderr": tail(stderr.String())}, "the monitor did not show all of %d messages", len(due))
			break
		}
		got := stderr.from(checked)
		for k, w := range want[checked:] {
			if got[k] != w {
				p.Fail(map[string]string{"data": hexs(data), "stderr": tail(stderr.String())}, "the monitor shows %q, and should show %q", got[k], w)
				break
			}
		}
		checked = len(want)
		p.Eval()
		p.Count("messages_shown", len(due))
		if burst {
			p.Count("bursts", 1)
		}
		if i%(n/8+1) == 0 {
			p.Sample(map[string]any{"data": hexs(data), "shown": len(due)})
		}
	}
	time.Sleep(300 * time.Millisecond)
	if got := stderr.count(); got != len(want) && !p.Failed() {
		p.Fail(map[string]string{"stderr": tail(stderr.String())}, "the monitor shows %d lines, and should show %d", got, len(want))
	}
	p.Count("log_lines", len(want))
}

func tail(s string) string { return s[max(0, len(s)-1500):] }

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
