package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/WatchBeam/rtmp"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/server"
	"pgregory.net/rapid"
)

// c18.go: real connections over the loopback network. What is judged is which
// connections have which clients; time plays no part, except that the watchdog
// reports goroutines that are blocked for good.

// SrvOp is one step of a server history.
type SrvOp struct {
	// Op: accept (the accept loop is started), dial (N connections at the
	// same time), take (N clients), talk (over connection I), session (a
	// handshake and control messages over connection I), half (the peer of
	// connection I ends its side), reset (of connection I), close (the
	// server, for N > 0 once it has accepted what it can), late
	// (connections to the closed server), bind (a second
	// server for the same address).
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
	I  int    `json:"i,omitempty"`
	// P is the payload each way when talking.
	P P `json:"p"`
}

// SrvCase is a history of one server.
type SrvCase struct {
	// Top makes the server with rtmp.NewServer.
	Top bool    `json:"top"`
	Ops []SrvOp `json:"ops"`
	// Takers are how many goroutines take clients at the same time.
	Takers int `json:"takers"`
}

func genSrv(t *rapid.T) SrvCase {
	c := SrvCase{Top: rapid.Bool().Draw(t, "top"), Takers: genInt(t, "takers", 1, 3)}
	accepting, closed := false, false
	dialed, taken := 0, 0
	n := genInt(t, "ops", 2, 14)
	for i := 0; i < n; i++ {
		op := SrvOp{Op: oneOf(t, "op", "dial", "dial", "dial", "take", "take", "take", "talk", "talk", "farewell", "session", "half", "reset", "accept", "close", "late", "bind")}
		switch op.Op {
		case "accept":
			if accepting || closed {
				continue
			}
			accepting = true
		case "dial":
			if closed {
				continue
			}
			op.N = genInt(t, "n", 1, 4)
			dialed += op.N
		case "take":
			if closed || taken == dialed {
				continue
			}
			if !accepting {
				accepting = true
				c.Ops = append(c.Ops, SrvOp{Op: "accept"})
			}
			op.N = genInt(t, "n", 1, dialed-taken)
			taken += op.N
		case "talk", "session", "farewell":
			if taken == 0 {
				continue
			}
			op.I = genInt(t, "i", 0, taken-1)
			if op.Op == "farewell" {
				op.P = P{oneOf(t, "size", 1, 100, 5000, 70000, 300000, 5000000), genSeed(t)}
			}
			if op.Op == "talk" {
				op.P = P{genInt(t, "len", 1, 2000), genSeed(t)}
			}
		case "half", "reset":
			if dialed == 0 {
				continue
			}
			op.I = genInt(t, "i", 0, dialed-1)
		case "close":
			if closed || !chance(t, "close", 40) {
				continue
			}
			closed = true
			op.N = genInt(t, "accepted", 0, 1)
		case "late":
			if !closed {
				continue
			}
			op.N = genInt(t, "n", 1, 2)
		case "bind":
			if closed {
				continue
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// srvConn is one connection and, once it was taken, its client.
type srvConn struct {
	net.Conn
	addr   string
	cl     *client.Client
	half   bool
	reset  bool
	said   bool // the session was started, or half of it
	talked int
}

var (
	hostSeq  atomic.Uint32
	hostOnce sync.Once
	anyHost  bool
)

// freshAddr returns a loopback address with a port nobody listens on. Each
// server gets a host of its own if the system allows that.
func freshAddr() (string, error) {
	hostOnce.Do(func() {
		l, err := net.Listen("tcp", "127.77.1.1:0")
		if anyHost = err == nil; anyHost {
			l.Close()
		}
	})
	host := "127.0.0.1"
	if anyHost {
		n := hostSeq.Add(1) - 1
		host = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, n/250%250, 1+n%250)
	}
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	return l.Addr().String(), nil
}

// listen makes a server on a fresh address.
func listen(o *O, top bool) (*server.Server, string) {
	var last error
	for i := 0; i < 20; i++ {
		addr, err := freshAddr()
		if err != nil {
			o.Harness = "no address to listen on: " + err.Error()
			return nil, ""
		}
		make := server.New
		if top {
			make = rtmp.NewServer
		}
		s, err := make(addr)
		if err == nil {
			return s, addr
		}
		last = err
	}
	o.Failf("bind", "no server can be made on a free address: %v", last)
	return nil, ""
}

// world is the state of a server history.
type world struct {
	o       *O
	s       *server.Server
	addr    string
	conns   []*srvConn
	byAddr  map[string]*srvConn
	taken   []*srvConn
	done    chan struct{}
	started bool
	closed  bool
	stray   []*client.Client
	errs    []error
}

func (w *world) dial(n int) {
	res := make([]net.Conn, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i], errs[i] = net.Dial("tcp", w.addr)
		}()
	}
	wg.Wait()
	for i, c := range res {
		if errs[i] != nil {
			w.o.Failf("connect", "connecting to the listening server: %v", errs[i])
			continue
		}
		k := &srvConn{Conn: c, addr: c.LocalAddr().String()}
		w.conns = append(w.conns, k)
		w.byAddr[k.addr] = k
	}
}

// got books a client that the server handed out.
func (w *world) got(cl *client.Client) {
	if cl == nil {
		w.o.Failf("client", "the server handed out a nil client")
		return
	}
	nc, ok := cl.Conn.(net.Conn)
	if !ok {
		w.o.Failf("client", "the client's connection is a %T", cl.Conn)
		return
	}
	k := w.byAddr[nc.RemoteAddr().String()]
	switch {
	case k == nil:
		w.o.Failf("client", "a client for %v, but nobody connected from there", nc.RemoteAddr())
	case k.cl != nil:
		w.o.Failf("client", "a second client for the connection from %s", k.addr)
	case k.late():
		w.o.Failf("late", "the connection from %s was made after the server had been closed, but has a client", k.addr)
	default:
		k.cl = cl
		w.taken = append(w.taken, k)
		return
	}
	w.stray = append(w.stray, cl)
}

func (k *srvConn) late() bool { return k.talked < 0 }

// take takes n clients, from several goroutines.
func (w *world) take(n, takers int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var out []*client.Client
	left := n
	for range takers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				more := left > 0
				left--
				mu.Unlock()
				if !more {
					return
				}
				select {
				case cl := <-w.s.Clients():
					mu.Lock()
					out = append(out, cl)
					mu.Unlock()
				case err := <-w.s.Errs():
					mu.Lock()
					w.errs = append(w.errs, err)
					left++
					if len(w.errs) > 100 {
						left = 0
						w.o.Failf("errors", "the server keeps reporting %v", err)
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	for _, cl := range out {
		w.got(cl)
	}
}

// settle takes what is left after the server was closed.
func (w *world) settle() {
	errs := 0
	for {
		select {
		case <-w.done:
			return
		case cl := <-w.s.Clients():
			w.got(cl)
			if w.o.Bad() {
				return
			}
		case err := <-w.s.Errs():
			if errs++; errs > 3 {
				w.o.Failf("close", "the accept loop goes on after the server was closed, reporting %v", err)
				return
			}
		}
	}
}

// talk sends bytes both ways between the connection and the client's.
func (w *world) talk(k *srvConn, p P) {
	if k.half || k.reset || k.said {
		return
	}
	k.talked++
	data := p.Data()
	back := P{p.N, p.S + 1}.Data()
	conn := k.cl.Conn
	var wg sync.WaitGroup
	one := func(what string, from io.Writer, to io.Reader, b []byte) {
		wg.Add(2)
		go func() {
			defer wg.Done()
			if _, err := from.Write(b); err != nil {
				w.o.Failf("talk", "writing %s: %v", what, err)
			}
		}()
		go func() {
			defer wg.Done()
			got := make([]byte, len(b))
			if n, err := io.ReadFull(to, got); err != nil || !bytes.Equal(got, b) {
				w.o.Failf("talk", "%s: %d of %d bytes arrived (%v), as sent: %v", what, n, len(b), err, bytes.Equal(got, b))
			}
		}()
	}
	one("to the client", k.Conn, conn, data)
	one("from the client", conn, k.Conn, back)
	wg.Wait()
}

// farewell sends bytes to the peer and closes the client's connection: the
// peer, which takes its time, gets all of them and the end.
func (w *world) farewell(k *srvConn, p P) {
	c, ok := k.cl.Conn.(io.WriteCloser)
	if k.half || k.reset || k.said || !ok {
		return
	}
	k.half = true
	w.o.Class("farewell")
	data := p.Data()
	wrote := make(chan error, 1)
	go func() {
		_, err := c.Write(data)
		c.Close()
		wrote <- err
	}()
	time.Sleep(time.Millisecond)
	got, err := io.ReadAll(k.Conn)
	if werr := <-wrote; werr != nil {
		w.o.Failf("talk", "writing to a client: %v", werr)
	}
	if err != nil || !bytes.Equal(got, data) {
		w.o.Failf("talk", "of %d bytes sent before a client's connection was closed %d arrived, followed by %v", len(data), len(got), err)
	}
}

// session does a handshake and exchanges control messages.
func (w *world) session(k *srvConn, i int) {
	if k.half || k.reset || k.said {
		return
	}
	k.said = true
	w.o.Leaks++
	w.o.Class("session")
	var wg sync.WaitGroup
	wg.Add(1)
	token := uint32(7000 + i)
	go func() {
		defer wg.Done()
		c0c1 := make([]byte, 1537)
		c0c1[0] = 3
		binary.BigEndian.PutUint32(c0c1[9:], token)
		k.Conn.Write(c0c1)
		s := make([]byte, 1537+1536)
		if n, err := io.ReadFull(k.Conn, s); err != nil {
			w.o.Failf("session", "%d bytes of the handshake: %v", n, err)
			return
		}
		if s[0] != 3 || !bytes.Equal(s[1537+8:], c0c1[9:]) {
			w.o.Failf("session", "the handshake's answer is not for this connection")
			return
		}
		k.Conn.Write(s[1 : 1+1536])
		in := append([]byte{2, 0, 0, 0, 0, 0, 4, 5, 0, 0, 0, 0}, binary.BigEndian.AppendUint32(nil, token)...)
		k.Conn.Write(in)
		out := make([]byte, 16+16)
		if n, err := io.ReadFull(k.Conn, out); err != nil {
			w.o.Failf("session", "%d bytes of the session: %v", n, err)
			return
		}
		sent, err := refDecode(DialectSpec, out, 128)
		if err != nil || len(sent) != 2 || sent[0].M.Type != 1 || sent[1].M.Type != 3 || binary.BigEndian.Uint32(sent[1].M.Data) != token+1 {
			w.o.Failf("session", "the peer received %x (%v)", out, err)
		}
	}()
	if err := k.cl.Handshake(); err != nil {
		w.o.Failf("session", "handshake: %v", err)
		k.Conn.Close()
		wg.Wait()
		return
	}
	go k.cl.Controls().Recv()
	select {
	case c := <-k.cl.Controls().In():
		if v, ok := c.(*control.WindowAckSize); !ok || v.WindowAckSize != token {
			w.o.Failf("session", "the client received %#v, not window size %d", c, token)
		}
	case err := <-k.cl.Controls().Errs():
		w.o.Failf("session", "the client received the error %v", err)
	}
	k.cl.Controls().Out() <- &control.Acknowledgement{SequenceNumber: token + 1}
	wg.Wait()
}

func (w *world) closeServer() {
	w.closed = true
	w.s.Close()
}

// kernel reads the kernel's table of connections: how many connections that
// nobody has taken are established at the server's side, accepted or not, and
// how many the server has not accepted yet (-1 if that is not known).
func (w *world) kernel() (established, backlog int) {
	backlog = -1
	a, err := net.ResolveTCPAddr("tcp", w.addr)
	if err != nil || a.IP.To4() == nil {
		return
	}
	table, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return
	}
	hex := func(ip net.IP, port int) string {
		return fmt.Sprintf("%08X:%04X", binary.NativeEndian.Uint32(ip.To4()), port)
	}
	untaken := map[string]bool{}
	for _, k := range w.conns {
		if t, ok := k.Conn.LocalAddr().(*net.TCPAddr); ok && k.cl == nil && t.IP.To4() != nil {
			untaken[hex(t.IP, t.Port)] = true
		}
	}
	local := hex(a.IP, a.Port)
	for _, line := range bytes.Split(table, []byte("\n")) {
		f := bytes.Fields(line)
		if len(f) < 5 || string(f[1]) != local {
			continue
		}
		switch string(f[3]) {
		case "01":
			// The table can list a connection twice.
			if r := string(f[2]); untaken[r] {
				untaken[r] = false
				established++
			}
		case "0A":
			var tx, rx int
			if n, _ := fmt.Sscanf(string(f[4]), "%X:%X", &tx, &rx); n == 2 {
				backlog = rx
			}
		}
	}
	return
}

// accepted is how many connections the server has accepted that nobody has
// taken, at least. It gives the server a moment to accept one.
func (w *world) accepted() int {
	if !w.started || len(w.taken) == len(w.conns) {
		return 0
	}
	for range 100 {
		// What is established now is accepted or waiting a moment later.
		established, _ := w.kernel()
		if _, waiting := w.kernel(); waiting >= 0 && waiting < established {
			return established - waiting
		}
		time.Sleep(time.Millisecond)
	}
	return 0
}

// late connects to the closed server: that fails, or comes to nothing.
func (w *world) late(n int) {
	for range n {
		c, err := net.Dial("tcp", w.addr)
		if err != nil {
			continue
		}
		if c.LocalAddr().String() == w.addr {
			c.Close() // connected to itself
			continue
		}
		k := &srvConn{Conn: c, addr: c.LocalAddr().String(), talked: -1}
		w.conns = append(w.conns, k)
		w.byAddr[k.addr] = k
	}
}

func (w *world) cleanup() {
	if !w.closed {
		w.s.Close()
	}
	for _, k := range w.conns {
		if t, ok := k.Conn.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		k.Conn.Close()
		if k.cl != nil {
			w.stray = append(w.stray, k.cl)
		}
	}
	for _, cl := range w.stray {
		if c, ok := cl.Conn.(io.Closer); ok {
			c.Close()
		}
	}
}

func runSrv(o *O, c SrvCase) {
	ioWaitIsStuck.Store(true)
	s, addr := listen(o, c.Top)
	if s == nil {
		return
	}
	w := &world{o: o, s: s, addr: addr, byAddr: map[string]*srvConn{}, done: make(chan struct{})}
	defer w.cleanup()
	start := func() {
		w.started = true
		go func() {
			s.Accept()
			close(w.done)
		}()
	}
	due := 0 // how many clients there have to be in the end
	for i, op := range c.Ops {
		switch op.Op {
		case "accept":
			start()
		case "dial":
			w.dial(op.N)
		case "wait":
			time.Sleep(time.Duration(op.N) * time.Second)
		case "take":
			w.take(op.N, c.Takers)
		case "talk":
			if op.I < len(w.taken) {
				w.talk(w.taken[op.I], op.P)
				if w.closed {
					o.Class("talk-after-close")
				}
			}
		case "session":
			if op.I < len(w.taken) {
				w.session(w.taken[op.I], i)
			}
		case "farewell":
			if op.I < len(w.taken) {
				w.farewell(w.taken[op.I], op.P)
			}
		case "half", "reset":
			k := w.conns[op.I]
			if op.Op == "half" && !k.reset {
				k.half = true
				k.Conn.(*net.TCPConn).CloseWrite()
			} else if k.cl != nil {
				// One that is reset before it is accepted may vanish.
				k.reset = true
				k.Conn.(*net.TCPConn).SetLinger(0)
				k.Conn.Close()
			}
			if k.cl == nil {
				o.Class("ended-before-taken")
			}
		case "close":
			if len(w.taken) < len(w.conns) {
				o.Class("close-with-outstanding")
			}
			if op.N > 0 {
				if due = w.accepted(); due > 0 {
					o.Class("close-after-accepting")
				}
				due += len(w.taken)
			}
			w.closeServer()
		case "late":
			o.Class("late")
			w.late(op.N)
		case "bind":
			o.Class("second-bind")
			s2, err := server.New(addr)
			if err == nil {
				o.Failf("bind", "a second server on the address of the first")
				s2.Close()
			}
		}
		if o.Bad() {
			return
		}
	}
	if len(w.conns) > 1 {
		o.NT = true
	}
	if !w.started {
		start()
	}
	if !w.closed {
		// Everybody has to get a client.
		w.take(len(w.conns)-len(w.taken), c.Takers)
		if o.Bad() {
			return
		}
		w.closeServer()
	}
	w.settle()
	if len(w.taken) < due {
		o.Failf("close", "%d connections were accepted before the server was closed, but there are only %d clients", due, len(w.taken))
	}
	if o.Bad() {
		return
	}
	// Clients work until the end, and nothing came of late connections.
	for i, k := range w.taken {
		w.talk(k, P{20, uint32(i)})
		if o.Bad() {
			return
		}
	}
	for _, k := range w.conns {
		if k.late() {
			if _, err := k.Conn.Read(make([]byte, 1)); err == nil {
				o.Failf("late", "a connection made after the server was closed is talked to")
			}
		}
	}
	select {
	case cl, ok := <-s.Clients():
		if ok {
			w.got(cl)
			o.Failf("close", "a client after the accept loop ended")
		}
	default:
	}
}

// BindCase is an address to bind to.
type BindCase struct {
	Addr string `json:"addr"`
	Top  bool   `json:"top"`
	// Busy listens on the address first; the address is then a free one.
	Busy bool `json:"busy"`
}

// bindCases are addresses that need no name service.
func bindCases(string) (out []BindCase) {
	for _, a := range []string{"", ":0", "127.0.0.1:0", "127.0.0.1", "127.0.0.1:", "127.0.0.1:65536", "127.0.0.1:-1",
		"127.0.0.1:nosuchport", "[::1]:0", "::1:0", "[::1", "127.0.0.1:0:0", "203.0.113.7:4000", "0.0.0.0:0",
		"127.0.0.1:99999999999", "[127.0.0.1:0", "localhost", "\x00:0"} {
		out = append(out, BindCase{Addr: a}, BindCase{Addr: a, Top: true})
	}
	for range 20 {
		out = append(out, BindCase{Busy: true}, BindCase{Busy: true, Top: true})
	}
	return
}

func runBind(o *O, c BindCase) {
	o.NT = true
	ioWaitIsStuck.Store(true)
	make := server.New
	if c.Top {
		make = rtmp.NewServer
	}
	if c.Busy {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			o.Harness = err.Error()
			return
		}
		defer l.Close()
		s, err := make(l.Addr().String())
		if err == nil {
			o.Failf("bind", "no error for an address in use")
			s.Close()
		} else if s != nil {
			o.Failf("bind", "a server and the error %v", err)
		}
		return
	}
	l, want := net.Listen("tcp", c.Addr)
	if want == nil {
		l.Close()
	}
	s, err := make(c.Addr)
	if (err == nil) != (want == nil) {
		o.Failf("bind", "binding to %q gives %v, want %v", c.Addr, err, want)
	}
	if (s == nil) != (err != nil) {
		o.Failf("bind", "binding to %q gives the server %v and the error %v", c.Addr, s, err)
	}
	if s == nil {
		o.Class("refused")
		return
	}
	s.Close()
}

// ReachCase: a server on every address of some host, and who reaches it.
type ReachCase struct {
	Host string `json:"host"`
	Top  bool   `json:"top"`
}

func reachCases(string) (out []ReachCase) {
	for _, h := range []string{"", "0.0.0.0", "[::]", "127.0.0.1", "127.0.0.2", "[::1]"} {
		for range 5 {
			out = append(out, ReachCase{h, false}, ReachCase{h, true})
		}
	}
	return
}

// runReach: those reach it who reach a plain listener on the same address.
func runReach(o *O, c ReachCase) {
	ioWaitIsStuck.Store(true)
	from := []string{"127.0.0.1", "127.0.0.2", "[::1]"}
	if ip := net.ParseIP(strings.Trim(c.Host, "[]")); ip != nil && !ip.IsUnspecified() {
		// Others may listen on the same port of other hosts.
		from = []string{c.Host}
	}
	for range 20 {
		l, err := net.Listen("tcp", c.Host+":0")
		if err != nil {
			o.Class("no-such-host")
			return
		}
		_, port, _ := net.SplitHostPort(l.Addr().String())
		want := make([]bool, len(from))
		for i, h := range from {
			if conn, err := net.Dial("tcp", h+":"+port); err == nil {
				want[i] = true
				conn.Close()
			}
		}
		l.Close()
		listen := server.New
		if c.Top {
			listen = rtmp.NewServer
		}
		s, err := listen(c.Host + ":" + port)
		if err != nil {
			continue // somebody else took it
		}
		o.NT = true
		w := &world{o: o, s: s, byAddr: map[string]*srvConn{}, done: make(chan struct{})}
		go func() {
			s.Accept()
			close(w.done)
		}()
		for i, h := range from {
			if !want[i] {
				continue
			}
			o.Class("from %s to %q", h, c.Host)
			w.addr = h + ":" + port
			w.dial(1)
			if o.Bad() {
				break
			}
			w.take(1, 1)
			if o.Bad() {
				break
			}
			w.talk(w.taken[len(w.taken)-1], P{10, uint32(i)})
		}
		w.closeServer()
		if !o.Bad() {
			w.settle()
		}
		w.cleanup()
		return
	}
	o.Failf("bind", "no server can be made on host %q", c.Host)
}

// NoFiles: the process has no file descriptors left for a while.
type NoFiles struct {
	During int `json:"during"` // connections made meanwhile
	Errs   int `json:"errs"`   // errors taken meanwhile
	After  int `json:"after"`  // connections made later
	Before int `json:"before"`
}

func genNoFiles(t *rapid.T) NoFiles {
	return NoFiles{genInt(t, "during", 1, 3), genInt(t, "errs", 0, 4), genInt(t, "after", 1, 3), genInt(t, "before", 0, 2)}
}

// runNoFiles: an accept loop that could not accept for a while goes on.
func runNoFiles(o *O, c NoFiles) {
	o.NT = true
	ioWaitIsStuck.Store(true)
	s, addr := listen(o, false)
	if s == nil {
		return
	}
	w := &world{o: o, s: s, addr: addr, byAddr: map[string]*srvConn{}, done: make(chan struct{})}
	defer w.cleanup()
	go func() {
		s.Accept()
		close(w.done)
	}()
	w.dial(c.Before)
	w.take(c.Before, 1)
	if o.Bad() {
		return
	}
	ta, _ := net.ResolveTCPAddr("tcp", addr)
	sa := &syscall.SockaddrInet4{Port: ta.Port}
	copy(sa.Addr[:], ta.IP.To4())
	var fds []int
	for range c.During {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			o.Harness = err.Error()
			return
		}
		fds = append(fds, fd)
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 0, Max: old.Max})
	for _, fd := range fds {
		if err := syscall.Connect(fd, sa); err != nil {
			o.Harness = "connecting: " + err.Error()
		}
	}
	// Errors are taken if there are any. That takes a moment at most; if
	// it takes longer, the case is a weaker one.
	var early []*client.Client
	for range c.Errs {
		select {
		case <-s.Errs():
			o.Class("errors-taken")
		case cl := <-s.Clients():
			// Its descriptor was reserved before.
			early = append(early, cl)
		case <-w.done:
			o.Failf("transient", "the accept loop ended when it failed once")
		case <-time.After(200 * time.Millisecond):
		}
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	if o.Bad() || o.Harness != "" {
		return
	}
	for _, fd := range fds {
		lsa, err := syscall.Getsockname(fd)
		f := os.NewFile(uintptr(fd), "conn")
		nc, err2 := net.FileConn(f)
		f.Close()
		if err != nil || err2 != nil {
			o.Harness = fmt.Sprint(err, err2)
			return
		}
		in := lsa.(*syscall.SockaddrInet4)
		k := &srvConn{Conn: nc, addr: (&net.TCPAddr{IP: in.Addr[:], Port: in.Port}).String()}
		w.conns = append(w.conns, k)
		w.byAddr[k.addr] = k
	}
	for _, cl := range early {
		w.got(cl)
	}
	// Connections made from now on get their clients; those made before may.
	w.dial(c.After)
	fresh := w.conns[len(w.conns)-c.After:]
	got := func() (n int) {
		for _, k := range fresh {
			if k.cl != nil {
				n++
			}
		}
		return
	}
	for n := 0; got() < c.After && !o.Bad(); {
		select {
		case cl := <-s.Clients():
			w.got(cl)
		case <-s.Errs():
			if n++; n > 50 {
				o.Failf("transient", "errors go on after the cause has gone")
			}
		case <-w.done:
			o.Failf("transient", "the accept loop ended after it had failed for a while")
		}
	}
	if o.Bad() {
		return
	}
	w.closeServer()
	w.settle()
	for i, k := range w.taken {
		w.talk(k, P{20, uint32(i)})
	}
}

// Patience: clients are taken long after they connected. All servers of a case
// wait at the same time.
type Patience struct {
	Cases   []SrvCase `json:"cases"`
	Seconds int       `json:"seconds"`
}

func patienceCases(tier string) []Patience {
	p := Patience{Seconds: 33}
	if tier == "thorough" {
		p.Seconds = 130
	}
	for n := 1; n <= 4; n++ {
		for taken := 0; taken < n; taken++ {
			for takers := 1; takers <= 2; takers++ {
				c := SrvCase{Top: n%2 == 0, Takers: takers, Ops: []SrvOp{{Op: "accept"}, {Op: "dial", N: n}}}
				if taken > 0 {
					c.Ops = append(c.Ops, SrvOp{Op: "take", N: taken})
				}
				c.Ops = append(c.Ops, SrvOp{Op: "wait", N: p.Seconds}, SrvOp{Op: "dial", N: 1})
				p.Cases = append(p.Cases, c)
			}
		}
	}
	return []Patience{p}
}

// crowdCases: many connections to one server, a hundred at a time outstanding or
// one after the other.
func crowdCases(tier string) (out []SrvCase) {
	total := 400
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l)
	if tier == "thorough" && l.Max >= 10000 {
		total = 2000
	}
	for _, at := range []int{1, 30, 100} {
		for _, takers := range []int{1, 3} {
			c := SrvCase{Top: takers == 3, Takers: takers, Ops: []SrvOp{{Op: "accept"}}}
			if l.Max < 2000 {
				total = 100
			}
			for n := 0; n < total; n += at {
				c.Ops = append(c.Ops, SrvOp{Op: "dial", N: at}, SrvOp{Op: "take", N: at})
				if n/at%7 == 3 {
					c.Ops = append(c.Ops, SrvOp{Op: "session", I: n})
				}
			}
			out = append(out, c)
		}
	}
	return
}

// genServers: the histories of several servers at the same time.
func genServers(t *rapid.T) Patience {
	p := Patience{}
	for range genInt(t, "servers", 2, 3) {
		p.Cases = append(p.Cases, genSrv(t))
	}
	return p
}

func runPatience(o *O, p Patience) {
	obs := make([]*O, len(p.Cases))
	var wg sync.WaitGroup
	for i, c := range p.Cases {
		obs[i] = new(O)
		wg.Add(1)
		go func() {
			defer wg.Done()
			runSrv(obs[i], c)
		}()
	}
	wg.Wait()
	o.NT = true
	for _, x := range obs {
		o.Leaks += x.Leaks
		if x.Harness != "" {
			o.Harness = x.Harness
		}
		if x.Bad() {
			o.Failf(x.Fail, "%s", x.Detail)
		}
	}
}

func init() {
	Register(&Prop{ID: "C18",
		Rule: "Random histories of a server on the loopback network: connections made one by one and at the same time, clients taken by one to three goroutines, data both ways, handshakes with control messages, peers that end or reset their side before or after the client is taken, the server closed at any point with clients outstanding (every connection that it had accepted by then, as the kernel's table of connections tells, has to come out as a client), several servers at the same time, connections to the closed server; connections closed by the client's owner after sending; addresses that can and cannot be bound, and who can connect to them, compared with package net; file descriptors running out for a while. Non-trivial: at least two connections, or any bind or descriptor case; distinct by content.",
		Subs: []*Sub{
			Enum("bind", bindCases, runBind),
			Enum("reach", reachCases, runReach),
			Enum("crowd", crowdCases, runSrv),
			Enum("patience", patienceCases, runPatience),
			Rand("history", 20000, genSrv, runSrv),
			Rand("servers", 4000, genServers, runPatience),
			Rand("no-descriptors", 2000, genNoFiles, runNoFiles),
		}})
}
