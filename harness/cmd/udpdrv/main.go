// udpdrv drives the UDP endpoint of the code under test over loopback.
// stdin: JSON list of scenarios, argument: file for the traces.
package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
)

type M = map[string]interface{}

type Op struct {
	Op   string `json:"op"`
	From int    `json:"from"`
	Size int    `json:"size"`
	N    int    `json:"n"`
	To   string `json:"to"`
	Host bool   `json:"host"`
}

type Scenario struct {
	Kind    string `json:"kind"` // serial, conc
	Ops     []Op   `json:"ops"`
	Senders int    `json:"senders"`
	Each    int    `json:"each"`
	Size    int    `json:"size"`
	Outs    int    `json:"outs"`
	Closers int    `json:"closers"`
	CloseAt int    `json:"close_at"` // microseconds
	Slow    int    `json:"slow"`     // the consumer's pause, microseconds
	Late    int    `json:"late"`     // the consumer starts after this many milliseconds
}

var (
	traces []M
	last   atomic.Int64
	late   atomic.Int64
	salt   atomic.Int64
)

func check(err error) {
	if err != nil {
		panic("verifharness: " + err.Error())
	}
}

func dig(b []byte) string {
	if len(b) <= 20 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%d:%x", len(b), sha1.Sum(b))
}

// payload: distinct contents, except that the shortest cannot all be
func payload(n int) []byte {
	b := make([]byte, n)
	s := fmt.Sprintf("%d|", salt.Add(1))
	for i := range b {
		b[i] = byte(rand.IntN(256))
	}
	if n >= len(s) {
		copy(b, s)
	}
	return b
}

type peer struct {
	c    *net.UDPConn
	name string
}

func newPeer(ip string) *peer {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip)})
	check(err)
	c.SetReadBuffer(1 << 21)
	return &peer{c, c.LocalAddr().String()}
}

func (p *peer) recv(d time.Duration) ([]byte, *net.UDPAddr, bool) {
	b := make([]byte, 70000)
	p.c.SetReadDeadline(time.Now().Add(d))
	n, a, err := p.c.ReadFromUDP(b)
	return b[:max(n, 0)], a, err == nil
}

type run struct {
	mu    sync.Mutex
	ev    []M
	s     *krpc.UdpServer
	addr  *net.UDPAddr
	peers []*peer
	held  []*krpc.RecvPacket
	big   map[string][][]byte // too large datagrams by sender
	whole int                 // packets taken that aren't a piece of a too large one
	sent  atomic.Int64
}

// room waits until the socket's receive buffer has room again (but not for ever: the endpoint need not read), so
// that it's not the kernel that loses a datagram when the reading goroutine has had no turn.
func (r *run) room() {
	if r.sent.Add(1)%12 != 0 {
		return
	}
	want := fmt.Sprintf(":%04X", r.addr.Port)
	for i := 0; i < 3000; i++ {
		full := false
		for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				w := strings.Fields(l)
				if len(w) < 5 || !strings.HasSuffix(w[1], want) || !strings.HasSuffix(w[2], ":0000") {
					continue
				}
				var tx, rx int
				fmt.Sscanf(w[4], "%x:%x", &tx, &rx)
				full = full || rx > 80000
			}
		}
		if !full {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (r *run) log(m M) {
	r.mu.Lock()
	r.ev = append(r.ev, m)
	r.mu.Unlock()
}

func start(peers int) *run {
	r := &run{big: map[string][][]byte{}}
	for i := 0; i < peers; i++ {
		r.peers = append(r.peers, newPeer(fmt.Sprintf("127.0.0.%d", 1+i%5)))
	}
	r.s = krpc.StartUdpServer("127.0.0.1:0")
	check(r.s.SendPacket([]byte("where"), r.peers[0].c.LocalAddr().(*net.UDPAddr)))
	_, a, ok := r.peers[0].recv(5 * time.Second)
	if !ok {
		panic("verifharness: no datagram from the endpoint")
	}
	r.addr = a
	return r
}

func (r *run) in(p *peer, n int) {
	b := payload(n)
	opt := n > 1024
	r.room()
	r.mu.Lock()
	if opt {
		r.big[p.name] = append(r.big[p.name], b)
	}
	r.ev = append(r.ev, M{"e": "in", "from": p.name, "d": dig(b), "opt": opt})
	r.mu.Unlock()
	p.c.WriteToUDP(b, r.addr)
}

func (r *run) took(p *krpc.RecvPacket) {
	from := "nil"
	if p.Addr != nil {
		from = p.Addr.String()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	short := false
	for _, b := range r.big[from] {
		if len(p.Bytes) < len(b) && string(b[:len(p.Bytes)]) == string(p.Bytes) {
			short = true
		}
	}
	if !short {
		r.whole++
	}
	r.held = append(r.held, p)
	r.ev = append(r.ev, M{"e": "take", "from": from, "d": dig(p.Bytes), "short": short})
}

// take waits for one packet; without any it says so
func (r *run) take(d time.Duration) bool {
	select {
	case p, ok := <-r.s.RecvChan():
		if ok && p != nil {
			r.took(p)
			return true
		}
	case <-time.After(d):
	}
	return false
}

// drain takes all there is: `want' packets are waited for, later ones only shortly
func (r *run) drain(want int) {
	for {
		d := 4 * time.Millisecond
		if r.whole < want {
			d = 3 * time.Second
		}
		if !r.take(d) {
			if r.whole < want {
				late.Add(1)
			}
			break
		}
	}
	r.log(M{"e": "empty"})
}

func (r *run) recheck() {
	for i, p := range r.held {
		from := "nil"
		if p.Addr != nil {
			from = p.Addr.String()
		}
		r.log(M{"e": "held", "i": i + 1, "d": dig(p.Bytes), "from": from})
	}
}

func (r *run) out(to string, n int, host bool) {
	b := payload(n)
	d := dig(b)
	var err error
	can := n <= 65507
	var addr *net.UDPAddr
	h := ""
	switch to {
	case "v6":
		addr, h, can = &net.UDPAddr{IP: net.ParseIP("2001:db8::1"), Port: 4}, "[2001:db8::1]:4", false
	case "port0":
		addr, h, can = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, "127.0.0.1:0", false
	case "noport":
		h, host, can = "127.0.0.1", true, false
	case "bigport":
		h, host, can = "127.0.0.1:99999", true, false
	case "colons":
		h, host, can = "1:2:3", true, false
	default:
		var i int
		fmt.Sscanf(to, "p%d", &i)
		p := r.peers[i%len(r.peers)]
		to, h, addr = p.name, p.name, p.c.LocalAddr().(*net.UDPAddr)
	}
	after := r.isClosed()
	if host {
		err = r.s.SendPacketToHost(b, h)
	} else {
		err = r.s.SendPacket(b, addr)
	}
	for i := range b { // the caller's buffer is its own again
		b[i] ^= 0x55
	}
	r.log(M{"e": "out", "to": to, "d": d, "ok": err == nil, "can": can, "after": after})
}

// isClosed: every close call has returned
func (r *run) isClosed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.ev {
		if e["e"] == "closed" {
			return true
		}
	}
	return false
}

func (r *run) arrivals(want int) {
	k := 0
	for _, e := range r.ev {
		if e["e"] == "arrive" {
			k++
		}
	}
	for _, p := range r.peers {
		for {
			d := time.Millisecond
			if k < want {
				d = 50 * time.Millisecond
			}
			b, a, ok := p.recv(d)
			if !ok {
				break
			}
			k++
			r.log(M{"e": "arrive", "at": p.name, "from": a.Port == r.addr.Port && a.IP.Equal(r.addr.IP), "d": dig(b)})
		}
	}
	if k < want { // a slow one?
		for _, p := range r.peers {
			for k < want {
				b, a, ok := p.recv(time.Second)
				if !ok {
					break
				}
				k++
				r.log(M{"e": "arrive", "at": p.name, "from": a.Port == r.addr.Port && a.IP.Equal(r.addr.IP), "d": dig(b)})
			}
		}
	}
	r.log(M{"e": "quiet"})
}

func (r *run) oks() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := 0
	for _, e := range r.ev {
		if e["e"] == "out" && e["ok"] == true {
			k++
		}
	}
	return k
}

func (r *run) close(n int) {
	r.log(M{"e": "closing"})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					r.log(M{"e": "harm", "what": fmt.Sprint(x)})
				}
			}()
			r.s.Close()
		}()
	}
	wg.Wait()
	r.log(M{"e": "closed"})
}

func (r *run) rebind() {
	var err error
	for i := 0; i < 2000; i++ {
		var c *net.UDPConn
		if c, err = net.ListenUDP("udp4", r.addr); err == nil {
			c.Close()
			break
		}
		time.Sleep(time.Millisecond)
	}
	r.log(M{"e": "rebind", "ok": err == nil})
	if err != nil {
		late.Add(1)
	}
}

func serial(id int, sc Scenario) {
	r := start(3)
	closed := false
	expect := 0 // packets that must come
	for _, o := range sc.Ops {
		switch o.Op {
		case "in":
			for i := 0; i < max(1, o.N); i++ {
				r.in(r.peers[o.From%3], o.Size)
				if !closed && o.Size <= 1024 {
					expect++
				}
			}
		case "take":
			for i := 0; i < max(1, o.N); i++ {
				if !r.take(3 * time.Second) {
					late.Add(1)
					r.log(M{"e": "empty"})
				}
			}
		case "drain":
			if !closed {
				r.drain(expect)
			} else {
				r.drain(0)
			}
		case "held":
			r.recheck()
		case "out":
			r.out(o.To, o.Size, o.Host)
			r.arrivals(r.oks())
		case "close":
			r.close(max(1, o.N))
			closed = true
		case "rebind":
			r.rebind()
		}
		if late.Load() >= 3 {
			break
		}
	}
	r.recheck()
	r.end(id, true, closed)
}

func (r *run) end(id int, serial, closed bool) {
	if !closed {
		r.close(2)
		r.out("p0", 10, false)
		r.in(r.peers[0], 30)
		r.drain(0)
		r.rebind()
	}
	for _, p := range r.peers {
		p.c.Close()
	}
	traces = append(traces, M{"cfg": M{"scenario": id, "serial": serial}, "ev": r.ev})
}

// concurrent senders, a consumer, sends, and possibly closing in the middle
func conc(id int, sc Scenario) {
	r := start(max(2, sc.Senders))
	var wg sync.WaitGroup
	size := func() int {
		if rand.IntN(4) == 0 {
			return sc.Size
		}
		return 12 + rand.IntN(max(1, sc.Size-11))
	}
	for g := 0; g < sc.Senders; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < sc.Each; i++ {
				r.in(r.peers[g], size())
				if rand.IntN(6) == 0 {
					time.Sleep(time.Duration(rand.IntN(200)) * time.Microsecond)
				}
			}
		}()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < sc.Outs; i++ {
				r.out(fmt.Sprintf("p%d", rand.IntN(len(r.peers))), size(), rand.IntN(3) == 0)
			}
		}()
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		time.Sleep(time.Duration(sc.Late) * time.Millisecond)
		for {
			select {
			case p, ok := <-r.s.RecvChan():
				if !ok || p == nil {
					time.Sleep(time.Millisecond)
					continue
				}
				r.took(p)
				if sc.Slow > 0 {
					time.Sleep(time.Duration(rand.IntN(sc.Slow)) * time.Microsecond)
				}
			case <-stop:
				return
			}
		}
	}()
	if sc.Closers > 0 {
		time.Sleep(time.Duration(sc.CloseAt) * time.Microsecond)
		r.close(sc.Closers)
	}
	wg.Wait()
	want := 0
	if sc.Closers == 0 {
		want = sc.Senders * sc.Each
	}
	for i := 0; i < 3000; i++ {
		r.mu.Lock()
		n := len(r.held)
		r.mu.Unlock()
		if n >= want {
			break
		}
		time.Sleep(time.Millisecond)
		if i == 2999 {
			late.Add(1)
		}
	}
	time.Sleep(2 * time.Millisecond)
	close(stop)
	<-done
	r.drain(0)
	r.arrivals(r.oks())
	r.recheck()
	if sc.Closers > 0 {
		r.out("p0", 10, false)
		r.in(r.peers[0], 30)
		r.drain(0)
		r.close(1)
		r.rebind()
	}
	r.end(id, false, sc.Closers > 0)
}

func main() {
	var sc []Scenario
	check(json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&sc))
	last.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Now().UnixNano()-last.Load() > int64(40*time.Second) {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "HANG no progress\n\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()
	for i, s := range sc {
		last.Store(time.Now().UnixNano())
		if late.Load() >= 3 {
			break
		}
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		if strings.HasPrefix(s.Kind, "serial") {
			serial(i, s)
		} else {
			conc(i, s)
		}
	}
	b, err := json.Marshal(traces)
	check(err)
	check(os.WriteFile(os.Args[len(os.Args)-1], b, 0o644))
}
