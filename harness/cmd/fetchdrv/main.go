// fetchdrv lets the code under test fetch metadata from scripted peers over loopback TCP.
// stdin: JSON list of scenarios, argument: file for the traces.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/val"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
)

type M = map[string]interface{}

// Msg is one message of the peer.
type Msg struct {
	M     string `json:"m"`     // hs ka bep3 xo xh pc rj rq raw claim
	I     int    `json:"i"`     // piece, from 0
	N     int    `json:"n"`     // payload length, or claimed length
	Type  int    `json:"type"`  // bep3 message type, or extension id
	Mode  string `json:"mode"`  // deviation
	Big   string `json:"big"`   // size claimed, as decimal text
	Id    int    `json:"id"`    // ut_metadata id announced
	Hex   string `json:"hex"`   // raw
	Extra bool   `json:"extra"` // more keys in the dictionary
}

type Step struct {
	Op    string `json:"op"` // send await sleep close rst halfclose endless wait
	Msgs  []Msg  `json:"msgs"`
	N     int    `json:"n"`
	Us    int    `json:"us"`
	Seg   string `json:"seg"`
	After bool   `json:"after"`
}

type Scenario struct {
	Size   int    `json:"size"`
	Seed   uint64 `json:"seed"`
	Steps  []Step `json:"steps"`
	NoRead bool   `json:"noread"`
	Kind   string `json:"kind"` // "", refused, backlog
	Claim  bool   `json:"claim"`
	Par    int    `json:"par"` // scenarios with the same Par > 0 run together
	Hash   string `json:"hash"`
	V6     bool   `json:"v6"`
	Real   bool   `json:"real"` // metadata is a bencoded info dictionary
}

var last atomic.Int64

// pauses of the heartbeat: how much the machine kept this process waiting
var stalls struct {
	sync.Mutex
	at  []time.Time
	dur []time.Duration
}

func stalled(since time.Time) int {
	stalls.Lock()
	defer stalls.Unlock()
	m := time.Duration(0)
	for i := len(stalls.at) - 1; i >= 0 && stalls.at[i].After(since); i-- {
		m = max(m, stalls.dur[i])
	}
	return int(m / time.Millisecond)
}

func check(err error) {
	if err != nil {
		panic("verifharness: " + err.Error())
	}
}

func metadata(sc Scenario) []byte {
	r := rand.New(rand.NewPCG(sc.Seed, 7))
	b := make([]byte, sc.Size)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	if sc.Real && sc.Size > 40 {
		copy(b, "d4:name4:test12:piece lengthi16384e6:pieces")
		b[len(b)-1] = 'e'
	}
	return b
}

const piece = 16384

type fetch struct {
	id    int
	sc    Scenario
	meta  []byte
	mu    sync.Mutex
	ev    []M
	reqs  int
	hs    bool
	gone  chan struct{} // the client's side of the connection ended
	id1   int           // the client's id for metadata messages
	w     *bufio.Writer
	conn  net.Conn
	start time.Time
}

func (f *fetch) log(m M) {
	f.mu.Lock()
	f.ev = append(f.ev, m)
	f.mu.Unlock()
}

func frame(b []byte) []byte {
	r := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(r, uint32(len(b)))
	return append(r, b...)
}

func ext(id int, d val.D, data []byte) []byte {
	return frame(append(append([]byte{20, byte(id)}, val.Enc(d)...), data...))
}

// bytes of a message, and its description
func (f *fetch) render(m Msg, rnd *rand.Rand) ([]byte, M) {
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(rnd.IntN(256))
		}
		return b
	}
	hash := sha1.Sum(f.meta)
	np := (len(f.meta) + piece - 1) / piece
	bad := M{"e": "p", "m": "bad"}
	switch m.M {
	case "hs":
		b := []byte{19}
		b = append(b, "BitTorrent protocol"...)
		b = append(b, 0, 0, 0, 0, 0, 0x10, 0, 0)
		if m.Extra {
			b[25] |= 0x81
			b[27] |= 5
		}
		b = append(b, hash[:]...)
		b = append(b, junk(20)...)
		switch m.Mode {
		case "":
			return b, M{"e": "p", "m": "hs"}
		case "proto":
			b[5] = 'X'
		case "len0":
			b[0] = 0
		case "len255":
			b[0] = 255
		case "len20":
			b[0] = 20
		case "len48":
			b[0] = 48
		case "noext":
			b[25] = 0
		case "short":
			b = b[:rnd.IntN(len(b))]
		case "hash":
			copy(b[28:], junk(20))
		}
		return b, bad
	case "ka":
		return []byte{0, 0, 0, 0}, M{"e": "p", "m": "ka"}
	case "bep3":
		b := frame(append([]byte{byte(m.Type)}, junk(m.N)...))
		if m.N+1 > 32*1024 {
			return b, bad
		}
		return b, M{"e": "p", "m": "other"}
	case "xo": // a message of another extension
		return frame(append([]byte{20, byte(m.Type)}, junk(m.N)...)), M{"e": "p", "m": "other"}
	case "xh":
		mm := val.D{"ut_metadata": m.Id}
		d := val.D{"m": mm, "metadata_size": len(f.meta)}
		if m.Extra {
			mm["ut_pex"], mm["lt_donthave"] = 2, 7
			for i := rnd.IntN(3) * rnd.IntN(30); i > 0; i-- {
				mm[fmt.Sprintf("x_%d", i)] = 1 + rnd.IntN(255)
			}
			if rnd.IntN(3) == 0 {
				mm["off"], mm[""] = 0, 3
				d["a"], d["ipv6"], d["metadata"], d["z"] = val.L{val.D{"m": 1}, 5}, strings.Repeat("6", 16), val.D{"ut_metadata": 77}, strings.Repeat("z", rnd.IntN(2000))
			}
			d["v"], d["reqq"], d["p"], d["yourip"], d["upload_only"] = "\xc2\xb5Torrent 3.5.5", 255, 6881, "\x7f\x00\x00\x01", 1
		}
		ok := M{"e": "p", "m": "xh", "id": m.Id}
		if m.Id < 1 || m.Id > 255 {
			ok = bad
		}
		switch m.Mode {
		case "":
			return ext(0, d, nil), ok
		case "update": // later handshakes need not repeat everything
			delete(d, "metadata_size")
			delete(mm, "ut_metadata")
			if rnd.IntN(3) == 0 {
				delete(d, "m")
			}
			return ext(0, d, nil), M{"e": "p", "m": "xu"}
		case "nosize":
			delete(d, "metadata_size")
		case "size":
			return frame([]byte("\x14\x00d1:md11:ut_metadatai" + fmt.Sprint(m.Id) + "ee13:metadata_sizei" + m.Big + "ee")), bad
		case "strsize":
			d["metadata_size"] = "1000"
		case "nom":
			delete(d, "m")
		case "mlist":
			d["m"] = val.L{1}
		case "noid":
			delete(mm, "ut_metadata")
		case "strid":
			mm["ut_metadata"] = "1"
		case "trunc":
			b := ext(0, d, nil)
			return frame(b[4 : 4+2+rnd.IntN(len(b)-6)]), bad
		case "junk":
			return frame(append([]byte{20, 0}, junk(1+rnd.IntN(60))...)), bad
		case "deep":
			return frame([]byte("\x14\x00d1:m" + strings.Repeat("l", 20000))), bad
		case "empty":
			return frame([]byte{20, 0}), bad
		case "bare":
			return frame([]byte{20}), bad
		}
		return ext(0, d, nil), bad
	case "pc":
		d := val.D{"msg_type": 1, "piece": m.I, "total_size": len(f.meta)}
		lo := m.I * piece
		if lo < 0 || lo > len(f.meta) {
			lo = len(f.meta)
		}
		hi := min(lo+piece, len(f.meta))
		data := append([]byte{}, f.meta[lo:hi]...)
		if m.Extra {
			d["x"] = "y"
			if rnd.IntN(3) == 0 {
				d["a"], d["q"], d["users"] = val.L{1, val.D{"piece": 99}}, -1, val.D{"msg_type": 2}
			}
		}
		switch m.Mode {
		case "":
			if m.I < 0 || m.I >= np {
				return ext(1, d, data), bad
			}
			return ext(1, d, data), M{"e": "p", "m": "pc", "i": m.I}
		case "bad":
			if len(data) > 0 {
				data[rnd.IntN(len(data))] ^= byte(1 + rnd.IntN(255))
			}
		case "short":
			data = data[:len(data)-min(len(data), 1+rnd.IntN(40))]
		case "long":
			data = append(data, junk(1+rnd.IntN(40))...)
		case "empty":
			data = nil
		case "total":
			d["total_size"] = len(f.meta) + 1 + rnd.IntN(99999)
		case "nopiece":
			delete(d, "piece")
		case "strpiece":
			d["piece"] = "0"
		case "bigpiece":
			return frame([]byte("\x14\x01d8:msg_typei1e5:piecei" + m.Big + "e10:total_sizei5ee" + string(data))), bad
		case "notype":
			delete(d, "msg_type")
		case "type":
			d["msg_type"] = m.Type
		case "junk":
			return frame(append([]byte{20, 1}, junk(1+rnd.IntN(60))...)), bad
		case "empty0":
			return frame([]byte{20, 1}), bad
		case "wrongid":
			return ext(m.Type, d, data), bad
		case "shift": // the data of another piece
			k := rnd.IntN(max(1, np)) * piece
			data = append([]byte{}, f.meta[k:min(k+piece, len(f.meta))]...)
		case "cut": // all of the rest in one
			data = append([]byte{}, f.meta[lo:min(lo+30000, len(f.meta))]...)
		}
		return ext(1, d, data), bad
	case "rj":
		return ext(1, val.D{"msg_type": 2, "piece": m.I}, nil), bad
	case "rq": // the peer would like metadata, too
		return ext(1, val.D{"msg_type": 0, "piece": m.I}, nil), M{"e": "p", "m": "other"}
	case "claim": // a length that is not (yet) there
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(m.N))
		return append(b, junk(m.I)...), bad
	case "raw":
		b, err := hex.DecodeString(m.Hex)
		check(err)
		return b, bad
	}
	panic("verifharness: message " + m.M)
}

// write sends bytes in the segments asked for; a client that went away is no error
func (f *fetch) write(b []byte, seg string, rnd *rand.Rand) {
	switch seg {
	case "bytes":
		if len(b) > 3000 { // the beginning and the end byte by byte
			f.write(b[:1500], seg, rnd)
			f.write(b[1500:len(b)-1500], "rand", rnd)
			f.write(b[len(b)-1500:], seg, rnd)
			return
		}
		for i := range b {
			f.conn.Write(b[i : i+1])
		}
	case "rand":
		for len(b) > 0 {
			n := 1 + rnd.IntN(min(len(b), 9000))
			f.conn.Write(b[:n])
			b = b[n:]
			if rnd.IntN(6) == 0 {
				time.Sleep(time.Duration(rnd.IntN(300)) * time.Microsecond)
			}
		}
	default:
		f.conn.Write(b)
	}
}

// client reads what the client sends
func (f *fetch) client() {
	defer close(f.gone)
	r := bufio.NewReader(f.conn)
	h := make([]byte, 68)
	if _, err := io.ReadFull(r, h); err != nil {
		f.log(M{"e": "c", "m": "eof"})
		return
	}
	want, _ := hex.DecodeString(f.sc.Hash)
	if f.sc.Hash == "" {
		s := sha1.Sum(f.meta)
		want = s[:]
	}
	ok := h[0] == 19 && string(h[1:20]) == "BitTorrent protocol" && h[25]&0x10 != 0 && bytes.Equal(h[28:48], want) && bytes.Equal(h[48:], peerwire.LocalPeerId)
	f.log(M{"e": "c", "m": "hs", "ok": ok})
	f.mu.Lock()
	f.hs = true
	f.mu.Unlock()
	for {
		p := make([]byte, 4)
		if _, err := io.ReadFull(r, p); err != nil {
			break
		}
		n := binary.BigEndian.Uint32(p)
		if n > 1<<20 {
			f.log(M{"e": "c", "m": "junk"})
			break
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			break
		}
		e := M{"e": "c", "m": "other"}
		if n >= 2 && b[0] == 20 {
			x, _, err := val.Dec(string(b[2:]))
			d, is := x.(val.D)
			if err != nil || !is {
				e = M{"e": "c", "m": "junk"}
			} else if b[1] == 0 {
				m, _ := d["m"].(val.D)
				k, _ := m["ut_metadata"].(int)
				e = M{"e": "c", "m": "xh", "id": k}
			} else if t, is := d["msg_type"].(int); is && t == 0 {
				k, is := d["piece"].(int)
				if !is {
					k = -1
				}
				e = M{"e": "c", "m": "req", "id": int(b[1]), "i": k}
			}
		}
		f.mu.Lock()
		f.ev = append(f.ev, e)
		if e["m"] == "req" {
			f.reqs++
		}
		f.mu.Unlock()
	}
	f.log(M{"e": "c", "m": "eof"})
}

func (f *fetch) peer(l net.Listener, returned chan struct{}) {
	c, err := l.Accept()
	if err != nil {
		return
	}
	f.mu.Lock()
	f.conn = c
	f.gone = make(chan struct{})
	f.mu.Unlock()
	rnd := rand.New(rand.NewPCG(f.sc.Seed, 99))
	if f.sc.NoRead {
		c.(*net.TCPConn).SetReadBuffer(2048)
	} else {
		go f.client()
	}
	for _, s := range f.sc.Steps {
		switch s.Op {
		case "send":
			var all []byte
			for _, m := range s.Msgs {
				b, e := f.render(m, rnd)
				f.log(e)
				if s.Seg == "one" || s.Seg == "" && len(all) < 100000 {
					f.write(b, "", rnd)
					continue
				}
				all = append(all, b...)
			}
			f.write(all, s.Seg, rnd)
		case "hello": // wait for the client's handshake
			f.until(func() bool { return f.hs })
		case "await":
			f.until(func() bool { return f.reqs >= s.N })
		case "sleep":
			time.Sleep(time.Duration(s.Us) * time.Microsecond)
		case "close":
			f.log(M{"e": "p", "m": "bad"})
			c.Close()
		case "halfclose":
			f.log(M{"e": "p", "m": "bad"})
			c.(*net.TCPConn).CloseWrite()
		case "rst":
			f.log(M{"e": "p", "m": "bad"})
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		case "endless":
			f.log(M{"e": "p", "m": "bad"})
			var b []byte
			for _, m := range s.Msgs {
				x, _ := f.render(m, rnd)
				b = append(b, x...)
			}
			for end := false; !end; {
				select {
				case <-returned:
					end = true
				default:
					c.SetWriteDeadline(time.Now().Add(time.Second))
					if s.N > 0 { // drip
						for i := 0; i < len(b) && !end; i += s.N {
							c.Write(b[i:min(len(b), i+s.N)])
							time.Sleep(time.Duration(s.Us) * time.Microsecond)
							select {
							case <-returned:
								end = true
							default:
							}
						}
					} else {
						c.Write(b)
						time.Sleep(time.Duration(s.Us) * time.Microsecond)
					}
				}
			}
		}
	}
}

func (f *fetch) until(ok func() bool) {
	for i := 0; i < 6000; i++ {
		f.mu.Lock()
		k := ok()
		f.mu.Unlock()
		if k {
			return
		}
		select {
		case <-f.gone:
			return
		default:
		}
		time.Sleep(time.Duration(min(50*i+20, 500)) * time.Microsecond)
	}
}

func backlog() (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	check(err)
	check(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	check(syscall.Listen(fd, 0))
	a, err := syscall.Getsockname(fd)
	check(err)
	addr := fmt.Sprintf("127.0.0.1:%d", a.(*syscall.SockaddrInet4).Port)
	cs := []net.Conn{}
	for i := 0; i < 4; i++ {
		c, err := net.DialTimeout("tcp", addr, 200*time.Millisecond)
		if err == nil {
			cs = append(cs, c)
		}
	}
	return addr, func() {
		for _, c := range cs {
			c.Close()
		}
		syscall.Close(fd)
	}
}

const patience = 30 * time.Second

// run performs one fetch
func run(id int, sc Scenario) M {
	f := &fetch{id: id, sc: sc, meta: metadata(sc)}
	s := sha1.Sum(f.meta)
	hash := s[:]
	if sc.Hash != "" {
		hash, _ = hex.DecodeString(sc.Hash)
	}
	laddr := ""
	returned, peerDone := make(chan struct{}), make(chan struct{})
	switch sc.Kind {
	case "refused":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		check(err)
		laddr = l.Addr().String()
		l.Close()
		close(peerDone)
	case "backlog":
		var done func()
		laddr, done = backlog()
		defer done()
		close(peerDone)
	case "badaddr":
		laddr = []string{"", "127.0.0.1", "127.0.0.1:99999", ":::1", "127.0.0.1:-1"}[id%5]
		close(peerDone)
	default:
		at := "127.0.0.1:0"
		if sc.V6 {
			at = "[::1]:0"
		}
		l, err := net.Listen("tcp", at)
		check(err)
		defer l.Close()
		laddr = l.Addr().String()
		go func() {
			defer close(peerDone)
			f.peer(l, returned)
		}()
	}
	var before, after runtime.MemStats
	if sc.Claim {
		runtime.GC()
		runtime.ReadMemStats(&before)
	}
	type result struct {
		data []byte
		err  error
	}
	res := make(chan result, 1)
	f.start = time.Now()
	go func() {
		d, err := peerwire.FetchMetaData(laddr, peerwire.LocalPeerId, append([]byte{}, hash...))
		res <- result{d, err}
	}()
	ret := M{"e": "ret", "ok": false, "sha": false, "same": false, "nodata": true, "ms": int(patience / time.Millisecond), "closed": false, "alloc": 0}
	select {
	case r := <-res:
		ms := int(time.Since(f.start) / time.Millisecond)
		if sc.Claim {
			runtime.ReadMemStats(&after)
			ret["alloc"] = int((after.TotalAlloc - before.TotalAlloc) >> 10)
		}
		close(returned)
		got := sha1.Sum(r.data)
		held := append([]byte{}, r.data...)
		ret["ok"], ret["ms"], ret["nodata"] = r.err == nil, ms, len(r.data) == 0
		select {
		case <-peerDone:
		case <-time.After(5 * time.Second):
		}
		ret["closed"] = f.closedByClient()
		// the bytes returned are the caller's
		ret["sha"] = bytes.Equal(got[:], hash) && bytes.Equal(held, r.data)
		ret["same"] = bytes.Equal(r.data, f.meta)
	case <-time.After(patience):
		close(returned)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.conn != nil {
		f.conn.Close()
	}
	ev := []M{}
	for _, e := range f.ev {
		if len(ev) < 4000 {
			ev = append(ev, e)
		}
	}
	np := (len(f.meta) + piece - 1) / piece
	return M{"cfg": M{"scenario": id, "pieces": np, "claim": sc.Claim, "stall": stalled(f.start)}, "ev": append(ev, ret)}
}

// closedByClient: the client's end is gone
func (f *fetch) closedByClient() bool {
	f.mu.Lock()
	c := f.conn
	f.mu.Unlock()
	if c == nil {
		return true
	}
	if f.sc.NoRead {
		f.conn.SetReadDeadline(time.Now().Add(3 * time.Second))
		_, err := io.Copy(io.Discard, f.conn)
		ne, is := err.(net.Error)
		return !(is && ne.Timeout())
	}
	select {
	case <-f.gone:
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}

func main() {
	if os.Getenv("FETCH_AS") != "" {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
	var sc []Scenario
	check(json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&sc))
	last.Store(time.Now().UnixNano())
	go func() {
		for t := time.Now(); ; {
			time.Sleep(5 * time.Millisecond)
			n := time.Now()
			if d := n.Sub(t) - 5*time.Millisecond; d > 20*time.Millisecond {
				stalls.Lock()
				stalls.at, stalls.dur = append(stalls.at, n), append(stalls.dur, d)
				stalls.Unlock()
			}
			t = n
		}
	}()
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Now().UnixNano()-last.Load() > int64(100*time.Second) {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "HANG no progress\n\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()
	// a connection that nobody closes may not be closed by the garbage collector before it is noticed
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(5 << 30)
	var traces []M
	for i := 0; i < len(sc); {
		runtime.GC()
		last.Store(time.Now().UnixNano())
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		j := i + 1
		for j < len(sc) && sc[i].Par > 0 && sc[j].Par == sc[i].Par {
			j++
		}
		out := make([]M, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out[k-i] = run(k, sc[k])
			}()
		}
		wg.Wait()
		traces = append(traces, out...)
		i = j
	}
	sort.SliceStable(traces, func(i, j int) bool {
		return traces[i]["cfg"].(M)["scenario"].(int) < traces[j]["cfg"].(M)["scenario"].(int)
	})
	b, err := json.Marshal(traces)
	check(err)
	check(os.WriteFile(os.Args[len(os.Args)-1], b, 0o644))
}
