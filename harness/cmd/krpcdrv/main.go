// krpcdrv drives the RPC server of the code under test over loopback UDP.
// stdin: JSON list of scenarios, argument: file for the traces.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/val"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Op struct {
	Op             string  `json:"op"`
	Q              int     `json:"q"`
	Tx             []int   `json:"tx"`
	Kind           string  `json:"kind"` // of an answer: r, e, q, junk, nobody, badbody, notx
	N              int     `json:"n"`    // copies
	Burst          int     `json:"burst"`
	Type           string  `json:"type"`
	Args           val.Val `json:"args"`
	To             string  `json:"to"`
	Via            string  `json:"via"`
	Id, Token, Msg []int
	Code           int
	Nodes          []Node
}

type Node struct {
	Id   []int `json:"id"`
	Ip   []int `json:"ip"`
	Port int   `json:"port"`
	Long bool  `json:"long"` // the address in its 16-byte form
}

type Scenario struct {
	Kind    string     `json:"kind"`
	Progs   [][]string `json:"progs"`
	Side    string     `json:"side"`
	Rounds  int        `json:"rounds"`
	Clients int        `json:"clients"`
	Batch   int        `json:"batch"`
	Ops     []Op       `json:"ops"`
	Echo    int        `json:"echo"` // answers given to each query on sight
	Conc    int        `json:"conc"`
	Slow    bool       `json:"slow"`
}

var (
	traces []M
	tlock  sync.Mutex
	last   atomic.Int64
	nonce  atomic.Int64
	late   atomic.Int64 // waits in vain: after a few the run stops, what is recorded shows why
)

func emit(cfg M, ev []M) {
	tlock.Lock()
	traces = append(traces, M{"cfg": cfg, "ev": append([]M{}, ev...)})
	tlock.Unlock()
}

func check(err error) {
	if err != nil {
		panic("verifharness: " + err.Error())
	}
}

// ---------------------------------------------------------------- sockets

type peer struct {
	c    *net.UDPConn
	addr *net.UDPAddr
}

func newPeer() *peer {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	check(err)
	c.SetReadBuffer(1 << 21)
	return &peer{c, c.LocalAddr().(*net.UDPAddr)}
}

func (p *peer) recv(d time.Duration) (string, *net.UDPAddr, bool) {
	b := make([]byte, 70000)
	p.c.SetReadDeadline(time.Now().Add(d))
	n, a, err := p.c.ReadFromUDP(b)
	if err != nil {
		return "", nil, false
	}
	return string(b[:n]), a, true
}

type server struct {
	*krpc.RpcServer
	addr *net.UDPAddr
}

// newServer starts a server on a free port and learns which.
func newServer(listen bool) *server {
	s := &server{RpcServer: krpc.NewRpcServer("127.0.0.1:0")}
	p := newPeer()
	defer p.c.Close()
	check(s.Query(p.addr, krpc.NewBaseRequest("probe-port", "ping", misc.Dict{"id": "01234567890123456789"}, func(*krpc.RpcContext) {})))
	_, a, ok := p.recv(5 * time.Second)
	if !ok {
		panic("verifharness: no datagram from the server")
	}
	s.addr = a
	if listen {
		go s.Listen()
	}
	return s
}

var zid = "abcdefghij0123456789"

// barrier: with one worker everything that arrived before has been handled when this is answered
func (s *server) barrier(p *peer) bool {
	tx := fmt.Sprint("barrier", nonce.Add(1))
	p.c.WriteToUDP([]byte(val.Enc(val.D{"t": tx, "y": "q", "q": "find_node", "a": val.D{"id": zid, "target": zid}})), s.addr)
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); {
		m, _, ok := p.recv(time.Until(end))
		if ok && strings.Contains(m, tx) {
			return true
		}
	}
	return false
}

// lost tells whether the kernel dropped datagrams sent to the server: more of them at once than its
// socket holds. What was lost so says nothing about the server.
func (s *server) lost() bool {
	b, err := os.ReadFile("/proc/net/udp")
	if err != nil {
		return false
	}
	port := fmt.Sprintf(":%04X", s.addr.Port)
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) > 12 && strings.HasSuffix(f[1], port) && f[len(f)-1] != "0" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C19

func str(x interface{}) string { s, _ := x.(string); return s }

func middleware(id int, sc Scenario) {
	n := len(sc.Progs)
	s := newServer(false)
	defer s.Close()
	var mu sync.Mutex
	logs := map[string][]M{}
	ends := map[string]int{}
	see := func(c *krpc.RpcContext, e string, i int) {
		r := "none"
		if c.Response() != nil {
			r = str(c.Response().Body()["v"])
			if c.Response().Error() {
				r = fmt.Sprint(c.Response().Body()["code"], " ", str(c.Response().Body()["msg"]))
			}
		}
		a := "nil"
		if c.RemoteAddr() != nil {
			a = c.RemoteAddr().String()
		}
		tx := c.Request().TxId()
		mu.Lock()
		logs[tx] = append(logs[tx], M{"e": e, "i": i, "req": tx + "/" + c.Request().Type() + "/" + str(c.Request().Body()["v"]), "addr": a, "resp": r})
		if e == "leave" {
			ends[tx]++
		}
		mu.Unlock()
	}
	fs := []krpc.RpcHandlerFunc{}
	for i := 1; i <= n; i++ {
		fs = append(fs, func(c *krpc.RpcContext) {
			see(c, "enter", i)
			for k, o := range sc.Progs[i-1] {
				if sc.Slow && rand.IntN(3) == 0 {
					time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
				}
				if o == "N" {
					see(c, "pass", i)
					c.Next()
					see(c, "back", i)
					continue
				}
				tx := c.Request().TxId()
				v := fmt.Sprint(tx, ":", i, ".", k)
				if o == "E" { // an error as the reply
					c.WriteAs(krpc.WithErr(tx, 201+k%4, v))
					v = fmt.Sprint(201+k%4, " ", v)
				} else {
					c.WriteAs(krpc.WithResponse(tx, misc.Dict{"id": zid, "v": v}))
				}
				mu.Lock()
				logs[tx] = append(logs[tx], M{"e": "write", "i": i, "v": v})
				mu.Unlock()
			}
			see(c, "leave", i)
		})
	}
	use := s.UseReqHandlerMiddleware
	if sc.Side == "resp" {
		use = s.UseRespHandlerMiddleware
	}
	for ms := fs[:n-1]; len(ms) > 0; {
		k := max(1, min(sc.Batch, len(ms)))
		use(ms[:k]...)
		ms = ms[k:]
	}
	if sc.Side == "req" {
		s.RegisteHandler("ping", fs[n-1])
		s.RegisteHandler("get_peers", fs[n-1])
	}
	go s.Listen()
	finish := func(tx string, cfg M, extra M) {
		if extra == nil {
			for i := 0; ; i++ {
				mu.Lock()
				k := ends[tx]
				mu.Unlock()
				if k >= n {
					break
				}
				if i > 3000 {
					late.Add(1)
					break
				}
				time.Sleep(time.Millisecond)
			}
			time.Sleep(time.Millisecond)
			extra = M{"e": "none"}
		}
		mu.Lock()
		ev := append(append([]M{}, logs[tx]...), extra)
		mu.Unlock()
		emit(cfg, ev)
	}
	var wg sync.WaitGroup
	for c := 0; c < max(1, sc.Clients); c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := newPeer()
			defer p.c.Close()
			for r := 0; r < max(1, sc.Rounds) && late.Load() < 3; r++ {
				k := nonce.Add(1)
				tx, v := fmt.Sprintf("t%d", k), fmt.Sprintf("v%d", k)
				ty := []string{"ping", "get_peers"}[int(k)%2]
				cfg := M{"scenario": id, "n": n, "req": tx + "/" + ty + "/" + v, "addr": p.addr.String(), "resp": "none"}
				if sc.Side == "req" {
					p.c.WriteToUDP([]byte(val.Enc(val.D{"t": tx, "y": "q", "q": ty, "a": val.D{"id": zid, "v": v}})), s.addr)
					got := "nothing"
					m, _, ok := p.recv(5 * time.Second)
					if !ok {
						late.Add(1)
					}
					if ok {
						x, _, err := val.Dec(m)
						if d, is := x.(val.D); err == nil && is && d["t"] == tx {
							got = fmt.Sprint("unexpected ", d)
							if b, is := d["r"].(val.D); is && d["y"] == "r" {
								got = str(b["v"])
							}
							if b, is := d["e"].(val.L); is && d["y"] == "e" && len(b) == 2 {
								got = fmt.Sprint(b[0], " ", str(b[1]))
							}
						}
					}
					finish(tx, cfg, M{"e": "reply", "v": got})
					continue
				}
				cfg["resp"] = "r" + v
				err := s.Query(p.addr, krpc.NewBaseRequest(tx, ty, misc.Dict{"id": zid, "v": v}, fs[n-1]))
				check(err)
				if _, _, ok := p.recv(5 * time.Second); !ok {
					panic("verifharness: query not received")
				}
				p.c.WriteToUDP([]byte(val.Enc(val.D{"t": tx, "y": "r", "r": val.D{"id": zid, "v": "r" + v}})), s.addr)
				finish(tx, cfg, nil)
			}
		}()
	}
	wg.Wait()
}

// ---------------------------------------------------------------- C03

func canon(d interface{}) string {
	var conv func(x interface{}) interface{}
	conv = func(x interface{}) interface{} {
		switch v := x.(type) {
		case misc.Dict:
			r := val.D{}
			for k, y := range v {
				r[k] = conv(y)
			}
			return r
		case misc.List:
			r := val.L{}
			for _, y := range v {
				r = append(r, conv(y))
			}
			return r
		}
		return x
	}
	return fmt.Sprintf("%x", val.Enc(conv(d)))
}

func responses(id int, sc Scenario) {
	for try := 0; !respond(id, sc, try == 3) && try < 3; try++ {
	}
}

// respond is false when datagrams were lost on the way: it is to be done again, and, the last time,
// what was lost is not expected
func respond(id int, sc Scenario, final bool) bool {
	s := newServer(false)
	defer s.Close()
	s.RegisteHandler("find_node", func(c *krpc.RpcContext) { c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": zid})) })
	go s.Listen()
	var mu sync.Mutex
	ev := []M{}
	log := func(m M) {
		mu.Lock()
		ev = append(ev, m)
		mu.Unlock()
	}
	bp := newPeer()
	defer bp.c.Close()
	query := func(q int, tx string, to *net.UDPAddr) {
		body := misc.Dict{"id": zid, "v": fmt.Sprint("q", q)}
		log(M{"e": "query", "q": q, "tx": tx})
		typ := []string{"ping", "find_node", "get_peers", "announce_peer", "vote", ""}[q%6]
		err := s.Query(to, krpc.NewBaseRequest(tx, typ, body, func(c *krpc.RpcContext) {
			same := c.Request() != nil && c.Request().TxId() == tx && c.Request().Type() == typ && canon(c.Request().Body()) == canon(misc.Dict{"id": zid, "v": fmt.Sprint("q", q)})
			rtx, v, from := "?", "?", "?"
			if c.Response() != nil {
				rtx, v = fmt.Sprintf("%x", c.Response().TxId()), canon(c.Response().Body())
			}
			if c.RemoteAddr() != nil {
				from = c.RemoteAddr().String()
			}
			log(M{"e": "handle", "q": q, "same": same, "tx": rtx, "v": v, "from": from})
		}))
		check(err)
	}
	answer := func(c *peer, tx, kind string) {
		k := int(nonce.Add(1))
		body := val.D{"id": zid, "v": k, "l": val.L{k, "x", val.D{}}}
		// whatever it has beside that
		if k%7 > 2 {
			body["token"] = strings.Repeat("t", k%13)
		}
		if k%5 > 2 {
			body["nodes"] = strings.Repeat("N", 26*(k%4)+k%2)
		}
		if k%11 > 6 {
			body["values"] = val.L{"123456", "1234567"}
		}
		if k%3 == 2 {
			body["ip"], body["p"], body["nodes6"] = "abcd\x01\x02", k, ""
		}
		var m val.D
		switch kind {
		case "r", "":
			kind, m = "r", val.D{"t": tx, "y": "r", "r": body, "v": "extra"}
		case "e":
			m = val.D{"t": tx, "y": "e", "e": val.L{203, "no"}}
		case "ebody":
			m = val.D{"t": tx, "y": "e", "e": val.L{203, "no"}, "r": body}
		case "unknown":
			m = val.D{"t": tx, "y": "x", "r": body}
		case "noy":
			m = val.D{"t": tx, "r": body}
		case "notx":
			m = val.D{"y": "r", "r": body}
		case "inttx":
			m = val.D{"t": 5, "y": "r", "r": body}
		default:
			panic("verifharness: kind " + kind)
		}
		log(M{"e": "answer", "tx": fmt.Sprintf("%x", tx), "kind": kind, "v": fmt.Sprintf("%x", val.Enc(body)), "from": c.addr.String()})
		c.c.WriteToUDP([]byte(val.Enc(m)), s.addr)
	}
	hang := false
	settle := func(want int) {
		if sc.Conc > 0 {
			for i := 0; i < 3000; i++ {
				mu.Lock()
				n := 0
				for _, e := range ev {
					if e["e"] == "handle" {
						n++
					}
				}
				mu.Unlock()
				if n >= want {
					break
				}
				if s.lost() {
					return
				}
				if i == 2999 {
					late.Add(1)
				}
				time.Sleep(time.Millisecond)
			}
			time.Sleep(3 * time.Millisecond)
		}
		hang = !s.barrier(bp)
		if s.lost() {
			hang = false
			return
		}
		if hang {
			late.Add(1)
		}
		log(M{"e": "settled", "ok": !hang})
	}
	tx := func(t []int) string { return val.Str(t) }
	if sc.Conc == 0 {
		p := newPeer()
		defer p.c.Close()
		for _, o := range sc.Ops {
			switch o.Op {
			case "query":
				query(o.Q, tx(o.Tx), p.addr)
				p.recv(2 * time.Second)
			case "fail":
				body, to := misc.Dict{"id": zid, "v": 2.5}, p.addr
				if o.N == 1 {
					body, to = misc.Dict{"id": zid}, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 0}
				}
				if o.N == 2 {
					body, to = misc.Dict{"id": strings.Repeat("x", 70000)}, p.addr
				}
				err := s.Query(to, krpc.NewBaseRequest(tx(o.Tx), "ping", body, func(c *krpc.RpcContext) {
					log(M{"e": "handle", "q": o.Q, "same": true, "tx": fmt.Sprintf("%x", c.Request().TxId()), "v": "", "from": ""})
				}))
				log(M{"e": "fail", "tx": tx(o.Tx), "q": o.Q, "failed": err != nil})
			case "answer":
				for i := 0; i < max(1, o.N); i++ {
					answer(p, tx(o.Tx), o.Kind)
				}
				settle(0)
			}
			if hang {
				break
			}
		}
		for i := range ev { // hex, as elsewhere
			if ev[i]["e"] == "query" || ev[i]["e"] == "fail" {
				ev[i]["tx"] = fmt.Sprintf("%x", ev[i]["tx"])
			}
		}
		emit(M{"scenario": id}, ev)
		return true
	}
	// several goroutines query peers that answer on sight, several times and from several sockets
	var wg sync.WaitGroup
	stop := make(chan struct{})
	peers := []*peer{}
	for i := 0; i < sc.Conc; i++ {
		p, o := newPeer(), newPeer()
		peers = append(peers, p)
		defer p.c.Close()
		defer o.c.Close()
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				m, _, ok := p.recv(300 * time.Millisecond)
				if !ok {
					continue
				}
				x, _, err := val.Dec(m)
				d, is := x.(val.D)
				if err != nil || !is {
					continue
				}
				t := str(d["t"])
				for j := 1; j < sc.Echo; j++ {
					go answer(o, t, "r")
				}
				if sc.Echo > 0 {
					answer(p, t, "r")
				}
			}
		}()
	}
	each := max(1, sc.Rounds)
	for g := 0; g < sc.Conc; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				q := g*each + i
				query(q, fmt.Sprintf("%d/%d", id%10, q), peers[rand.IntN(len(peers))].addr)
				if rand.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	want := 0
	if sc.Echo > 0 {
		want = sc.Conc * each
	}
	settle(want)
	close(stop)
	if s.lost() && !final {
		return false
	}
	mu.Lock()
	for i := range ev {
		if ev[i]["e"] == "query" {
			ev[i]["tx"] = fmt.Sprintf("%x", ev[i]["tx"])
		}
	}
	mu.Unlock()
	emit(M{"scenario": id}, ev)
	return true
}

// ---------------------------------------------------------------- C24

// built is the reply the builders of the code under test make
func built(tx string, o Op) krpc.Response {
	addr := func(n Node) *net.UDPAddr {
		ip := net.IP(val.Str(n.Ip))
		if n.Long {
			ip = net.IPv4(ip[0], ip[1], ip[2], ip[3])
		}
		return &net.UDPAddr{IP: ip, Port: n.Port}
	}
	id, token := val.Str(o.Id), val.Str(o.Token)
	nodes, peers := []*dht.NodeInfo{}, []*net.UDPAddr{}
	for _, n := range o.Nodes {
		nodes = append(nodes, dht.NewNodeInfo(val.Str(n.Id), addr(n)))
		peers = append(peers, addr(n))
	}
	switch o.Via {
	case "ping":
		return dht.WithPingResponse(tx, id)
	case "find_node":
		return dht.WithFindNodeResponse(tx, id, nodes)
	case "values":
		return dht.WithGetPeersValsResponse(tx, id, token, peers)
	case "nodes":
		return dht.WithGetPeersNodesResponse(tx, id, token, nodes)
	case "announce_peer":
		return dht.WithAnnouncePeerResponse(tx, id)
	case "error":
		return krpc.WithErr(tx, o.Code, val.Str(o.Msg))
	case "param":
		return krpc.WithParamErr(tx, val.Str(o.Msg))
	}
	panic("verifharness: reply " + o.Via)
}

// arguments are what a query is given, and how a trace shows them
func arguments(o Op) (args misc.Dict, shown any) {
	if o.Args.T != "" {
		args, _ = val.Build(o.Args).(misc.Dict)
	}
	if o.Via == "" {
		return args, o.Args
	}
	return args, val.Show(args)
}

func request(o Op, args misc.Dict) krpc.Request {
	tx := val.Str(o.Tx)
	g := func(k string) string { return str(args[k]) }
	switch o.Via {
	case "ping":
		return dht.WithPingMsg(tx, g("id"), nil)
	case "find_node":
		return dht.WithFindNodeMsg(tx, g("id"), g("target"), nil)
	case "get_peers":
		return dht.WithGetPeersMsg(tx, g("id"), g("info_hash"), nil)
	case "announce_peer":
		port, _ := args["port"].(int)
		return dht.WithAnnouncePeerMsg(tx, g("id"), g("info_hash"), g("token"), port, nil)
	}
	return krpc.NewBaseRequest(tx, o.Type, args, func(*krpc.RpcContext) {})
}

func sends(id int, sc Scenario) {
	s := newServer(false)
	var now atomic.Pointer[Op]
	for _, m := range []string{"ping", "find_node", "get_peers", "announce_peer"} {
		s.RegisteHandler(m, func(c *krpc.RpcContext) { c.WriteAs(built(c.Request().TxId(), *now.Load())) })
	}
	go s.Listen()
	defer s.Close()
	peers := map[string]*peer{}
	names := []string{"p0", "p1", "p2"}
	for _, n := range names {
		peers[n] = newPeer()
		defer peers[n].c.Close()
	}
	ev := []M{}
	// want: how many datagrams are to come, by peer
	drain := func(want map[string]int) {
		for _, n := range names {
			for k := 0; ; k++ {
				d := time.Millisecond
				if k < want[n] {
					d = 3 * time.Second
				}
				m, a, ok := peers[n].recv(d)
				if !ok {
					if d > time.Millisecond {
						late.Add(1)
					}
					break
				}
				ev = append(ev, M{"e": "dgram", "at": n, "bytes": val.Ints(m), "from": a.Port == s.addr.Port})
			}
		}
	}
	// made before they are sent, some of them
	made := map[int]krpc.Request{}
	build := func(i int, o Op) krpc.Request {
		if r, ok := made[i]; ok {
			return r
		}
		args, _ := arguments(o)
		r := request(o, args)
		made[i] = r
		return r
	}
	for i, o := range sc.Ops {
		if o.Op == "send" && id%2 == 1 {
			build(i, o)
		}
	}
	dest := func(o Op) *net.UDPAddr {
		switch o.To {
		case "p0", "p1", "p2":
			return peers[o.To].addr
		case "v6":
			return &net.UDPAddr{IP: net.ParseIP("2001:db8::1"), Port: 4}
		case "port0":
			return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 0}
		}
		return nil
	}
	done := map[int]bool{}
	for i, o := range sc.Ops {
		if done[i] {
			continue
		}
		if o.Op == "close" {
			s.Close()
			time.Sleep(5 * time.Millisecond)
			ev = append(ev, M{"e": "close"})
			continue
		}
		if o.Op == "reply" {
			tx := val.Str(o.Tx)
			now.Store(&o)
			p := peers["p0"]
			p.c.WriteToUDP([]byte(val.Enc(val.D{"t": tx, "y": "q", "q": o.Type, "a": val.D{"id": zid, "target": zid, "info_hash": zid, "port": 1, "token": ""}})), s.addr)
			m, a, ok := p.recv(3 * time.Second)
			if !ok {
				late.Add(1)
			}
			ns := []M{}
			for _, n := range o.Nodes {
				ns = append(ns, M{"id": n.Id, "at": []int{n.Ip[0], n.Ip[1], n.Ip[2], n.Ip[3], n.Port >> 8, n.Port & 255}})
			}
			ev = append(ev, M{"e": "reply", "tx": o.Tx, "via": o.Via, "id": o.Id, "token": o.Token, "msg": o.Msg, "code": o.Code, "nodes": ns, "bytes": val.Ints(m),
				"from": ok && a.Port == s.addr.Port})
			continue
		}
		// those of one burst are sent at once
		group := []int{i}
		for j := i + 1; o.Burst > 0 && j < len(sc.Ops); j++ {
			if sc.Ops[j].Op == "send" && sc.Ops[j].Burst == o.Burst {
				group = append(group, j)
			}
		}
		for _, j := range group {
			build(j, sc.Ops[j])
			done[j] = true
		}
		errs := make([]error, len(group))
		var wg sync.WaitGroup
		for k, j := range group {
			to, req := dest(sc.Ops[j]), made[j]
			if len(group) == 1 {
				errs[k] = s.Query(to, req)
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[k] = s.Query(to, req)
			}()
		}
		wg.Wait()
		want := map[string]int{}
		for k, j := range group {
			o := sc.Ops[j]
			_, shown := arguments(o)
			ev = append(ev, M{"e": "send", "tx": o.Tx, "type": val.Ints(o.Type), "args": shown, "to": o.To, "via": o.Via, "ok": errs[k] == nil})
			if errs[k] == nil {
				want[o.To]++
			}
		}
		drain(want)
		ev = append(ev, M{"e": "drained"})
	}
	emit(M{"scenario": id}, ev)
}

func main() {
	var sc []Scenario
	check(json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&sc))
	last.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Now().UnixNano()-last.Load() > int64(60*time.Second) {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "HANG no progress\n\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()
	for i, s := range sc {
		last.Store(time.Now().UnixNano())
		if late.Load() >= 3 {
			break
		}
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		switch s.Kind {
		case "mw":
			middleware(i, s)
		case "resp":
			responses(i, s)
		case "send":
			sends(i, s)
		}
	}
	tlock.Lock()
	sort.SliceStable(traces, func(i, j int) bool {
		return traces[i]["cfg"].(M)["scenario"].(int) < traces[j]["cfg"].(M)["scenario"].(int)
	})
	b, err := json.Marshal(traces)
	tlock.Unlock()
	check(err)
	check(os.WriteFile(os.Args[len(os.Args)-1], b, 0o644))
}
