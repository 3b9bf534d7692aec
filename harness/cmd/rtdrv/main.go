// rtdrv steps the real routing table through given operations and records what it answers.
// stdin: JSON list of scenarios, stdout: JSON list of traces (see spec/RouteTable_Trace.tla).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/GalaIO/P2Pcrawler/dht"
)

type Cfg struct {
	Ids   [][]int  `json:"ids"`
	Addrs []string `json:"addrs"`
	Qids  [][]int  `json:"qids"`
	K     int      `json:"k"`
	Cap   int      `json:"cap"`
}

type Op struct {
	Op string `json:"op"`
	N  int    `json:"n"`
	Q  int    `json:"q"`
	K  int    `json:"k"`
}

type Scenario struct {
	Cfg  Cfg    `json:"cfg"`
	Ops  []Op   `json:"ops"`
	Conc [][]Op `json:"conc"`
}

type M = map[string]interface{}

func str(id []int) string {
	b := make([]byte, len(id))
	for i, v := range id {
		b[i] = byte(v)
	}
	return string(b)
}

var made int64

type table struct {
	rt    *dht.RouteTable
	nodes []*dht.NodeInfo // 1-based
	qids  []string
	index map[string]int
	mu    sync.Mutex
	kept  []kept // earlier results, as they were
}

type kept struct {
	nodes []*dht.NodeInfo
	keys  []string
}

// an earlier result still says what it said
func (t *table) same() bool {
	for _, k := range t.kept {
		for i, n := range k.nodes {
			if key(n) != k.keys[i] {
				return false
			}
		}
	}
	return true
}

func key(n *dht.NodeInfo) string {
	if n == nil {
		return ""
	}
	return n.Id + "|" + n.Addr.String()
}

func build(c Cfg) *table {
	t := &table{nodes: []*dht.NodeInfo{nil}, qids: []string{""}, index: map[string]int{}}
	for i, id := range c.Ids {
		a, err := net.ResolveUDPAddr("udp", c.Addrs[i])
		if err != nil {
			panic(err)
		}
		n := dht.NewNodeInfo(str(id), a)
		t.nodes = append(t.nodes, n)
		t.index[key(n)] = i + 1
	}
	for _, q := range c.Qids {
		t.qids = append(t.qids, str(q))
	}
	t.rt = dht.NewRouteTable(t.nodes[1], c.K, c.Cap)
	return t
}

// fresh gives AddNode its own copy, as the crawler does for every response it parses
func (t *table) fresh(n int) *dht.NodeInfo {
	o := t.nodes[n]
	a := *o.Addr
	// the wire gives 4 bytes, the resolver 16: the same address either way
	if v4 := a.IP.To4(); v4 != nil {
		if atomic.AddInt64(&made, 1)%2 == 0 {
			a.IP = append(net.IP{}, v4...)
		} else {
			a.IP = append(net.IP{}, v4.To16()...)
		}
	}
	return dht.NewNodeInfo(o.Id, &a)
}

func (t *table) idx(n *dht.NodeInfo) int {
	if n == nil {
		return 0
	}
	if i, ok := t.index[key(n)]; ok {
		return i
	}
	return -1
}

func (t *table) dump() map[int]bool {
	r := map[int]bool{}
	for i := 1; i < len(t.nodes); i++ {
		if t.nodes[i] == nil {
			continue
		}
		if x := t.idx(t.rt.Find(t.nodes[i].Id)); x > 0 {
			r[x] = true
		}
	}
	for _, id := range []string{t.nodes[1].Id, t.nodes[len(t.nodes)-1].Id} {
		for _, n := range t.rt.FindClosest(id, len(t.nodes)+5) {
			if x := t.idx(n); x > 0 {
				r[x] = true
			}
		}
	}
	return r
}

func list(m map[int]bool) []int {
	r := []int{}
	for i := 1; i < 100000 && len(r) < len(m); i++ {
		if m[i] {
			r = append(r, i)
		}
	}
	return r
}

func (t *table) call(o Op) M {
	switch o.Op {
	case "add":
		err := t.rt.AddNode(t.fresh(o.N))
		return M{"ok": err == nil}
	case "size":
		return M{"size": t.rt.Size()}
	case "find":
		return M{"ret": t.idx(t.rt.Find(t.qids[o.Q]))}
	case "closest":
		ns := t.rt.FindClosest(t.qids[o.Q], o.K)
		keep := kept{nodes: ns}
		for _, n := range ns {
			keep.keys = append(keep.keys, key(n))
		}
		t.mu.Lock()
		t.kept = append(t.kept, keep)
		t.mu.Unlock()
		r := make([]int, len(ns))
		for i, n := range ns {
			r[i] = t.idx(n)
			if n == nil {
				r[i] = -1
			}
		}
		return M{"ret": r}
	}
	panic("unknown op " + o.Op)
}

func seq(t *table, ops []Op) []M {
	ev := []M{}
	cur := map[int]bool{1: true}
	for _, o := range ops {
		if o.Op == "dump" {
			d := t.dump()
			ev = append(ev, M{"e": "dump", "stored": list(d), "size": t.rt.Size()})
			cur = d
			continue
		}
		r := t.call(o)
		r["e"] = o.Op
		switch o.Op {
		case "add":
			r["n"] = o.N
			d := t.dump()
			gain, lost := map[int]bool{}, map[int]bool{}
			for i := range d {
				if !cur[i] {
					gain[i] = true
				}
			}
			for i := range cur {
				if !d[i] {
					lost[i] = true
				}
			}
			cur = d
			r["gain"], r["lost"], r["size"] = list(gain), list(lost), t.rt.Size()
		case "find":
			r["q"] = o.Q
		case "closest":
			r["q"], r["k"] = o.Q, o.K
		}
		ev = append(ev, r)
	}
	return ev
}

func conc(t *table, progs [][]Op) []M {
	var clock int64
	type rec struct {
		at int64
		m  M
	}
	recs := make([][]rec, len(progs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range progs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, o := range progs[g] {
				inv := M{"e": "inv", "g": g, "op": o.Op, "n": o.N, "q": o.Q, "k": o.K}
				a := atomic.AddInt64(&clock, 1)
				r := t.call(o)
				b := atomic.AddInt64(&clock, 1)
				r["e"], r["g"] = "ret", g
				recs[g] = append(recs[g], rec{a, inv}, rec{b, r})
				if o.K%3 == 1 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	ev := make([]M, clock)
	for _, rs := range recs {
		for _, r := range rs {
			ev[r.at-1] = r.m
		}
	}
	ev = append(ev, M{"e": "dump", "stored": list(t.dump()), "size": t.rt.Size()})
	return ev
}

func main() {
	var ss []Scenario
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&ss); err != nil {
		panic(err)
	}
	out := []M{}
	for i, s := range ss {
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		t := build(s.Cfg)
		var ev []M
		if s.Conc != nil {
			ev = conc(t, s.Conc)
		} else {
			ev = seq(t, s.Ops)
		}
		ev = append(ev, M{"e": "kept", "same": t.same()})
		out = append(out, M{"cfg": s.Cfg, "ev": ev})
	}
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(f).Encode(out); err != nil {
		panic(err)
	}
	f.Close()
}
