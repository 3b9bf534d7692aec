// miscdrv steps small concurrent structures of the code under test and records histories.
// stdin: JSON list of scenarios, argument: file for the traces.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Op struct {
	Op  string `json:"op"`
	Key string `json:"key"`
	V   int    `json:"v"`
	W   int    `json:"w"`
	H   int    `json:"h"` // which held buffer (bytes pool): index modulo the number held
	N   int    `json:"n"` // length it is cut to before it is returned
}

type Scenario struct {
	Kind   string `json:"kind"`
	Max    int    `json:"max"`
	W      int    `json:"w"`
	Seq    []Op   `json:"seq"`
	Progs  [][]Op `json:"progs"`
	After  []Op   `json:"after"`
	Rounds int    `json:"rounds"`
	Clock  bool   `json:"clock"`
}

// object under test, one per round
type object interface {
	do(g int, o Op) M // M: arguments and results
}

// ---------------------------------------------------------------- shared map

type taker interface {
	Take(key string) (interface{}, bool)
}

type smap struct{ m *misc.SyncMap }

// values of several kinds, comparable or not; every nil is the value -1
func value(v int) interface{} {
	switch v % 7 {
	case 1:
		return fmt.Sprint(v)
	case 2:
		return []int{v}
	case 3:
		return map[string]int{"v": v}
	case 4:
		return func() int { return v }
	case 5:
		return &v
	case 6:
		return nil
	}
	return v
}

func number(x interface{}) int {
	switch v := x.(type) {
	case nil:
		return -1
	case string:
		n := 0
		fmt.Sscan(v, &n)
		return n
	case []int:
		return v[0]
	case map[string]int:
		return v["v"]
	case func() int:
		return v()
	case *int:
		return *v
	case int:
		return v
	}
	return -2
}

func (s *smap) do(g int, o Op) M {
	r := M{"op": o.Op, "key": o.Key, "v": o.V}
	switch o.Op {
	case "put":
		x := value(o.V)
		r["v"] = number(x)
		s.m.Put(o.Key, x)
	case "del":
		s.m.Del(o.Key)
	case "get", "take":
		var v interface{}
		var ok bool
		if t, is := interface{}(s.m).(taker); o.Op == "take" && is {
			v, ok = t.Take(o.Key)
		} else {
			r["op"] = "get"
			v, ok = s.m.Get(o.Key)
		}
		r["ok"] = ok
		r["v"] = 0
		if ok {
			r["v"] = number(v)
		}
	}
	return r
}

// ---------------------------------------------------------------- bytes pool

type bpool struct {
	p    *misc.BytesPool
	w    int
	mu   sync.Mutex
	ids  map[uintptr]int
	live map[int][]byte // every buffer ever seen, kept reachable so that memory is never reused
	held map[int]bool
	mine []([]int) // per goroutine: handles held
}

func newPool(s Scenario, g int) *bpool {
	return &bpool{p: misc.NewBytesPool(s.Max, s.W), w: s.W, ids: map[uintptr]int{}, live: map[int][]byte{},
		held: map[int]bool{}, mine: make([][]int, g)}
}

func (b *bpool) do(g int, o Op) M {
	switch o.Op {
	case "get":
		var buf []byte
		if o.W == b.w && o.N == 0 {
			buf = b.p.Get()
		} else {
			buf = b.p.GetBySize(o.W)
		}
		r := M{"op": "get", "w": o.W, "len": len(buf), "cap": cap(buf)}
		b.mu.Lock()
		defer b.mu.Unlock()
		var ptr uintptr
		if cap(buf) > 0 {
			ptr = uintptr(unsafe.Pointer(unsafe.SliceData(buf)))
		}
		id, ok := b.ids[ptr]
		if !ok {
			id = len(b.ids) + 1
			b.ids[ptr] = id
			b.live[id] = buf
		}
		over := false
		for h := range b.held {
			x := b.live[h]
			p := uintptr(unsafe.Pointer(unsafe.SliceData(x)))
			if h != id && ptr < p+uintptr(cap(x)) && p < ptr+uintptr(cap(buf)) {
				over = true
			}
		}
		r["b"], r["overlap"] = id, over
		b.live[id] = buf
		b.held[id] = true
		b.mine[g] = append(b.mine[g], id)
		return r
	case "put":
		m := b.mine[g]
		if len(m) == 0 {
			return nil
		}
		i := o.H % len(m)
		id := m[i]
		b.mine[g] = append(append([]int{}, m[:i]...), m[i+1:]...)
		b.mu.Lock()
		buf := b.live[id]
		delete(b.held, id)
		b.mu.Unlock()
		n := len(buf)
		if o.N > 0 && o.N-1 < n {
			n = o.N - 1
		}
		b.p.Put(buf[:n])
		return M{"op": "put", "b": id}
	}
	panic("verifharness: op " + o.Op)
}

func fresh(s Scenario, g int) object {
	switch s.Kind {
	case "map":
		return &smap{misc.NewSyncMap(4)}
	case "pool":
		return newPool(s, g)
	}
	panic("verifharness: kind " + s.Kind)
}

// ---------------------------------------------------------------- running

type rec struct {
	at int64
	m  M
}

func watchdog(what interface{}) func() {
	t := time.AfterFunc(20*time.Second, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		j, _ := json.Marshal(what)
		fmt.Fprintf(os.Stderr, "HANG %s\n%s\n", j, buf[:n])
		os.Exit(97)
	})
	return func() { t.Stop() }
}

func round(s Scenario) []M {
	defer watchdog(s)()
	o := fresh(s, len(s.Progs)+1)
	ev := []M{}
	seq := func(ops []Op) {
		for _, x := range ops {
			if r := o.do(len(s.Progs), x); r != nil {
				r["e"] = "call"
				ev = append(ev, r)
			}
		}
	}
	seq(s.Seq)
	if len(s.Progs) > 0 {
		var clock int64
		recs := make([][]rec, len(s.Progs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range s.Progs {
			wg.Add(1)
			spin := rand.IntN(60)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < spin; i++ {
					runtime.Gosched()
				}
				for _, x := range s.Progs[g] {
					var a, b int64
					if s.Clock {
						a = atomic.AddInt64(&clock, 1)
					}
					r := o.do(g, x)
					if s.Clock {
						b = atomic.AddInt64(&clock, 1)
					}
					if r == nil {
						r = M{}
					}
					recs[g] = append(recs[g], rec{a, r}, rec{b, nil})
				}
			}(g)
		}
		close(start)
		wg.Wait()
		if !s.Clock { // a run for the race detector alone
			return nil
		}
		mid := make([]M, clock)
		for g, rs := range recs {
			for i := 0; i < len(rs); i += 2 {
				if len(rs[i].m) == 0 {
					continue
				}
				rs[i].m["e"], rs[i].m["g"] = "inv", g
				mid[rs[i].at-1] = rs[i].m
				mid[rs[i+1].at-1] = M{"e": "ret", "g": g}
			}
		}
		for _, m := range mid {
			if m != nil {
				ev = append(ev, m)
			}
		}
	}
	if p, ok := o.(*bpool); ok { // buffers still held are the last goroutine's from here on
		last := len(p.mine) - 1
		for g := 0; g < last; g++ {
			p.mine[last] = append(p.mine[last], p.mine[g]...)
		}
	}
	seq(s.After)
	return ev
}

// renumber makes histories that differ only in the numbering of buffers equal
func renumber(ev []M) {
	n := map[int]int{}
	for _, e := range ev {
		if b, ok := e["b"].(int); ok {
			if n[b] == 0 {
				n[b] = len(n) + 1
			}
			e["b"] = n[b]
		}
	}
}

func main() {
	var ss []Scenario
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&ss); err != nil {
		panic(err)
	}
	out := []M{}
	total := 0
	for i, s := range ss {
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		if s.Rounds == 0 {
			s.Rounds = 1
		}
		seen := map[string]bool{}
		for r := 0; r < s.Rounds; r++ {
			t := s
			if len(s.Progs) > 0 {
				t.Clock = r%4 != 3
			}
			ev := round(t)
			total++
			if ev == nil {
				continue
			}
			renumber(ev)
			j, _ := json.Marshal(ev)
			if !seen[string(j)] && len(seen) < 400 {
				seen[string(j)] = true
				out = append(out, M{"cfg": M{"max": s.Max, "scenario": i}, "ev": ev})
			}
		}
	}
	fmt.Fprintf(os.Stderr, "rounds %d\n", total)
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(f).Encode(out); err != nil {
		panic(err)
	}
	f.Close()
}
