// wpdrv drives the work pool and the process shutdown context of the code under test.
// Scenarios (JSON) come from the file named by VERIF_IN, traces go to VERIF_OUT.
// Stepped scenarios run in a synctest bubble: time is virtual, and after every step the driver waits until every
// goroutine is blocked before it looks.
package wpdrv

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Step struct {
	Op string `json:"op"`
	S  int    `json:"s"`
	MS int    `json:"ms"`
	// not looked at afterwards (many tasks)
	Quiet bool `json:"quiet"`
}

type Clean struct {
	MS int `json:"ms"` // how long it takes; <0: for ever
}

type Scenario struct {
	Kind  string `json:"kind"` // step, race, shut
	N     int    `json:"n"`
	Steps []Step `json:"steps"`
	// race
	Submitters int  `json:"submitters"`
	Each       int  `json:"each"`
	Stop       int  `json:"stop"` // shutdown calls at the end, concurrently
	Cancel     bool `json:"cancel"`
	Rounds     int  `json:"rounds"`
	// shut
	Cleans  []Clean `json:"cleans"`
	Timeout int     `json:"timeout"`
	At      int     `json:"at"` // cancelled at
	Batches []int   `json:"batches"`
	Before  bool    `json:"before"` // cancelled before the wait begins
	Reg     int     `json:"reg"`    // >0: so many goroutines register the cleanups
	Late    int     `json:"late"`   // >0: so many goroutines go on registering while shutdown begins
}

var (
	traces []M
	last   atomic.Int64
)

func flush() {
	b, err := json.Marshal(traces)
	if err == nil {
		err = os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifharness: ", err)
		os.Exit(3)
	}
}

func name(s misc.ShutdownStatus) string {
	switch s {
	case misc.Running:
		return "running"
	case misc.Shutdowning:
		return "shutting"
	case misc.Shutdowned:
		return "shutdown"
	}
	return "?"
}

func TestMain(m *testing.M) {
	last.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Now().UnixNano()-last.Load() > int64(25*time.Second) {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "HANG no progress\n\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()
	os.Exit(m.Run())
}

func TestDrive(t *testing.T) {
	misc.GetLogger() // its goroutines, if any, are not part of what is counted
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	var sc []Scenario
	if err == nil {
		err = json.Unmarshal(b, &sc)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifharness: ", err)
		os.Exit(3)
	}
	for i, s := range sc {
		last.Store(time.Now().UnixNano())
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		switch s.Kind {
		case "step":
			bubble(t, func() { step(i, s) })
		case "race":
			for r := 0; r < max(1, s.Rounds); r++ {
				last.Store(time.Now().UnixNano())
				race(i, s)
			}
		case "shut":
			bubble(t, func() { shut(i, s) })
		}
	}
	flush()
}

// A goroutine that has ended is counted until the runtime has put it away, which a busy machine may delay:
// this waits in real time, of which there is enough for some failures.
var patience = 20 * time.Second

func goroutines(want int) int {
	n := 0
	for i := 0; ; i++ {
		if n = runtime.NumGoroutine(); n <= want {
			return n
		}
		if i < 50 {
			runtime.Gosched()
		} else if i > 5050 || patience <= 0 {
			return n
		} else {
			ts := syscall.NsecToTimespec(1e6)
			syscall.Nanosleep(&ts, nil)
			patience -= time.Millisecond
		}
		synctest.Wait()
	}
}

// ---------------------------------------------------------------- the work pool, in steps

type stepped struct {
	sync.Mutex
	returned, refused, started, done []int
	shut                             [][2]int
	panicked                         []int
	gate                             map[int]chan struct{}
}

var lowestStep = 1 << 30

func step(id int, s Scenario) {
	lowestStep = min(lowestStep, runtime.NumGoroutine()) // one of the scenario before may be about to be put away
	base := lowestStep
	t0 := time.Now()
	ms := func() int { return int(time.Since(t0) / time.Millisecond) }
	ctx, cancel := context.WithCancel(context.Background())
	pool := misc.NewWorkPool(ctx, fmt.Sprint("p", id), s.N)
	st := &stepped{gate: map[int]chan struct{}{}}
	ev := []M{}
	called, open := 0, map[int]bool{}
	calls, begun := 0, false
	obs := func() {
		synctest.Wait()
		st.Lock()
		defer st.Unlock()
		cp := func(a []int) []int { return append([]int{}, a...) }
		r, f, d := cp(st.returned), cp(st.refused), cp(st.done)
		sort.Ints(r)
		sort.Ints(f)
		sort.Ints(d)
		ev = append(ev, M{"e": "obs", "returned": r, "refused": f, "started": cp(st.started), "done": d,
			"shut": append([][2]int{}, st.shut...), "status": name(pool.Status()), "panicked": cp(st.panicked), "now": ms()})
	}
	blocked := func() bool {
		st.Lock()
		defer st.Unlock()
		return len(st.returned)+len(st.refused) < called
	}
	submit := func(t int) {
		called++
		gate := make(chan struct{})
		st.Lock()
		st.gate[t] = gate
		st.Unlock()
		go func() {
			defer func() {
				if e := recover(); e != nil {
					st.Lock()
					st.refused = append(st.refused, t)
					st.Unlock()
				}
			}()
			pool.AsyncSubmit(func() {
				st.Lock()
				st.started = append(st.started, t)
				st.Unlock()
				<-gate
				st.Lock()
				st.done = append(st.done, t)
				st.Unlock()
			})
			st.Lock()
			st.returned = append(st.returned, t)
			st.Unlock()
		}()
	}
	shutdown := func(timeout int) {
		k := calls
		calls++
		go func() {
			defer func() {
				if e := recover(); e != nil {
					st.Lock()
					st.panicked = append(st.panicked, k)
					st.Unlock()
				}
			}()
			pool.Shutdown(time.Duration(timeout) * time.Millisecond)
			st.Lock()
			st.shut = append(st.shut, [2]int{k, ms()})
			st.Unlock()
		}()
	}
	finish := func(t int) bool {
		st.Lock()
		defer st.Unlock()
		for _, x := range st.started {
			if x == t && !open[t] {
				open[t] = true
				close(st.gate[t])
				return true
			}
		}
		return false
	}
	do := func(o Step) {
		switch o.Op {
		case "submit":
			ev = append(ev, M{"e": "submit", "s": o.S})
			submit(o.S)
		case "finish":
			if !finish(o.S) {
				return
			}
			ev = append(ev, M{"e": "finish", "t": o.S})
		case "shutdown", "twin", "both", "cancel":
			if blocked() {
				return // the fate of submissions racing with a shutdown is not specified
			}
			begun = true
			e := M{"e": o.Op, "k": calls, "timeout": o.MS}
			if o.Op != "shutdown" && o.Op != "twin" {
				defer cancel()
			}
			ev = append(ev, e)
			if o.Op != "cancel" {
				shutdown(o.MS)
			}
			if o.Op == "twin" {
				shutdown(o.MS)
			}
			if o.Op != "shutdown" && o.Op != "twin" {
				cancel()
			}
		case "sleep":
			ev = append(ev, M{"e": "sleep", "ms": o.MS})
			time.Sleep(time.Duration(o.MS) * time.Millisecond)
		}
		if o.Quiet {
			synctest.Wait()
			return
		}
		obs()
	}
	for _, o := range s.Steps {
		do(o)
	}
	drain := func() {
		for more := true; more; {
			more = false
			looked := true
			st.Lock()
			ids := append([]int{}, st.started...)
			st.Unlock()
			for i, t := range ids {
				if !open[t] {
					more = true
					looked = len(ids) <= 60 || i%(len(ids)/8) == 0
					do(Step{Op: "finish", S: t, Quiet: !looked})
				}
			}
			if !looked {
				obs()
			}
		}
	}
	drain()
	if !begun {
		do(Step{Op: []string{"cancel", "shutdown"}[id%2], MS: 1000})
	}
	drain()
	do(Step{Op: "sleep", MS: 200000})
	drain()
	cancel()
	synctest.Wait()
	left := max(0, goroutines(base)-base)
	ev = append(ev, M{"e": "end", "left": left})
	traces = append(traces, M{"cfg": M{"scenario": id, "n": s.N, "strict": false}, "ev": ev})
}

// bubble runs f in virtual time; goroutines the code under test leaves behind are not an error here.
func bubble(t *testing.T, f func()) {
	over := false
	defer func() {
		if e := recover(); e != nil && !over {
			panic(e)
		}
	}()
	synctest.Test(t, func(t *testing.T) { f(); over = true })
}

// ---------------------------------------------------------------- the work pool, racing

var lowest = 1 << 30

func race(id int, s Scenario) {
	lowest = min(lowest, runtime.NumGoroutine()) // a goroutine of the round before may be about to end
	base := lowest
	ctx, cancel := context.WithCancel(context.Background())
	pool := misc.NewWorkPool(ctx, fmt.Sprint("r", id), s.N)
	var mu sync.Mutex
	ev := []M{}
	log := func(m M) {
		mu.Lock()
		ev = append(ev, m)
		mu.Unlock()
	}
	busy := func(x uint64) {
		switch x % 4 {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(x>>8%80) * time.Microsecond)
		}
	}
	// what the pool says of itself, as it changes
	quit := make(chan struct{})
	var watch sync.WaitGroup
	watch.Add(1)
	base++
	go func() {
		defer watch.Done()
		was := "running"
		for {
			if is := name(pool.Status()); is != was {
				log(M{"e": "status", "is": is})
				was = is
			}
			select {
			case <-quit:
				return
			default:
				time.Sleep(5 * time.Microsecond)
			}
		}
	}()
	var done sync.WaitGroup
	var sub sync.WaitGroup
	try := func(t int) {
		log(M{"e": "inv", "s": t})
		defer func() {
			if e := recover(); e != nil {
				log(M{"e": "refused", "s": t})
			}
		}()
		r := rand.Uint64()
		pool.AsyncSubmit(func() {
			log(M{"e": "start", "s": t})
			busy(r)
			log(M{"e": "stop", "s": t})
		})
		log(M{"e": "ret", "s": t})
	}
	for g := 0; g < s.Submitters; g++ {
		sub.Add(1)
		go func() {
			defer sub.Done()
			for i := 0; i < s.Each; i++ {
				try(1 + g*s.Each + i)
			}
		}()
	}
	sub.Wait()
	if s.Stop > 0 || s.Cancel {
		start := make(chan struct{})
		for k := 0; k < s.Stop; k++ {
			done.Add(1)
			go func() {
				defer done.Done()
				<-start
				log(M{"e": "sinv", "k": k})
				defer func() {
					if e := recover(); e != nil {
						log(M{"e": "spanic", "k": k})
					}
				}()
				pool.Shutdown(60 * time.Second)
				log(M{"e": "sret", "k": k, "status": name(pool.Status())})
			}()
		}
		if s.Cancel {
			done.Add(1)
			go func() {
				defer done.Done()
				<-start
				cancel()
			}()
		}
		close(start)
		done.Wait()
		if s.Cancel && s.Stop == 0 { // noticed some time later
			for i := 0; i < 5000 && pool.Status() == misc.Running; i++ {
				time.Sleep(time.Millisecond)
			}
		}
		log(M{"e": "begun"})
		for i := 1; i <= 3; i++ {
			try(10000 + i)
		}
	}
	all := func() bool {
		mu.Lock()
		defer mu.Unlock()
		rs := 0
		for _, e := range ev {
			if e["e"] == "ret" {
				rs++
			}
			if e["e"] == "stop" {
				rs--
			}
		}
		return rs == 0
	}
	for i := 0; i < 5000 && !all(); i++ {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(200 * time.Microsecond)
	log(M{"e": "allret"})
	if s.Stop == 0 && !s.Cancel {
		pool.Shutdown(60 * time.Second)
	}
	left := 1
	for i := 0; i < 5000 && left > 0; i++ {
		if left = max(0, runtime.NumGoroutine()-base); left > 0 {
			time.Sleep(time.Millisecond)
		}
	}
	cancel()
	close(quit)
	watch.Wait()
	log(M{"e": "rend", "left": left, "status": name(pool.Status())})
	mu.Lock()
	traces = append(traces, M{"cfg": M{"scenario": id, "n": s.N, "strict": s.Stop > 0 && !s.Cancel}, "ev": ev})
	mu.Unlock()
}

// ---------------------------------------------------------------- process shutdown

func shut(id int, s Scenario) {
	t0 := time.Now()
	ms := func() int { return int(time.Since(t0) / time.Millisecond) }
	ctx, cancel := context.WithCancel(context.Background())
	var mu sync.Mutex
	ev := []M{}
	log := func(m M) {
		mu.Lock()
		ev = append(ev, m)
		mu.Unlock()
	}
	sc := misc.WithShutdownContext(ctx)
	log(M{"e": "new", "status": name(sc.Status()), "t": 0})
	never := make(chan struct{})
	fs := []misc.CleanFunc{}
	add := func(i int, c Clean) {
		fs = append(fs, func() {
			log(M{"e": "cstart", "c": i, "t": ms(), "status": name(sc.Status())})
			if c.MS < 0 {
				<-never
			} else if c.MS > 0 {
				time.Sleep(time.Duration(c.MS) * time.Millisecond)
			}
			log(M{"e": "cend", "c": i, "t": ms()})
		})
	}
	for i, c := range s.Cleans {
		add(i, c)
	}
	if s.Reg > 0 {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < s.Reg; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for i := g; i < len(fs); i += s.Reg {
					sc.Clean(fs[i])
				}
			}()
		}
		close(gate)
		wg.Wait()
	} else {
		for _, n := range s.Batches {
			n = min(n, len(fs))
			sc.Clean(fs[:n]...)
			fs = fs[n:]
		}
		sc.Clean(fs...)
	}
	fs = nil
	for i := 0; i < s.Late*25; i++ {
		add(len(s.Cleans)+i, Clean{})
	}
	fire := func() {
		log(M{"e": "fire", "t": ms()})
		var wg sync.WaitGroup
		for g := 0; g < s.Late; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < len(fs); i += s.Late {
					if i == g+5*s.Late {
						runtime.Gosched()
					}
					sc.Clean(fs[i])
				}
			}()
		}
		if s.Late > 0 {
			runtime.Gosched()
		}
		cancel()
		wg.Wait()
	}
	if s.Before {
		time.Sleep(time.Duration(s.At) * time.Millisecond)
		fire()
	}
	returned := make(chan struct{})
	log(M{"e": "wait", "t": ms(), "timeout": s.Timeout})
	go func() {
		sc.WaitShutdown(time.Duration(s.Timeout) * time.Millisecond)
		log(M{"e": "wret", "t": ms(), "status": name(sc.Status())})
		close(returned)
	}()
	if !s.Before {
		synctest.Wait()
		time.Sleep(time.Duration(s.At) * time.Millisecond)
		log(M{"e": "peek", "t": ms(), "status": name(sc.Status())})
		fire()
	}
	synctest.Wait()
	for i := 0; i < 12; i++ {
		time.Sleep(777 * time.Millisecond)
		synctest.Wait()
		log(M{"e": "peek", "t": ms(), "status": name(sc.Status())})
	}
	time.Sleep(100 * time.Second)
	synctest.Wait()
	log(M{"e": "peek", "t": ms(), "status": name(sc.Status())})
	close(never)
	synctest.Wait()
	time.Sleep(time.Second)
	synctest.Wait()
	log(M{"e": "over", "t": ms()})
	mu.Lock()
	traces = append(traces, M{"cfg": M{"scenario": id, "n": len(s.Cleans), "tol": 0, "early": 0}, "ev": append([]M{}, ev...)})
	mu.Unlock()
}
