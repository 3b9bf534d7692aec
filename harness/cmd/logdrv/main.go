// logdrv drives the loggers and the settings of the code under test and records what they printed.
// stdin: JSON list of scenarios, argument: file for the traces.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Entry struct {
	K string      `json:"k"`
	T string      `json:"t"`
	V interface{} `json:"v"`
}

type Op struct {
	Op   string  `json:"op"` // get, file, prefix, set, say
	Name string  `json:"name"`
	Bare bool    `json:"bare"` // get: without a name
	Of   int     `json:"of"`   // prefix, say: which logger, modulo those at hand
	P    string  `json:"p"`
	V    string  `json:"v"` // set: name of the level
	Sev  string  `json:"sev"`
	Msg  string  `json:"msg"`
	Ctx  []Entry `json:"ctx"`
	Nil  bool    `json:"nil"`
}

type Scenario struct {
	Kind   string `json:"kind"` // console, factory, conf
	Level  string `json:"level"`
	Seq    []Op   `json:"seq"`
	Progs  [][]Op `json:"progs"`
	After  []Op   `json:"after"`
	Rounds int    `json:"rounds"`
}

// ---------------------------------------------------------------- the factory's loggers

type factory struct {
	mu   sync.Mutex
	made []M
}

var levels = map[misc.LogLevel]string{misc.DEBUG: "DEBUG", misc.INFO: "INFO", misc.WARN: "WARN", misc.ERROR: "ERROR", misc.PANIC: "PANIC", misc.TRACE: "TRACE"}

type quiet struct{ name string }

func (f *factory) GetDefaultName() string { return "dflt" }
func (f *factory) NewLogger(name string, level misc.LogLevel) misc.Logger {
	for i := rand.IntN(40); i > 0; i-- {
		runtime.Gosched()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.made = append(f.made, M{"name": name, "level": levels[level]})
	return &quiet{name}
}
func (q *quiet) SetPrefix(p string) misc.Logger  { return &quiet{q.name} }
func (q *quiet) Debug(msg string, ctx misc.Dict) {}
func (q *quiet) Info(msg string, ctx misc.Dict)  {}
func (q *quiet) Warn(msg string, ctx misc.Dict)  {}
func (q *quiet) Error(msg string, ctx misc.Dict) {}
func (q *quiet) Panic(msg string, ctx misc.Dict) { panic(msg) }
func (q *quiet) Trace(msg string, ctx misc.Dict) {}
func (q *quiet) Flush()                          {}

// ---------------------------------------------------------------- operations

type text string

func (t text) String() string { return string(t) }

func value(e Entry) interface{} {
	switch e.T {
	case "int":
		return int(e.V.(float64))
	case "error":
		return errors.New(e.V.(string))
	case "stringer":
		return text(e.V.(string))
	}
	return e.V
}

type logger struct {
	l    misc.Logger
	p    string // its prefix
	file string // a logger of a file: its level
	name string // and the file
}

type run struct {
	tag    string
	n      int64
	shared []logger
	mine   [][]logger
	out    *os.File
	from   int64
	mu     sync.Mutex
	files  map[string]bool
}

func (r *run) at(g, i int) logger {
	if n := len(r.shared) + len(r.mine[g]); n > 0 {
		i = i % n
		if i < len(r.shared) {
			return r.shared[i]
		}
		return r.mine[g][i-len(r.shared)]
	}
	return logger{}
}

func (r *run) text() string {
	st, _ := r.out.Stat()
	b := make([]byte, st.Size()-r.from)
	n, _ := r.out.ReadAt(b, r.from)
	return string(b[:n])
}

func (r *run) do(g int, o Op, alone bool) M {
	m := M{"op": o.Op}
	add := func(l misc.Logger, p, file, name string) {
		r.mine[g] = append(r.mine[g], logger{l, p, file, name})
	}
	switch o.Op {
	case "get":
		if o.Bare {
			add(misc.GetLogger(), "", "", "")
			m["name"] = "dflt"
		} else {
			add(misc.GetLogger(r.tag+o.Name), "", "", "")
			m["name"] = r.tag + o.Name
		}
	case "prefix":
		l := r.at(g, o.Of)
		if l.l == nil {
			return nil
		}
		add(l.l.SetPrefix(o.P), o.P, l.file, l.name)
	case "file":
		name := strings.ReplaceAll(r.tag, "/", "-") + o.Name
		add(misc.NewZapLogger(name, o.V), "", o.V, name)
		r.mu.Lock()
		r.files[name] = true
		r.mu.Unlock()
	case "set":
		v := misc.TransLogLevel(o.V)
		m["v"] = strings.ToUpper(o.V)
		misc.SetLevel(v)
	case "say":
		l := r.at(g, o.Of)
		if l.l == nil {
			return nil
		}
		id := fmt.Sprintf("<%s%d>", r.tag, atomic.AddInt64(&r.n, 1))
		var ctx misc.Dict
		if !o.Nil {
			ctx = misc.Dict{}
			for _, e := range o.Ctx {
				ctx[e.K] = value(e)
			}
		}
		m["id"], m["sev"], m["msg"], m["p"], m["file"], m["name"] = id, o.Sev, o.Msg+id, l.p, l.file, l.name
		cs := []Entry{}
		if !o.Nil {
			cs = o.Ctx
		}
		m["ctx"], m["now"], m["panicked"] = cs, false, false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(runtime.Error); is || o.Sev != "Panic" {
						panic(x)
					}
					m["panicked"] = true
				}
			}()
			f := map[string]func(string, misc.Dict){"Debug": l.l.Debug, "Info": l.l.Info, "Warn": l.l.Warn, "Error": l.l.Error, "Panic": l.l.Panic, "Trace": l.l.Trace}[o.Sev]
			f(o.Msg+id, ctx)
		}()
		if o.Sev == "Panic" && alone {
			if l.file == "" {
				m["now"] = strings.Contains(r.text(), id)
			} else {
				b, _ := os.ReadFile("logs/" + l.name + ".log")
				m["now"] = strings.Contains(string(b), id)
			}
		}
	}
	return m
}

func watchdog(what interface{}) func() {
	t := time.AfterFunc(20*time.Second, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		j, _ := json.Marshal(what)
		fmt.Fprintf(os.Stderr, "HANG %s\n%s\n", j, buf[:n])
		os.Exit(97)
	})
	return func() { t.Stop() }
}

type rec struct {
	a, b int64
	m    M
}

func round(s Scenario, tag string, out *os.File, f *factory) M {
	defer watchdog(s)()
	st, err := out.Stat()
	if err != nil {
		panic("verifharness: " + err.Error())
	}
	r := &run{tag: tag, out: out, from: st.Size(), mine: make([][]logger, len(s.Progs)+1), files: map[string]bool{}}
	made := 0
	if f != nil {
		made = len(f.made)
	}
	t0 := time.Now()
	ev := []M{}
	seq := func(ops []Op) {
		for _, o := range ops {
			if m := r.do(len(s.Progs), o, true); m != nil {
				m["e"] = "call"
				ev = append(ev, m)
			}
		}
	}
	if s.Level != "" {
		seq([]Op{{Op: "set", V: s.Level}})
	}
	seq(s.Seq)
	if len(s.Progs) > 0 {
		r.shared, r.mine[len(s.Progs)] = r.mine[len(s.Progs)], nil
		var clock int64
		recs := make([][]rec, len(s.Progs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range s.Progs {
			wg.Add(1)
			spin := rand.IntN(60)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < spin; i++ {
					runtime.Gosched()
				}
				for _, o := range s.Progs[g] {
					a := atomic.AddInt64(&clock, 1)
					m := r.do(g, o, false)
					b := atomic.AddInt64(&clock, 1)
					if m != nil {
						recs[g] = append(recs[g], rec{a, b, m})
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		mid := make([]M, clock)
		for g, rs := range recs {
			for _, c := range rs {
				c.m["e"], c.m["g"] = "inv", g
				mid[c.a-1] = c.m
				mid[c.b-1] = M{"e": "ret", "g": g}
			}
		}
		for _, m := range mid {
			if m != nil {
				ev = append(ev, m)
			}
		}
	}
	seq(s.After)
	misc.Close()
	files := map[string][]byte{}
	for n := range r.files {
		files[n], _ = os.ReadFile("logs/" + n + ".log")
		os.Remove("logs/" + n + ".log")
	}
	cfg := M{"made": []M{}}
	if f != nil {
		cfg["made"] = append([]M{}, f.made[made:]...)
	}
	return M{"cfg": cfg, "ev": ev, "out": []byte(r.text()), "files": files, "t0": t0.Unix(), "t1": time.Now().Unix()}
}

// settings: the first use of each by several at once
func settings(s Scenario) M {
	defer watchdog(s)()
	ev := []M{}
	for k := 0; k < s.Rounds; k++ {
		config.ResetConfig()
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < 4; i++ {
					m := M{"e": "conf"}
					var x interface{}
					switch (i + g) % 4 {
					case 0:
						m["key"], x = "dht", config.DhtConfig()
					case 1:
						m["key"], x = "fetchTorrent", config.FetchTorrentConfig()
					case 2:
						m["key"], x = "pprof", config.PProfConfig()
					case 3:
						m["key"], x = "logger", config.LoggerConfig()
					}
					m["val"] = x
					mu.Lock()
					ev = append(ev, m)
					mu.Unlock()
				}
			}(g)
		}
		close(start)
		wg.Wait()
	}
	return M{"cfg": M{"made": []M{}}, "ev": ev, "out": []byte{}, "t0": 0, "t1": 0}
}

func main() {
	var ss []Scenario
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&ss); err != nil {
		panic(err)
	}
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	name := os.Args[1] + ".stdout"
	out, err := os.OpenFile(name, os.O_CREATE|os.O_RDWR|os.O_APPEND|os.O_TRUNC, 0600)
	if err != nil {
		panic("verifharness: " + err.Error())
	}
	defer os.Remove(name)
	if err := syscall.Dup2(int(out.Fd()), 1); err != nil {
		panic("verifharness: " + err.Error())
	}
	var fac *factory
	res := []M{}
	for i, s := range ss {
		fmt.Fprintf(os.Stderr, "scenario %d\n", i)
		if s.Kind == "conf" {
			res = append(res, settings(s))
			continue
		}
		if s.Kind == "factory" && fac == nil { // from here on
			fac = &factory{}
			misc.InitLogger(fac, misc.TransLogLevel(s.Level))
		}
		for k := 0; k == 0 || k < s.Rounds; k++ {
			m := round(s, fmt.Sprintf("%d.%d/", i, k), out, fac)
			m["cfg"].(M)["scenario"] = i
			res = append(res, m)
		}
	}
	if err := json.NewEncoder(f).Encode(res); err != nil {
		panic(err)
	}
	f.Close()
}
