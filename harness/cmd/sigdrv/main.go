// sigdrv uses the process-wide shutdown of the code under test with real signals.
// stdin: one scenario, argument: file for the trace.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Scenario struct {
	Cleans  []int  `json:"cleans"` // milliseconds, <0: for ever
	Timeout int    `json:"timeout"`
	How     string `json:"how"` // int, term, cancel, int-first (before the wait)
	Twice   bool   `json:"twice"`
}

func main() {
	var s Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		fmt.Fprintln(os.Stderr, "verifharness: ", err)
		os.Exit(3)
	}
	go func() {
		time.Sleep(30 * time.Second)
		fmt.Fprintln(os.Stderr, "verifharness: stuck")
		os.Exit(96)
	}()
	var mu sync.Mutex
	ev := []M{}
	t0 := time.Now()
	log := func(m M) {
		mu.Lock()
		m["t"] = int(time.Since(t0) / time.Millisecond)
		ev = append(ev, m)
		mu.Unlock()
	}
	ctx, cancel := context.WithCancel(context.Background())
	if s.How == "cancel" {
		misc.InitShutdownCtx(ctx)
	}
	for i, ms := range s.Cleans {
		misc.RegisterShutDownClean(func() {
			log(M{"e": "cstart", "c": i, "status": "shutting"})
			if ms < 0 {
				select {}
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
			log(M{"e": "cend", "c": i})
		})
	}
	fire := func() {
		log(M{"e": "fire"})
		switch s.How {
		case "int", "int-first":
			syscall.Kill(os.Getpid(), syscall.SIGINT)
		case "term":
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
		default:
			cancel()
		}
		if s.Twice {
			time.Sleep(50 * time.Millisecond)
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
		}
	}
	if s.How == "int-first" {
		fire()
		time.Sleep(50 * time.Millisecond)
	} else {
		go func() {
			time.Sleep(150 * time.Millisecond)
			fire()
		}()
	}
	log(M{"e": "wait", "timeout": s.Timeout})
	misc.Wait4Shutdown(time.Duration(s.Timeout) * time.Millisecond)
	log(M{"e": "wret", "status": "shutdown"})
	time.Sleep(300 * time.Millisecond)
	log(M{"e": "over"})
	mu.Lock()
	b, _ := json.Marshal([]M{{"cfg": M{"n": len(s.Cleans), "tol": 600, "early": 2}, "ev": ev}})
	if err := os.WriteFile(os.Args[len(os.Args)-1], b, 0o644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}
