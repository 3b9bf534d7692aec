// txdrv draws transaction ids from the real generator.
// stdin: JSON list of {init, draws, conc: [goroutines, draws each]}, argument: file for the traces.
package main

import (
	"encoding/json"
	"os"
	"sync"

	"github.com/GalaIO/P2Pcrawler/dht"
)

type M = map[string]interface{}

type Scenario struct {
	Init  int   `json:"init"`
	Draws int   `json:"draws"`
	Conc  []int `json:"conc"`
}

func main() {
	var ss []Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&ss); err != nil {
		panic(err)
	}
	out := []M{}
	for _, s := range ss {
		g := dht.NewTxIdGenerator(uint16(s.Init))
		num := map[string]int{}
		id := func(x string) int {
			if num[x] == 0 {
				num[x] = len(num) + 1
			}
			return num[x]
		}
		d, ev := []int{}, []M{}
		for i := 0; i < s.Draws; i++ {
			d = append(d, id(g.Next()))
		}
		const W = 65536
		if s.Draws > 0 {
			first := s.Draws
			if first > W {
				first = W
			}
			ev = append(ev, M{"e": "seq", "from": 1, "to": first})
			for i := first; i < s.Draws; i += 4096 {
				to := i + 4096
				if to > s.Draws {
					to = s.Draws
				}
				ev = append(ev, M{"e": "seq", "from": i + 1, "to": to})
			}
		}
		if len(s.Conc) == 2 {
			res := make([][]string, s.Conc[0])
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := range res {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					for i := 0; i < s.Conc[1]; i++ {
						res[k] = append(res[k], g.Next())
					}
				}(k)
			}
			close(start)
			wg.Wait()
			c := []int{}
			for _, r := range res {
				for _, x := range r {
					c = append(c, id(x))
				}
			}
			ev = append(ev, M{"e": "conc", "d": c})
		}
		out = append(out, M{"cfg": M{"init": s.Init, "d": d}, "ev": ev})
	}
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(f).Encode(out); err != nil {
		panic(err)
	}
	f.Close()
}
