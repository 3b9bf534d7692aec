// bendrv calls the real bencode decoders and encoders. stdin: JSON list of cases, argument: file for the traces.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"

	"verifharness/val"

	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Case struct {
	E   string  `json:"e"`
	Fn  string  `json:"fn"`
	In  []int   `json:"in"`
	Val val.Val `json:"val"`
	// big: a value with N parts, then what is done to its encoding
	N    int    `json:"n"`
	Part string `json:"part"`
	Cut  int    `json:"cut"`
	Tail string `json:"tail"`
}

// big values are too large to write down: the driver builds them, and compares them itself
func big(c Case) M {
	var want interface{}
	var b strings.Builder
	one, part := func(i int) interface{} { return i }, func(i int) { fmt.Fprintf(&b, "i%de", i) }
	switch c.Part {
	case "str":
		one, part = func(i int) interface{} { return "ab" }, func(i int) { b.WriteString("2:ab") }
	case "empty":
		one, part = func(i int) interface{} { return misc.List{} }, func(i int) { b.WriteString("le") }
	case "dict":
		one, part = func(i int) interface{} { return misc.Dict{"k": i} }, func(i int) { fmt.Fprintf(&b, "d1:ki%dee", i) }
	}
	switch c.Fn {
	case "str":
		s := strings.Repeat("x:9e", c.N/4+1)[:c.N]
		want = s
		fmt.Fprintf(&b, "%d:%s", c.N, s)
	case "list":
		l := misc.List{}
		b.WriteByte('l')
		for i := 0; i < c.N; i++ {
			l = append(l, one(i))
			part(i)
		}
		b.WriteByte('e')
		want = l
	case "dict", "prefix":
		d := misc.Dict{}
		b.WriteByte('d')
		for i := 0; i < c.N; i++ {
			k := fmt.Sprintf("key%07d", i)
			d[k] = one(i)
			fmt.Fprintf(&b, "%d:%s", len(k), k)
			part(i)
		}
		b.WriteByte('e')
		want = d
	}
	if c.In != nil { // a long string inside
		s := strings.Repeat("y", c.In[0])
		enc := fmt.Sprintf("%d:%s", len(s), s)
		t := b.String()
		b.Reset()
		switch v := want.(type) {
		case misc.List:
			want = append(v, s)
			b.WriteString(t[:len(t)-1] + enc + "e")
		case misc.Dict:
			v["long"] = s
			b.WriteString(t[:len(t)-1] + "4:long" + enc + "e")
		default:
			b.WriteString(t)
		}
	}
	whole := b.String()
	in := whole[:len(whole)-c.Cut] + c.Tail
	got, next, err := decode(c.Fn, in)
	r := M{"e": "big", "fn": c.Fn, "n": c.N, "part": c.Part, "cut": c.Cut, "tail": len(c.Tail), "size": len(whole), "ok": err == nil, "next": next,
		"same": err == nil && reflect.DeepEqual(got, want), "encok": false, "back": false}
	if err == nil && c.N <= 20000 {
		var out string
		switch v := got.(type) {
		case string:
			out, err = misc.EncodeString(v)
		case misc.List:
			out, err = misc.EncodeSlice(v)
		case misc.Dict:
			out, err = misc.EncodeDict(v)
		}
		r["encok"] = err == nil
		again, _, err := decode(c.Fn, out)
		r["back"] = err == nil && reflect.DeepEqual(again, want) && len(out) == len(whole)
	}
	return r
}

// nested n deep: no more is asked than that it returns
func nested(c Case) M {
	in := strings.Repeat(val.Str(c.In), c.N) + c.Tail
	done := time.AfterFunc(60*time.Second, func() {
		buf := make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "HANG decoding\n%s\n", buf[:runtime.Stack(buf, true)])
		os.Exit(97)
	})
	defer done.Stop()
	_, _, err := decode(c.Fn, in)
	return M{"e": "nested", "fn": c.Fn, "n": c.N, "ok": err == nil, "whole": c.Tail != ""}
}

// nested more than n levels: too deep to write down
func deep(x interface{}, n int) bool {
	if n == 0 {
		return true
	}
	switch v := x.(type) {
	case misc.List:
		for _, y := range v {
			if deep(y, n-1) {
				return true
			}
		}
	case misc.Dict:
		for _, y := range v {
			if deep(y, n-1) {
				return true
			}
		}
	}
	return false
}

func decode(fn, in string) (v interface{}, next int, err error) {
	switch fn {
	case "int":
		v, err = misc.DecodeInteger(in)
	case "str":
		v, err = misc.DecodeString(in)
	case "list":
		v, err = misc.DecodeSlice(in)
	case "dict":
		v, err = misc.DecodeDict(in)
	case "prefix":
		v, next, err = misc.DecodeDictNoLimit(in)
	}
	return
}

func run(c Case) M {
	switch c.E {
	case "big":
		return big(c)
	case "nested":
		return nested(c)
	}
	if c.E == "dec" {
		got, next, err := decode(c.Fn, val.Str(c.In))
		r := M{"e": "dec", "fn": c.Fn, "in": c.In, "ok": err == nil, "next": next, "val": M{"t": "none"}}
		if err == nil {
			if deep(got, 100) {
				r["val"] = M{"t": "deep"}
			} else {
				r["val"] = val.Show(got)
			}
		}
		return r
	}
	x := val.Build(c.Val)
	var out string
	var err error
	fn := "dict"
	switch v := x.(type) {
	case int:
		out, err = misc.EncodeInteger(v)
		fn = "int"
	case string:
		out, err = misc.EncodeString(v)
		fn = "str"
	case misc.List:
		out, err = misc.EncodeSlice(v)
		fn = "list"
	case misc.Dict:
		out, err = misc.EncodeDict(v)
	}
	r := M{"e": "enc", "fn": fn, "val": c.Val, "ok": err == nil, "out": val.Ints(out), "backok": false, "back": M{"t": "none"}}
	if err == nil {
		back, _, err := decode(fn, out)
		r["backok"] = err == nil
		if err == nil {
			r["back"] = val.Show(back)
		}
	}
	return r
}

func main() {
	var cs []Case
	val.Must(json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&cs))
	f, err := os.Create(os.Args[1])
	val.Must(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	last := -1
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintf(os.Stderr, "scenario %d\n", last)
			panic(p)
		}
	}()
	for i, c := range cs {
		last = i
		val.Must(enc.Encode(run(c)))
	}
	val.Must(w.Flush())
	val.Must(f.Close())
}
