// Package val reads and writes bencode values in the form the trace specifications use.
package val

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"

	"github.com/GalaIO/P2Pcrawler/misc"
)

type M = map[string]interface{}

type Val struct {
	T string          `json:"t"`
	V json.RawMessage `json:"v"`
}

func Str(id []int) string {
	b := make([]byte, len(id))
	for i, v := range id {
		b[i] = byte(v)
	}
	return string(b)
}

func Ints(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}

type myInt int
type myStr string

func Must(err error) {
	if err != nil {
		panic("verifharness: " + err.Error())
	}
}

func Build(v Val) interface{} {
	switch v.T {
	case "i":
		var t []int
		Must(json.Unmarshal(v.V, &t))
		n, err := strconv.Atoi(Str(t))
		Must(err)
		return n
	case "s":
		var t []int
		Must(json.Unmarshal(v.V, &t))
		return Str(t)
	case "l":
		var t []Val
		Must(json.Unmarshal(v.V, &t))
		r := misc.List{}
		for _, x := range t {
			r = append(r, Build(x))
		}
		return r
	case "d":
		var t []struct {
			K []int `json:"k"`
			V Val   `json:"v"`
		}
		Must(json.Unmarshal(v.V, &t))
		r := misc.Dict{}
		for _, x := range t {
			r[Str(x.K)] = Build(x.V)
		}
		return r
	case "nil":
		if string(v.V) == `"l"` {
			return misc.List(nil)
		}
		return misc.Dict(nil)
	case "x":
		var k string
		Must(json.Unmarshal(v.V, &k))
		one := 1
		return map[string]interface{}{
			"nil": nil, "float": 1.5, "int64": int64(7), "int32": int32(7), "int8": int8(7), "uint": uint(7),
			"uint8": uint8(7), "uint64": uint64(7), "bool": true, "bytes": []byte("ab"), "myint": myInt(3), "mystr": myStr("x"),
			"map": map[string]int{"a": 1}, "err": errors.New("x"), "ptr": &one, "struct": struct{ A int }{1},
			"func": func() {}, "chan": make(chan int), "strs": []string{"a"}, "pdict": &misc.Dict{}, "complex": 1i,
			"rune": 'x', "plist": &misc.List{}, "ints": []int{1}, "uintptr": uintptr(1), "array": [2]int{1, 2},
			"float32": float32(2), "stringer": os.Stdout, "mapi": map[string]bool{},
		}[k]
	}
	panic("verifharness: bad kind " + v.T)
}

func Show(x interface{}) M {
	switch v := x.(type) {
	case int:
		return M{"t": "i", "v": Ints(strconv.Itoa(v))}
	case string:
		return M{"t": "s", "v": Ints(v)}
	case misc.List:
		r := []M{}
		for _, y := range v {
			r = append(r, Show(y))
		}
		return M{"t": "l", "v": r}
	case misc.Dict:
		ks := []string{}
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r := []M{}
		for _, k := range ks {
			r = append(r, M{"k": Ints(k), "v": Show(v[k])})
		}
		return M{"t": "d", "v": r}
	}
	return M{"t": "x", "v": fmt.Sprintf("%T", x)}
}
