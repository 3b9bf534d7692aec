package val

import (
	"errors"
	"sort"
	"strconv"
)

type D = map[string]interface{}
type L = []interface{}

// Enc is the peers' own encoder, independent of the code under test.
func Enc(x interface{}) string {
	switch v := x.(type) {
	case int:
		return "i" + strconv.Itoa(v) + "e"
	case string:
		return strconv.Itoa(len(v)) + ":" + v
	case L:
		r := "l"
		for _, y := range v {
			r += Enc(y)
		}
		return r + "e"
	case D:
		ks := []string{}
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r := "d"
		for _, k := range ks {
			r += Enc(k) + Enc(v[k])
		}
		return r + "e"
	}
	panic("verifharness: cannot encode")
}

var errBad = errors.New("bad bencoding")

// Dec is the peers' own decoder.
func Dec(s string) (x interface{}, next int, err error) {
	if s == "" {
		return nil, 0, errBad
	}
	switch c := s[0]; {
	case c == 'i':
		for i := 1; i < len(s); i++ {
			if s[i] == 'e' {
				n, err := strconv.Atoi(s[1:i])
				return n, i + 1, err
			}
		}
	case c == 'l' || c == 'd':
		l, d, key := L{}, D{}, ""
		for i, k := 1, 0; i < len(s); k++ {
			if s[i] == 'e' {
				if c == 'l' {
					return l, i + 1, nil
				}
				if k%2 == 1 {
					return nil, 0, errBad
				}
				return d, i + 1, nil
			}
			y, n, err := Dec(s[i:])
			if err != nil {
				return nil, 0, err
			}
			i += n
			if c == 'l' {
				l = append(l, y)
			} else if k%2 == 0 {
				t, ok := y.(string)
				if !ok {
					return nil, 0, errBad
				}
				key = t
			} else {
				d[key] = y
			}
		}
	case c >= '0' && c <= '9':
		for i := 0; i < len(s); i++ {
			if s[i] == ':' {
				n, err := strconv.Atoi(s[:i])
				if err != nil || n < 0 || n > len(s)-i-1 {
					return nil, 0, errBad
				}
				return s[i+1 : i+1+n], i + 1 + n, nil
			}
		}
	}
	return nil, 0, errBad
}
