package sim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type ival struct{ lo, hi int64 }

// GTIDSet maps a server UUID to sorted, disjoint intervals.
type GTIDSet map[string][]ival

func (g GTIDSet) Clone() GTIDSet {
	c := make(GTIDSet, len(g))
	for k, v := range g {
		c[k] = append([]ival(nil), v...)
	}
	return c
}

func (g GTIDSet) Empty() bool {
	for _, v := range g {
		if len(v) > 0 {
			return false
		}
	}
	return true
}

func (g GTIDSet) Has(uuid string, n int64) bool {
	iv := g[uuid]
	i := sort.Search(len(iv), func(i int) bool { return iv[i].hi >= n })
	return i < len(iv) && iv[i].lo <= n
}

func (g GTIDSet) Add(uuid string, n int64) { g.addRange(uuid, n, n) }

func (g GTIDSet) addRange(uuid string, lo, hi int64) {
	iv := g[uuid]
	if k := len(iv); k > 0 && iv[k-1].hi+1 == lo {
		iv[k-1].hi = hi
		return
	}
	var out []ival
	ins := false
	for _, x := range iv {
		switch {
		case x.hi+1 < lo:
			out = append(out, x)
		case hi+1 < x.lo:
			if !ins {
				out = append(out, ival{lo, hi})
				ins = true
			}
			out = append(out, x)
		default:
			if x.lo < lo {
				lo = x.lo
			}
			if x.hi > hi {
				hi = x.hi
			}
		}
	}
	if !ins {
		out = append(out, ival{lo, hi})
	}
	g[uuid] = out
}

func (g GTIDSet) Union(o GTIDSet) {
	for u, iv := range o {
		for _, x := range iv {
			g.addRange(u, x.lo, x.hi)
		}
	}
}

// Minus returns g \ o.
func (g GTIDSet) Minus(o GTIDSet) GTIDSet {
	r := GTIDSet{}
	for u, iv := range g {
		for _, x := range iv {
			lo := x.lo
			for _, y := range o[u] {
				if y.hi < lo || y.lo > x.hi {
					continue
				}
				if y.lo > lo {
					r.addRange(u, lo, y.lo-1)
				}
				lo = y.hi + 1
				if lo > x.hi {
					break
				}
			}
			if lo <= x.hi {
				r.addRange(u, lo, x.hi)
			}
		}
	}
	return r
}

func (g GTIDSet) SubsetOf(o GTIDSet) bool { return g.Minus(o).Empty() }

func (g GTIDSet) Equal(o GTIDSet) bool { return g.SubsetOf(o) && o.SubsetOf(g) }

func (g GTIDSet) Count() int64 {
	var n int64
	for _, iv := range g {
		for _, x := range iv {
			n += x.hi - x.lo + 1
		}
	}
	return n
}

func (g GTIDSet) String() string {
	us := make([]string, 0, len(g))
	for u, iv := range g {
		if len(iv) > 0 {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	var parts []string
	for _, u := range us {
		b := u
		for _, x := range g[u] {
			if x.lo == x.hi {
				b += fmt.Sprintf(":%d", x.lo)
			} else {
				b += fmt.Sprintf(":%d-%d", x.lo, x.hi)
			}
		}
		parts = append(parts, b)
	}
	return strings.Join(parts, ",\n")
}

func ParseGTIDSet(s string) (GTIDSet, error) {
	g := GTIDSet{}
	for _, part := range strings.Split(s, ",") {
		part = strings.TrimSpace(part)
		if part == "" {
			continue
		}
		f := strings.Split(part, ":")
		if len(f) < 2 || len(f[0]) != 36 {
			return nil, fmt.Errorf("malformed GTID set specification '%s'", s)
		}
		for _, r := range f[1:] {
			ab := strings.SplitN(r, "-", 2)
			lo, err := strconv.ParseInt(strings.TrimSpace(ab[0]), 10, 64)
			if err != nil {
				return nil, err
			}
			hi := lo
			if len(ab) == 2 {
				hi, err = strconv.ParseInt(strings.TrimSpace(ab[1]), 10, 64)
				if err != nil {
					return nil, err
				}
			}
			if lo < 1 || hi < lo {
				return nil, fmt.Errorf("bad interval %q", r)
			}
			g.addRange(f[0], lo, hi)
		}
	}
	return g, nil
}
