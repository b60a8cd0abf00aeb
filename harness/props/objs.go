package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/util"

	"molecheck/core"
	"molecheck/pbt"
)

// ObjCase is a number of JSON objects and a few integers for the slice helpers.
type ObjCase struct {
	Maps []map[string]any `json:"maps"`
	Path []string         `json:"path"`
	Ints []int            `json:"ints"`
	At   int              `json:"at"`
	Stop int              `json:"stop"`
}

type obj = map[string]any

func genObj(t *pbt.T, d int) obj {
	m := obj{}
	for n := t.Geo(3, 4); n > 0; n-- {
		m[pbt.Pick(t, "a", "b", "c", "d")] = genVal(t, d)
	}
	return m
}

func genVal(t *pbt.T, d int) any {
	w := []int{2, 2, 1, 1, 6, 2}
	if d <= 0 {
		w = w[:4]
	}
	switch t.Weighted(w...) {
	case 0:
		return float64(t.Intn(5))
	case 1:
		return pbt.Pick(t, "", "x", "y")
	case 2:
		return t.Bool()
	case 3:
		return nil
	case 4:
		return genObj(t, d-1)
	}
	l := []any{}
	for n := t.Geo(2, 3); n > 0; n-- {
		l = append(l, genVal(t, d-1))
	}
	return l
}

func cloneVal(v any) any {
	switch v := v.(type) {
	case obj:
		m := obj{}
		for k, c := range v {
			m[k] = cloneVal(c)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i, c := range v {
			l[i] = cloneVal(c)
		}
		return l
	}
	return v
}

// leaves and all values by path
func paths(v any, at []string, leaf, all map[string]any) {
	switch v := v.(type) {
	case obj:
		for k, c := range v {
			paths2(c, at, k, leaf, all)
		}
	case []any:
		for i, c := range v {
			paths2(c, at, strconv.Itoa(i), leaf, all)
		}
	}
}

func paths2(c any, at []string, k string, leaf, all map[string]any) {
	p := append(append([]string{}, at...), k)
	s := strings.Join(p, ".")
	all[s] = c
	switch c.(type) {
	case obj, []any:
		paths(c, p, leaf, all)
	default:
		leaf[s] = c
	}
}

// refMerge: later maps win, maps are merged, null keeps what is there.
func refMerge(maps []obj) obj {
	out := obj{}
	var keys []string
	seen := map[string]bool{}
	for _, m := range maps {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
	}
	for _, k := range keys {
		var grp []obj // the maps merged under k since the last plain value
		var val any
		for _, m := range maps {
			v, ok := m[k]
			if !ok || v == nil {
				continue
			}
			if o, ok := v.(obj); ok {
				grp = append(grp, o)
				val = nil
			} else {
				grp, val = nil, v
			}
		}
		if grp != nil {
			out[k] = refMerge(grp)
		} else if val != nil {
			out[k] = val
		}
	}
	return out
}

func refGet(m obj, path []string) any {
	var v any = m
	for _, k := range path {
		o, ok := v.(obj)
		if !ok {
			return nil
		}
		v = o[k]
	}
	return v
}

func checkObjs(in *ObjCase) string {
	maps := make([]obj, len(in.Maps))
	for i, m := range in.Maps {
		maps[i] = cloneVal(m).(obj)
	}
	same := func(what string) string {
		if !reflect.DeepEqual(maps, in.Maps) && len(maps) > 0 {
			return what + " changes its argument"
		}
		return ""
	}
	m := maps[0]
	leaf, all := map[string]any{}, map[string]any{}
	paths(m, nil, leaf, all)
	if got := util.FlattenMap(m); !reflect.DeepEqual(got, leaf) {
		return fmt.Sprintf("FlattenMap gives %v, not %v", got, leaf)
	}
	js, _ := json.Marshal(m)
	if got, err := util.JsonToKeyPathAndVal(string(js)); err != nil || !reflect.DeepEqual(got, leaf) {
		return fmt.Sprintf("JsonToKeyPathAndVal gives %v %v, not %v", got, err, leaf)
	}
	if got, err := util.JsonToKeyPathAndVal(string(js[:len(js)-1])); err == nil {
		return fmt.Sprintf("JsonToKeyPathAndVal accepts bad JSON: %v", got)
	}
	seen := map[string]int{}
	calls, bad := 0, ""
	done := util.WalkObj(m, nil, func(path []string, val, key, parent any, arr bool) bool {
		p := strings.Join(path, ".")
		seen[p]++
		calls++
		if w, ok := all[p]; !ok || !reflect.DeepEqual(w, val) {
			bad = fmt.Sprintf("WalkObj gives %v at %s", val, p)
		}
		if len(path) > 1 && seen[strings.Join(path[:len(path)-1], ".")] == 0 {
			bad = "WalkObj visits " + p + " before its container"
		}
		var held any
		switch c := parent.(type) {
		case obj:
			k, ok := key.(string)
			if arr || !ok || k != path[len(path)-1] {
				bad = fmt.Sprintf("WalkObj: key %v arr %v at %s", key, arr, p)
			}
			held = c[k]
		case []any:
			i, ok := key.(int)
			if !arr || !ok || strconv.Itoa(i) != path[len(path)-1] {
				bad = fmt.Sprintf("WalkObj: key %v arr %v at %s", key, arr, p)
			} else {
				held = c[i]
			}
		}
		if !reflect.DeepEqual(held, val) {
			bad = "WalkObj: the parent does not hold the value at " + p
		}
		return calls != in.Stop
	}, nil, nil, false)
	if bad != "" {
		return bad
	}
	stop := in.Stop > 0 && in.Stop <= len(all)
	if done == stop || stop && calls != in.Stop {
		return fmt.Sprintf("WalkObj returned %v after %d calls, stop at %d", done, calls, in.Stop)
	}
	for p, n := range seen {
		if n != 1 {
			return fmt.Sprintf("WalkObj visits %s %d times", p, n)
		}
	}
	if !stop && len(seen) != len(all) {
		return fmt.Sprintf("WalkObj visits %d of %d values", len(seen), len(all))
	}
	if got, want := util.GetByPath(m, in.Path), refGet(m, in.Path); !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("GetByPath(%v) is %v, not %v", in.Path, got, want)
	}
	if s := same("reading"); s != "" {
		return s
	}
	dst := obj{}
	util.MergeMaps(dst, maps...)
	want := refMerge(maps)
	if !reflect.DeepEqual(dst, want) {
		return fmt.Sprintf("MergeMaps gives %v, not %v", dst, want)
	}
	if s := same("MergeMaps"); s != "" {
		return s
	}
	if len(maps) > 1 {
		dst := cloneVal(m).(obj)
		util.Merge(dst, maps[1])
		for k := range dst {
			w, ok := m[k]
			if !ok {
				w, ok = maps[1][k]
			}
			if !ok || !reflect.DeepEqual(dst[k], w) {
				return "Merge: " + k
			}
		}
		for _, x := range maps[:2] {
			for k := range x {
				if _, ok := dst[k]; !ok {
					return "Merge drops " + k
				}
			}
		}
	}
	c := util.CloneMap(m)
	if !reflect.DeepEqual(c, m) {
		return "CloneMap differs"
	}
	for n := len(c); n > 0; n-- {
		if len(c) != n {
			return "TakeOne does not take one"
		}
		k, v := util.PickOnePair(c)
		if !reflect.DeepEqual(c[k], v) {
			return "PickOnePair gives no pair"
		}
		v = util.PickOne(c)
		if !hasVal(c, v) {
			return "PickOne gives no value"
		}
		b := util.CloneMap(c)
		v = util.TakeOne(c)
		for k := range c {
			delete(b, k)
		}
		if len(b) != 1 || !hasVal(b, v) {
			return fmt.Sprintf("TakeOne gives %v and removes %v", v, b)
		}
	}
	if s := same("cloning and taking from the clone"); s != "" {
		return s
	}
	ints := util.Copy(in.Ints)
	if len(ints) != len(in.Ints) {
		return "Copy"
	}
	if len(ints) > 0 {
		i := in.At % len(ints)
		gone := ints[i]
		util.RemoveAt(&ints, i)
		w := append(append([]int{}, in.Ints[:i]...), in.Ints[i+1:]...)
		g := append([]int{}, ints...)
		sort.Ints(w)
		sort.Ints(g)
		if !reflect.DeepEqual(w, g) {
			return fmt.Sprintf("RemoveAt(%d) of %v leaves %v", i, in.Ints, ints)
		}
		if util.Includes(ints, gone) != hasInt(w, gone) {
			return "Includes"
		}
		util.Copy(in.Ints)[0] = -1
		if in.Ints[0] == -1 {
			return "Copy shares its elements"
		}
	}
	if util.Includes(in.Ints, 99) || len(in.Ints) > 0 && !util.Includes(in.Ints, in.Ints[len(in.Ints)-1]) {
		return "Includes"
	}
	return ""
}

func hasVal(m obj, v any) bool {
	for _, x := range m {
		if reflect.DeepEqual(x, v) {
			return true
		}
	}
	return false
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func init() {
	core.Def(core.Prop{ID: "P25", Quick: 2000000, Thorough: 20000000,
		Rule: "two objects with a nested object under the same key, or a value two levels deep"},
		func(t *pbt.T) *ObjCase {
			in := &ObjCase{}
			for n := 1 + t.Intn(4); n > 0; n-- {
				in.Maps = append(in.Maps, genObj(t, 3))
			}
			for n := t.Intn(4); n > 0; n-- {
				in.Path = append(in.Path, pbt.Pick(t, "a", "b", "c", "d", "0"))
			}
			for n := t.Intn(5); n > 0; n-- {
				in.Ints = append(in.Ints, t.Intn(4))
			}
			in.At = t.Intn(5)
			in.Stop = t.Intn(8)
			return in
		},
		func(in *ObjCase) core.Outcome {
			if len(in.Maps) == 0 {
				return core.Skip("empty")
			}
			if s := checkObjs(in); s != "" {
				return core.Failf("%s", s)
			}
			deep := false
			for i, m := range in.Maps {
				for k, v := range m {
					o, ok := v.(obj)
					if ok && len(o) > 0 {
						for _, m2 := range in.Maps[:i] {
							if _, ok := m2[k].(obj); ok {
								deep = true
							}
						}
						for _, c := range o {
							if _, ok := c.(obj); ok {
								deep = true
							}
						}
					}
				}
			}
			return core.Outcome{Trivial: !deep}
		})
}
