package main

import (
	"bytes"
	"encoding/json"
	"sync"
	"time"
)

// Generic shrinking of the JSON form of a case: remove chunks of lists, shrink integers, shorten strings, clear booleans.
// Every interpreter is total, so any such change is still a case of the property's domain.

func decode(js []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	var v interface{}
	_ = d.Decode(&v)
	return v
}

type edit struct {
	path []interface{}
	kind int // 0 remove [a,b) of array, 1 replace by value
	a, b int
	val  interface{}
}

func edits(v interface{}, path []interface{}, out *[]edit, pass int) {
	cp := func() []interface{} { return append([]interface{}{}, path...) }
	switch x := v.(type) {
	case []interface{}:
		n := len(x)
		if pass == 0 {
			for sz := n; sz >= 1; sz /= 2 {
				for a := n - sz; ; a -= sz {
					if a < 0 {
						a = 0
					}
					*out = append(*out, edit{cp(), 0, a, a + sz, nil})
					if a == 0 {
						break
					}
				}
			}
		}
		for i := n - 1; i >= 0; i-- {
			edits(x[i], append(path, i), out, pass)
		}
	case map[string]interface{}:
		for _, k := range mapKeys(x) {
			edits(x[k], append(path, k), out, pass)
		}
	case json.Number:
		if pass == 1 {
			n, err := x.Int64()
			if err == nil && n != 0 {
				cands := []int64{0, n / 2, n - 1}
				if n < 0 {
					cands = []int64{0, n / 2, n + 1}
				}
				for _, c := range cands {
					if c != n {
						*out = append(*out, edit{cp(), 1, 0, 0, c})
					}
				}
			}
		}
	case string:
		if pass == 1 && len(x) > 0 {
			*out = append(*out, edit{cp(), 1, 0, 0, ""})
			if len(x) > 3 {
				*out = append(*out, edit{cp(), 1, 0, 0, x[:len(x)/4*2]})
			}
		}
	case bool:
		if pass == 1 && x {
			*out = append(*out, edit{cp(), 1, 0, 0, false})
		}
	}
}

func mapKeys(m map[string]interface{}) []string {
	mi := map[string]int{}
	for k := range m {
		mi[k] = 0
	}
	return sortedKeys(mi)
}

func applyEdit(v interface{}, e edit, depth int) interface{} {
	if depth == len(e.path) {
		if e.kind == 1 {
			return e.val
		}
		arr := v.([]interface{})
		res := append([]interface{}{}, arr[:e.a]...)
		return append(res, arr[e.b:]...)
	}
	switch x := v.(type) {
	case []interface{}:
		res := append([]interface{}{}, x...)
		i := e.path[depth].(int)
		res[i] = applyEdit(x[i], e, depth+1)
		return res
	case map[string]interface{}:
		res := map[string]interface{}{}
		for k, c := range x {
			res[k] = c
		}
		k := e.path[depth].(string)
		res[k] = applyEdit(x[k], e, depth+1)
		return res
	}
	return v
}

func shrink(c *Check, js []byte, msg string, budget time.Duration) ([]byte, string) {
	end := time.Now().Add(budget)
	best, bestMsg := js, msg
	tried := map[string]bool{}
	for round := 0; round < 6; round++ {
		improved := false
		for pass := 0; pass < 2; pass++ {
		restart:
			var es []edit
			cur := decode(best)
			edits(cur, nil, &es, pass)
			const par = 8
			for i := 0; i < len(es); {
				if time.Now().After(end) {
					return best, bestMsg
				}
				var batch [][]byte
				for ; i < len(es) && len(batch) < par; i++ {
					cand := caseJSON(applyEdit(cur, es[i], 0))
					if tried[string(cand)] {
						continue
					}
					tried[string(cand)] = true
					fresh := c.New()
					if json.Unmarshal(cand, fresh) != nil {
						continue
					}
					batch = append(batch, cand)
				}
				results := make([]childResult, len(batch))
				var wg sync.WaitGroup
				for k := range batch {
					wg.Add(1)
					go func(k int) { defer wg.Done(); results[k] = runOne(c, batch[k]) }(k)
				}
				wg.Wait()
				for k := range batch {
					if results[k].status == "fail" {
						best, bestMsg = batch[k], results[k].msg
						improved = true
						goto restart
					}
				}
			}
		}
		if !improved {
			break
		}
	}
	return best, bestMsg
}
