package ctngverif

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

func init() { runners["gossipnet"] = runGossipNet }

// runGossipNet replays a behaviour of GossipNet on several real gossipers; every message between them is held until the
// behaviour delivers it.
func runGossipNet(tr *Trace) (*Divergence, int) {
	w := W
	tp := topoOf(tr.Init)
	periodBase = 1
	var need []Step
	for _, s := range tr.Steps {
		if str(s.A, "act") == "inject" {
			need = append(need, s)
		}
	}
	if n := needNotes(need); len(n) > 0 {
		learnNotes(w, n)
	}
	var mu sync.Mutex
	var fresh []*Msg
	w.route = func(m *Msg) (int, []byte, error) {
		mu.Lock()
		fresh = append(fresh, m)
		mu.Unlock()
		return 200, nil, nil
	}
	for time.Now().UTC().Minute() != 0 || time.Now().UTC().Second() != 0 {
		time.Sleep(time.Second)
	}
	for i := 1; i <= tp.NG; i++ {
		startGossiper(tp, fmt.Sprintf("G%d", i))
	}
	time.Sleep(60 * time.Second)
	synctest.Wait()
	fresh = nil
	held := map[string][]*Msg{}
	half := time.Duration(tp.Wait) * time.Second / 2
	key := func(to string, r map[string]any) string {
		c := map[string]any{"to": to}
		for k, v := range r {
			switch k {
			case "to", "act":
			case "from":
				if r["m"] == "note" || r["m"] == "req" {
					c[k] = v
				}
			case "vs", "gs":
				c[k] = sorted(v)
			default:
				c[k] = v
			}
		}
		return canon(c)
	}
	n := 0
	for i, s := range tr.Steps {
		np := len(w.panics)
		act := str(s.A, "act")
		switch act {
		case "tick":
			time.Sleep(half)
		default:
			var to, path string
			var body []byte
			if act == "inject" {
				to = str(s.A, "at")
				path, body = inputOf(s.A)
			} else {
				to = str(s.A, "to")
				k := key(to, s.A)
				if len(held[k]) == 0 {
					fatal("no such message in flight: %s", k)
				}
				path, body = held[k][0].Path, held[k][0].Body
				held[k] = held[k][1:]
			}
			code, _, err := w.deliverGo(to, "POST", path, body)
			if len(w.panics) > np {
				return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
			}
			if code == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			if err != nil {
				fatal("deliver: %v", err)
			}
		}
		synctest.Wait()
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
		n++
		mu.Lock()
		got := fresh
		fresh = nil
		mu.Unlock()
		cnt := map[string]int{}
		info := map[string]map[string]any{}
		for _, x := range s.X.([]any) {
			r := x.(map[string]any)
			to := str(r, "to")
			if to == "mon" {
				to = "M" + str(r, "from")[1:]
			}
			k := key(to, r)
			cnt[k]++
			info[k] = r
		}
		for _, m := range got {
			r := projectMsg(m)
			k := key(m.To, r)
			cnt[k]--
			info[k] = r
			if strings.HasPrefix(m.To, "G") {
				held[k] = append(held[k], m)
			}
		}
		var missing, extra []string
		var first map[string]any
		ks := []string{}
		for k := range cnt {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if cnt[k] > 0 {
				missing = append(missing, k)
			} else if cnt[k] < 0 {
				extra = append(extra, k)
			}
			if cnt[k] != 0 && first == nil {
				first = info[k]
			}
		}
		if first != nil {
			return div(i, fmt.Sprintf("net/%v/%v", first["m"], first["k"]), fmt.Sprintf("messages after %s: %d missing, %d unexpected", act, len(missing), len(extra)),
				map[string]any{"missing": missing}, map[string]any{"unexpected": extra}), n
		}
	}
	// nothing may be left in flight, and nothing more may come
	time.Sleep(time.Duration(tp.Wait+5) * time.Second)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	if len(fresh) > 0 {
		return div(len(tr.Steps)-1, "net/late/"+fmt.Sprint(projectMsg(fresh[0])["m"]), fmt.Sprintf("%d messages after everything was delivered", len(fresh)), nil, projectMsg(fresh[0])), n
	}
	return nil, n
}

// sorted: the elements of a JSON array or slice in canonical order
func sorted(v any) []string {
	var r []string
	switch l := v.(type) {
	case []any:
		for _, x := range l {
			r = append(r, canon(x))
		}
	case []int:
		for _, x := range l {
			r = append(r, canon(x))
		}
	case []string:
		for _, x := range l {
			r = append(r, canon(x))
		}
	}
	sort.Strings(r)
	return r
}
