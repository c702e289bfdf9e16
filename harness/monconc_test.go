package ctngverif

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

func init() { multi["monconc"] = runMonConc }

// obsWant: what the specification says of one entry, in the form of an observation
func obsWant(a map[string]any, x any) map[string]string {
	o := map[string]string{}
	put := func(k string, l []string) {
		l = append([]string{}, l...)
		sort.Strings(l)
		o[k] = strings.Join(l, "\n")
	}
	m, _ := x.(map[string]any)
	switch str(a, "t") {
	case "query":
		put("ask", strs(m, "ask"))
		var f []string
		for _, y := range list(m, "fwd") {
			f = append(f, str(y.(map[string]any), "e"))
		}
		put("fwd", f)
	case "wait":
		put("acc", canonSet(x.([]any)))
	case "publish":
		for k, v := range wantUpdate(m) {
			put(k, v)
		}
	case "ask":
		o["ask"] = wantAnswer(m)
	}
	if m != nil && m["said"] != nil {
		for _, y := range list(m, "said") {
			s := y.(map[string]any)
			o[fmt.Sprintf("said%d", num(s, "j"))] = wantAnswer(rec(s, "x"))
		}
	}
	return o
}

func wantAnswer(m map[string]any) string {
	if m["ok"] != true {
		return "error"
	}
	return canon(wantUpdate(rec(m, "u")))
}

// runMonConc: the entries one after the other; what comes during a task, or together, under every schedule.
func runMonConc(t *testing.T, tr *Trace) (*Divergence, int, string) {
	tp := topoOf(tr.Init)
	tp.MonLoggers, tp.MonCAs = make([][]int, tp.NG), make([][]int, tp.NG)
	for _, e := range strs(tr.Init, "watched") {
		if e[0] == 'L' {
			tp.MonLoggers[0] = append(tp.MonLoggers[0], int(e[1]-'1'))
		} else {
			tp.MonCAs[0] = append(tp.MonCAs[0], int(e[1]-'1'))
		}
	}
	st := tr.Steps[0]
	var acts []map[string]any
	for _, x := range st.A["acts"].([]any) {
		acts = append(acts, x.(map[string]any))
	}
	var wants [][]map[string]string
	allowed := map[string]bool{}
	for _, o := range st.X.([]any) {
		var w []map[string]string
		for i, x := range o.([]any) {
			w = append(w, obsWant(acts[i], x))
		}
		wants = append(wants, w)
		allowed[canon(w)] = true
	}
	once := func(segs []seg) (ths []*thread, d *Divergence, herr string) {
		d, _, herr = inBubble(t, func(w *World) (*Divergence, int) {
			periodBase = 1
			dir, err := os.MkdirTemp(scratch, "monc")
			if err != nil {
				fatal("%v", err)
			}
			defer os.RemoveAll(dir)
			know := contents{}
			for _, e := range []string{"L1", "L2", "C1", "C2"} {
				know[payloadOf(gstmt("acc", e, "p0", 0))] = 0
			}
			var mu sync.Mutex
			var asked []string
			var sent []*Msg
			ans := map[string]map[string]any{}
			cur := "p0"
			w.route = func(m *Msg) (int, []byte, error) {
				mu.Lock()
				defer mu.Unlock()
				if m.To[0] == 'L' || m.To[0] == 'C' {
					asked = append(asked, m.To)
					return answerOf(ans[m.To], cur)
				}
				sent = append(sent, m)
				return 200, nil, nil
			}
			take := func() (a []string, s []*Msg) {
				mu.Lock()
				defer mu.Unlock()
				a, s = asked, sent
				asked, sent = nil, nil
				return
			}
			alignHour()
			startMonitor(tp, "M1", dir)
			start := time.Now().Add(60 * time.Second)
			per := -1
			at := func(d time.Duration) { time.Sleep(time.Until(start.Add(time.Duration(per)*time.Minute + d))) }
			wait := time.Duration(tp.Wait) * time.Second
			ask := func(q map[string]any) string {
				c, resp, _ := w.deliver("M1", "GET", "/monitor/get-update", []byte(canon(fmt.Sprint(num(q, "n")))))
				if c != 200 {
					return "error"
				}
				return canon(readUpdate(resp, know, periodLabel("p"+fmt.Sprint(num(q, "n")))))
			}
			var got []map[string]string
			for i, a := range acts {
				np := len(w.panics)
				ty := str(a, "t")
				o := map[string]string{}
				put := func(k string, l []string) {
					l = append([]string{}, l...)
					sort.Strings(l)
					o[k] = strings.Join(l, "\n")
				}
				var par []map[string]any
				if l, ok := a["par"].([]any); ok {
					for _, x := range l {
						par = append(par, x.(map[string]any))
					}
				}
				var when time.Duration
				switch ty {
				case "query":
					per++
					cur = str(a, "p")
					for _, y := range list(a, "ans") {
						x := y.(map[string]any)
						ans[str(x, "e")] = x
					}
				case "wait":
					when = wait
				case "publish":
					when = 40 * time.Second
				}
				var s *sched
				if len(par) > 0 {
					s = newSched()
				}
				if ty == "query" || ty == "wait" || ty == "publish" {
					at(when - time.Second/2)
					synctest.Wait()
					if s != nil {
						curSched.Store(s)
						s.adopt.Store(true)
					}
					at(when)
					synctest.Wait()
				}
				if s != nil {
					for j, x := range par {
						if str(x, "t") == "ask" {
							key, q := fmt.Sprintf("said%d", j+1), rec(x, "ask")
							s.spawn(func() {
								r := ask(q)
								mu.Lock()
								o[key] = r
								mu.Unlock()
							})
							continue
						}
						body := monInput(x, know)
						s.spawn(func() { w.deliver("M1", "POST", "/monitor/receive-gossip-from-gossiper", body) })
					}
					s.adopt.Store(false)
					s.takeAdopted()
					curSched.Store(s)
					s.run(segs)
					ths = s.ths
					if s.deadl {
						s.finish()
						return div(0, "stuck", "handlers wait for each other's locks", nil, nil), 0
					}
					s.finish()
				}
				switch ty {
				case "query", "wait", "publish":
					synctest.Wait()
					time.Sleep(200 * time.Millisecond)
					synctest.Wait()
				case "par":
					synctest.Wait()
				case "ask":
					o["ask"] = ask(rec(a, "ask"))
				default:
					if c, _, _ := w.deliverGo("M1", "POST", "/monitor/receive-gossip-from-gossiper", monInput(a, know)); c == -1 {
						return div(0, "stuck", "the handler does not return", nil, nil), 0
					}
					synctest.Wait()
				}
				if len(w.panics) > np {
					return div(0, "crash", "panic: "+w.panics[np], nil, nil), 0
				}
				q, m := take()
				var msgs []string
				for _, x := range m {
					r := project(x.Body)
					c := map[string]any{"m": r["m"], "e": r["e"], "p": r["p"]}
					switch {
					case ty == "query" && x.To == "G1":
						var g, b GObj
						e := fmt.Sprint(r["e"])
						_, body, _ := answerOf(ans[e], cur)
						if json.Unmarshal(x.Body, &g) == nil && json.Unmarshal(body, &b) == nil && string((&g).json()) == string((&b).json()) {
							msgs = append(msgs, e)
							continue
						}
					case ty == "wait" && x.To == "G1" && x.Path == "/gossip/acc_init" && r["by"] == "M1" && r["badsig"] == nil:
						msgs = append(msgs, canon(c))
						continue
					}
					msgs = append(msgs, "?"+x.To+x.Path+" "+canon(r))
				}
				switch ty {
				case "query":
					put("ask", q)
					put("fwd", msgs)
				case "wait":
					put("acc", append(msgs, q...))
				case "publish":
					c, body, err := w.deliverGo("M1", "GET", "/monitor/get-update", []byte(canon(fmt.Sprint(per))))
					if err == nil && c != 200 {
						o["none"] = fmt.Sprintf("status %d", c)
					}
					for k, v := range readUpdate(body, know, periodLabel(str(a, "p"))) {
						put(k, v)
					}
					fallthrough
				default:
					if len(msgs)+len(q) > 0 {
						put("msg", append(msgs, q...))
					}
				}
				got = append(got, o)
				_ = i
			}
			if allowed[canon(got)] {
				return nil, 1
			}
			best := -1
			var bd *Divergence
			for _, wt := range wants {
				diff := 0
				var cand *Divergence
				for i := range wt {
					keys := map[string]bool{}
					for k := range wt[i] {
						keys[k] = true
					}
					for k := range got[i] {
						keys[k] = true
					}
					for _, k := range []string{"none", "msg", "ask", "fwd", "acc", "con", "sth", "rev", "said1", "said2", "said3"} {
						if keys[k] && wt[i][k] != got[i][k] {
							diff++
							if cand == nil {
								cand = div(0, "mconc/"+str(acts[i], "t")+"/"+k, fmt.Sprintf("entry %d of the scenario is that of no admitted outcome (closest differs in %s)", i, k), wt[i][k], got[i][k])
							}
						}
					}
				}
				if best < 0 || diff < best {
					best, bd = diff, cand
				}
			}
			return bd, 1
		})
		return
	}
	return explore(tr, numd(tr.Init, "budget", 60), once)
}
