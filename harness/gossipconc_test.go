package ctngverif

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

func init() { multi["gossipconc"] = runGossipConc }

// bagOf: the messages of one entry of an outcome, as one string
func wantBag(x []any, self string, peers []string) string {
	miss, _, _ := diffOut(x, nil, self, peers)
	sort.Strings(miss)
	return strings.Join(miss, "\n")
}

func gotBag(ms []*Msg) string {
	var l []string
	for _, m := range ms {
		r := map[string]any{"to": m.To}
		for k, v := range projectMsg(m) {
			r[k] = v
		}
		l = append(l, canon(r))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// runGossipConc: the scenario's inputs `pre` one after the other, `ops` at once under every schedule, then `post`.
func runGossipConc(t *testing.T, tr *Trace) (*Divergence, int, string) {
	tp := topoOf(tr.Init)
	st := tr.Steps[0]
	peers := []string{}
	for i := 1; i < tp.NG; i++ {
		peers = append(peers, fmt.Sprintf("G%d", i+1))
	}
	lst := func(k string) (r []map[string]any) {
		l, _ := st.A[k].([]any)
		for _, x := range l {
			r = append(r, x.(map[string]any))
		}
		return
	}
	pre, ops, post := lst("pre"), lst("ops"), lst("post")
	allowed := map[string]bool{}
	for _, o := range st.X.([]any) {
		var b []string
		for _, e := range o.([]any) {
			b = append(b, wantBag(e.([]any), "G1", peers))
		}
		allowed[strings.Join(b, "\n--\n")] = true
	}
	if len(st.X.([]any)[0].([]any)) != len(pre)+len(post)+1 {
		return nil, 0, "outcome does not fit the scenario"
	}
	var need []Step
	for _, l := range [][]map[string]any{pre, ops, post} {
		for _, a := range l {
			need = append(need, Step{A: a})
		}
	}
	if e := learnApart(t, needNotes(need)); e != "" {
		return nil, 0, e
	}
	// once: one run in its own bubble
	once := func(segs []seg) (ths []*thread, d *Divergence, herr string) {
		d, _, herr = inBubble(t, func(w *World) (*Divergence, int) {
			periodBase = 1
			var sent sentLog
			w.route = func(m *Msg) (int, []byte, error) {
				sent.mu.Lock()
				sent.msgs = append(sent.msgs, m)
				sent.mu.Unlock()
				return 200, nil, nil
			}
			for time.Now().UTC().Minute() != 0 || time.Now().UTC().Second() != 0 {
				time.Sleep(time.Second)
			}
			startGossiper(tp, "G1")
			time.Sleep(60 * time.Second)
			synctest.Wait()
			sent.take()
			start := time.Now()
			per := 0
			wait := time.Duration(tp.Wait) * time.Second
			var got [][]*Msg
			single := func(a map[string]any) *Divergence {
				np := len(w.panics)
				switch str(a, "t") {
				case "drain":
					time.Sleep(wait + time.Second/2)
				case "edge":
					time.Sleep(time.Until(start.Add(time.Duration(per+1)*time.Minute - time.Second)))
				default:
					path, body := inputOf(a)
					code, _, err := w.deliverGo("G1", "POST", path, body)
					if code == -1 {
						return div(0, "stuck", "the handler does not return", nil, nil)
					}
					if err != nil && len(w.panics) == np {
						fatal("deliver: %v", err)
					}
				}
				synctest.Wait()
				if len(w.panics) > np {
					return div(0, "crash", "panic: "+w.panics[np], nil, nil)
				}
				got = append(got, sent.take())
				return nil
			}
			last := time.Now()
			for _, a := range pre {
				if str(a, "t") == "init" {
					last = time.Now()
				}
				if d := single(a); d != nil {
					return d, 0
				}
			}
			s := newSched()
			np := len(w.panics)
			for _, a := range ops {
				switch str(a, "t") {
				case "timer":
					curSched.Store(s)
					s.adopt.Store(true)
					time.Sleep(time.Until(last.Add(wait)))
					synctest.Wait()
				case "turn":
					per++
					curSched.Store(s)
					s.adopt.Store(true)
					time.Sleep(time.Until(start.Add(time.Duration(per) * time.Minute)))
					synctest.Wait()
				}
			}
			for _, a := range ops {
				if t := str(a, "t"); t != "timer" && t != "turn" {
					path, body := inputOf(a)
					s.spawn(func() { w.deliver("G1", "POST", path, body) })
				}
			}
			s.adopt.Store(false)
			s.takeAdopted()
			curSched.Store(s)
			s.run(segs)
			ths = s.ths
			if s.deadl {
				fr := []string{}
				for _, t := range s.ths {
					fr = append(fr, t.state)
				}
				s.finish()
				return div(0, "stuck", "handlers wait for each other's locks: "+strings.Join(fr, ","), nil, nil), 0
			}
			s.finish()
			synctest.Wait()
			if len(w.panics) > np {
				return div(0, "crash", "panic: "+w.panics[np], nil, nil), 0
			}
			got = append(got, sent.take())
			for _, a := range post {
				if d := single(a); d != nil {
					return d, 0
				}
			}
			var b []string
			for _, e := range got {
				b = append(b, gotBag(e))
			}
			if allowed[strings.Join(b, "\n--\n")] {
				return nil, 1
			}
			// closest admitted outcome
			best := -1
			var bd *Divergence
			for _, o := range st.X.([]any) {
				sum := 0
				var cand *Divergence
				for i, e := range o.([]any) {
					m, x, f := diffOut(e.([]any), got[i], "G1", peers)
					sum += len(m) + len(x)
					if cand == nil && len(m)+len(x) > 0 {
						what := "conc"
						if i < len(pre) {
							what = "conc-pre"
						} else if i > len(pre) {
							what = "conc-post"
						}
						kind := "missing"
						if len(m) == 0 {
							kind = "extra"
						}
						cand = div(0, fmt.Sprintf("%s/%v/%v/%s", what, f["m"], f["k"], kind), fmt.Sprintf("messages of the gossiper in entry %d of the scenario are those of no admitted outcome (closest: %d missing, %d unexpected)", i, len(m), len(x)),
							map[string]any{"missing": m}, map[string]any{"unexpected": x})
					}
				}
				if best < 0 || sum < best {
					best, bd = sum, cand
				}
			}
			return bd, 1
		})
		return
	}
	return explore(tr, numd(tr.Init, "budget", 120), once)
}

// learnApart is learnNotes in a bubble of its own.
func learnApart(t *testing.T, need [][3]string) (herr string) {
	for _, n := range need {
		if _, ok := noteHash[n[0]+"|"+n[1]+"|"+n[2]]; !ok {
			_, _, herr = inBubble(t, func(w *World) (*Divergence, int) {
				periodBase = 1
				learnNotes(w, need)
				return nil, 0
			})
			return
		}
	}
	return
}
