package ctngverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/jik18001/CTngV2/monitor"
)

func init() { runners["monitor"] = runMonitor }

func startMonitor(tp Topo, name, dir string) *monitor.MonitorContext {
	d := configDir(tp)
	id := nameToID(name)
	ctx := monitor.InitializeMonitorContext(filepath.Join(d, id+".pub"), filepath.Join(d, id+".priv"), filepath.Join(d, id+".crypto"), name)
	ctx.InitializeMonitorStorage(dir)
	ctx.Max_latency = 0
	ctx.Period_Offset = fmt.Sprint(periodBase)
	go monitor.StartMonitorServer(ctx)
	return ctx
}

// known: payload text -> content number, for reading objects back
type contents map[[3]string]int

func (c contents) read(g *GObj) map[string]any {
	t := urlType[g.Type]
	k := map[string]string{"STH": "sth", "REV": "rev", "ACC": "acc", "CON": "con"}[strings.Split(t+"_", "_")[0]]
	r := map[string]any{"e": idToName(g.Payload[0]), "p": labelPeriod(g.Period), "k": k}
	text := g.Payload[0] + g.Payload[1] + g.Payload[2]
	v, ok := c[g.Payload]
	if !ok {
		v = -1
	}
	switch {
	case strings.HasSuffix(t, "_FULL"):
		r["m"], r["v"] = "full", v
		ids, ok := fullOK(g.Signature[0], text)
		if !ok || len(ids) < 2 {
			r["badsig"] = true
		}
	case t == "CON_INIT":
		r["m"], r["k"] = "con", "sth"
		if strings.Contains(g.Payload[1], "CRV{") {
			r["k"] = "rev"
		}
		if !rsaOK(g.Payload[0], g.Signature[0], g.Payload[1]) || !rsaOK(g.Payload[0], g.Signature[1], g.Payload[2]) || g.Payload[1] == g.Payload[2] {
			r["badsig"] = true
		}
	default:
		r["m"] = t
	}
	return r
}

// canonSet: order-insensitive canonical form
func canonSet(l []any) []string {
	r := []string{}
	for _, x := range l {
		r = append(r, canon(x))
	}
	sort.Strings(r)
	return r
}

type updateDoc struct {
	STHs, REVs, POM_CONs, POM_ACCs []GObj
	MonitorID, Period               string
}

// readUpdate projects a published update to what the specification says about it.
func readUpdate(body []byte, know contents, period string) map[string][]string {
	var u updateDoc
	out := map[string][]string{"sth": {}, "rev": {}, "acc": {}, "con": {}}
	if err := json.Unmarshal(body, &u); err != nil {
		out["sth"] = []string{"unreadable: " + err.Error()}
		return out
	}
	add := func(f string, l []GObj) {
		var x []any
		last := map[string]string{}
		for i := range l {
			r := know.read(&l[i])
			if f == "rev" { // a CA's revocations have to be listed in order
				e := fmt.Sprint(r["e"])
				if last[e] > fmt.Sprint(r["p"]) {
					r["disorder"] = true
				}
				last[e] = fmt.Sprint(r["p"])
			}
			x = append(x, r)
		}
		out[f] = canonSet(x)
	}
	add("sth", u.STHs)
	add("rev", u.REVs)
	add("acc", u.POM_ACCs)
	add("con", u.POM_CONs)
	if u.MonitorID != nameToID("M1") || u.Period != period {
		out["sth"] = append(out["sth"], fmt.Sprintf("update labelled %s %s", idToName(u.MonitorID), u.Period))
	}
	return out
}

func wantUpdate(x map[string]any) map[string][]string {
	out := map[string][]string{}
	for _, f := range []string{"sth", "rev", "acc", "con"} {
		out[f] = canonSet(list(x, f))
	}
	return out
}

func stampOf(p string) string {
	var k int
	fmt.Sscanf(p, "p%d", &k)
	return fmt.Sprintf("2000-01-01T00:%02d:30Z", periodBase+k)
}

// monInput is the body of an input from the gossiper.
func monInput(a map[string]any, know contents) []byte {
	k := strd(a, "k", "")
	switch str(a, "t") {
	case "init":
		return initObjOf(gstmtA(a, k, str(a, "e"), str(a, "p"), num(a, "v")), k, str(a, "e"), str(a, "p"), num(a, "v")).json()
	case "full":
		st := gstmtA(a, k, str(a, "e"), str(a, "p"), num(a, "v"))
		gs := []string{"G1", "G2"}
		if s, ok := a["gs"]; ok && s != nil {
			gs = strs(a, "gs")
		}
		o := fullObjOf(st, k, str(a, "e"), str(a, "p"), gs)
		o.Timestamp = stampOf(str(a, "p"))
		know[o.Payload] = num(a, "v")
		return o.json()
	case "frag":
		return fragObj(k, str(a, "e"), str(a, "p"), num(a, "v"), "G1", false).json()
	case "con":
		return conObj(k, str(a, "e"), str(a, "p"), 1, 2).json()
	case "bad":
		_, b := badBody(str(a, "b"))
		return b
	}
	fatal("bad input %v", a)
	return nil
}

// answerOf is what a queried entity answers.
func answerOf(x map[string]any, p string) (int, []byte, error) {
	e, k := str(x, "e"), str(x, "k")
	prev := "p" + fmt.Sprint(int(p[1]-'0')-1)
	next := "p" + fmt.Sprint(int(p[1]-'0')+1)
	other := map[string]string{"L1": "L2", "L2": "L1", "C1": "C2", "C2": "C1"}[e]
	own := func() *GObj {
		v := numd(x, "v", 1)
		return initObjOf(gstmtA(x, k, e, p, v), k, e, p, v)
	}
	switch str(x, "a") {
	case "stmt", "slow", "hang":
		return 200, own().json(), nil
	case "slowbad":
		return 200, []byte("<html>no</html>"), nil
	case "refused":
		return 0, nil, errRefused
	case "timeout":
		return 0, nil, errors.New("i/o timeout")
	case "error":
		return 500, []byte("internal error\n"), nil
	case "empty":
		return 200, nil, nil
	case "null":
		return 200, []byte("null"), nil
	case "garbage":
		return 200, []byte("<html>no</html>"), nil
	case "forged":
		o := own()
		o.Signature[0] = rsaSigString(rsaRaw("X1", o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID(e))
		return 200, o.json(), nil
	case "altered": // the content was exchanged under the signature
		o := own()
		q := initObjOf(gstmt(k, e, p, 2), k, e, p, 2)
		o.Payload = q.Payload
		return 200, o.json(), nil
	case "other": // a valid statement, but of another entity
		return 200, initObjOf(gstmtA(x, k, other, p, 1), k, other, p, 1).json(), nil
	case "othertype": // valid, its own and of this period, but not what was asked for
		return 200, fullObjOf(gstmtA(x, k, e, p, 1), k, e, p, []string{"G1", "G2"}).json(), nil
	case "kind": // a statement of the other kind
		k2 := map[string]string{"sth": "rev", "rev": "sth"}[k]
		return 200, initObjOf(gstmt(k2, e, p, 1), k2, e, p, 1).json(), nil
	case "stale":
		return 200, initObjOf(gstmtA(x, k, e, prev, 1), k, e, prev, 1).json(), nil
	case "early":
		return 200, initObjOf(gstmtA(x, k, e, next, 1), k, e, next, 1).json(), nil
	case "relabel": // an old statement under a new label
		o := initObjOf(gstmtA(x, k, e, prev, 1), k, e, prev, 1)
		o.Period = periodLabel(p)
		return 200, o.json(), nil
	case "outsider":
		o := own()
		o.Signer = nameToID("X1")
		o.Signature[0] = rsaSigString(rsaRaw("X1", o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID("X1"))
		return 200, o.json(), nil
	}
	fatal("bad answer %v", x)
	return 0, nil, nil
}

func alignHour() {
	now := time.Now().UTC()
	time.Sleep(now.Truncate(time.Hour).Add(time.Hour).Sub(now))
}

func runMonitor(tr *Trace) (*Divergence, int) {
	w := W
	tp := topoOf(tr.Init)
	periodBase = 1
	tp.MonLoggers, tp.MonCAs = make([][]int, tp.NG), make([][]int, tp.NG)
	for _, e := range strs(tr.Init, "watched") {
		if e[0] == 'L' {
			tp.MonLoggers[0] = append(tp.MonLoggers[0], int(e[1]-'1'))
		} else {
			tp.MonCAs[0] = append(tp.MonCAs[0], int(e[1]-'1'))
		}
	}
	dir, err := os.MkdirTemp(scratch, "mon")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	know := contents{}
	for _, e := range []string{"L1", "L2", "C1", "C2"} {
		know[payloadOf(gstmt("acc", e, "p0", 0))] = 0
	}
	var mu sync.Mutex
	var asked []string
	var sent []*Msg
	ans := map[string][]byte{}
	code := map[string]int{}
	fail := map[string]error{}
	delay := map[string]time.Duration{}
	w.route = func(m *Msg) (int, []byte, error) {
		mu.Lock()
		defer mu.Unlock()
		if m.To[0] == 'L' || m.To[0] == 'C' {
			want := map[byte]string{'L': "/ctng/v2/get-sth", 'C': "/ctng/v2/get-revocation"}[m.To[0]]
			if strings.TrimSuffix(m.Path, "/") != want || m.Method != "GET" {
				asked = append(asked, m.To+" "+m.Method+" "+m.Path)
				return 404, []byte("404 page not found\n"), nil
			}
			asked = append(asked, m.To)
			if d := delay[m.To]; d > 0 {
				c, b, e := code[m.To], ans[m.To], fail[m.To]
				mu.Unlock()
				select {
				case <-time.After(d):
				case <-w.stop:
					c, b, e = 0, nil, errRefused
				case <-m.Done:
					c, b, e = 0, nil, context.DeadlineExceeded
				}
				mu.Lock()
				return c, b, e
			}
			return code[m.To], ans[m.To], fail[m.To]
		}
		sent = append(sent, m)
		return reach(tr, m.To)
	}
	take := func() (a []string, s []*Msg) {
		mu.Lock()
		defer mu.Unlock()
		a, s = asked, sent
		asked, sent = nil, nil
		return
	}
	alignHour()
	startMonitor(tp, "M1", dir)
	start := time.Now().Add(60 * time.Second)
	per := -1
	at := func(d time.Duration) { time.Sleep(time.Until(start.Add(time.Duration(per)*time.Minute + d))) }
	wait := time.Duration(tp.Wait) * time.Second
	n := 0
	msgs := func(l []*Msg) (r []any) {
		for _, m := range l {
			q := project(m.Body)
			c := map[string]any{"to": m.To, "path": m.Path}
			for k, v := range q {
				c[k] = v
			}
			r = append(r, c)
		}
		return
	}
	for i, s := range tr.Steps {
		n++
		np := len(w.panics)
		t := str(s.A, "t")
		switch t {
		case "query":
			per++
			p := str(s.A, "p")
			mu.Lock()
			bodies := map[string][]byte{}
			for _, y := range list(s.A, "ans") {
				x := y.(map[string]any)
				e := str(x, "e")
				code[e], ans[e], fail[e] = answerOf(x, p)
				bodies[e] = ans[e]
				delay[e] = map[string]time.Duration{"hang": 3 * time.Minute, "slow": 2 * time.Second, "slowbad": 2 * time.Second}[str(x, "a")]
			}
			mu.Unlock()
			at(0)
			synctest.Wait()
			time.Sleep(2200 * time.Millisecond) // slow answers take two seconds
			synctest.Wait()
			a, m := take()
			x := s.X.(map[string]any)
			a = append([]string{}, a...)
			sort.Strings(a)
			want := append([]string{}, strs(x, "ask")...)
			sort.Strings(want)
			if canon(a) != canon(want) {
				return div(i, "query/ask", "entities queried", want, a), n
			}
			// what is passed on has to be the answer as it was
			exp := []string{}
			for _, f := range list(x, "fwd") {
				exp = append(exp, str(f.(map[string]any), "e"))
			}
			sort.Strings(exp)
			got := []string{}
			for _, q := range m {
				e := ""
				for en, body := range bodies {
					var g, b GObj
					if json.Unmarshal(body, &b) == nil && json.Unmarshal(q.Body, &g) == nil && bytes.Equal((&g).json(), (&b).json()) && g.Payload[0] == nameToID(en) {
						e = en
					}
				}
				if e == "" || q.To != "G1" || q.Path != map[byte]string{'L': "/gossip/sth_init", 'C': "/gossip/rev_init"}[e[0]] {
					e = "?" + q.To + q.Path + " " + canon(project(q.Body))
				}
				got = append(got, e)
			}
			sort.Strings(got)
			if canon(got) != canon(exp) {
				return div(i, "query/fwd", "answers passed to the gossiper", exp, got), n
			}
		case "wait":
			at(wait - time.Second)
			synctest.Wait()
			if _, m := take(); len(m) > 0 {
				return div(i, "wait/early", "messages before the waiting time was over", nil, msgs(m)), n
			}
			at(wait + time.Second)
			synctest.Wait()
			a, m := take()
			if len(a) > 0 {
				return div(i, "wait/ask", "unexpected queries", nil, a), n
			}
			got, want := []any{}, []any{}
			for _, q := range m {
				r := project(q.Body)
				c := map[string]any{"m": r["m"], "e": r["e"], "p": r["p"]}
				if r["by"] != "M1" || r["badsig"] != nil || q.To != "G1" || q.Path != "/gossip/acc_init" {
					c["wrong"] = canon(r) + q.To + q.Path
				}
				got = append(got, c)
			}
			for _, o := range s.X.([]any) {
				want = append(want, o)
			}
			if canon(canonSet(got)) != canon(canonSet(want)) {
				return div(i, "wait/acc", "accusations", canonSet(want), canonSet(got)), n
			}
		case "publish":
			at(38 * time.Second)
			synctest.Wait()
			at(42 * time.Second)
			synctest.Wait()
			if a, m := take(); len(a)+len(m) > 0 {
				return div(i, "publish/msg", "unexpected messages", nil, []any{a, msgs(m)}), n
			}
			c, body, err := w.deliverGo("M1", "GET", "/monitor/get-update", []byte(canon(fmt.Sprint(per))))
			if err == nil && c != 200 {
				return div(i, "publish/none", fmt.Sprintf("published update is answered with status %d", c), nil, string(body)), n
			}
			want := wantUpdate(s.X.(map[string]any))
			got := readUpdate(body, know, periodLabel(str(s.A, "p")))
			for _, f := range []string{"con", "acc", "sth", "rev"} {
				if canon(want[f]) != canon(got[f]) {
					return div(i, "publish/"+f, "contents of the update of "+str(s.A, "p"), want[f], got[f]), n
				}
			}
		case "restart":
			startMonitor(tp, "M1", dir)
			per++
			at(500 * time.Millisecond)
			synctest.Wait()
			take()
		case "ask":
			q := rec(s.A, "ask")
			var body []byte
			if _, ok := q["n"]; ok {
				body = []byte(canon(fmt.Sprint(num(q, "n"))))
			} else if _, ok := q["s"]; ok {
				body = []byte(canon(str(q, "s")))
			} else {
				body = []byte(str(q, "raw"))
			}
			c, resp, err := w.deliverGo("M1", "GET", "/monitor/get-update", body)
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			if err == nil {
				x := s.X.(map[string]any)
				if (c == 200) != (x["ok"] == true) {
					return div(i, "ask/status", fmt.Sprintf("request %s is answered with status %d", body, c), x["ok"], string(resp)), n
				}
				if x["ok"] == true {
					want, got := wantUpdate(rec(x, "u")), readUpdate(resp, know, periodLabel("p"+fmt.Sprint(num(q, "n"))))
					if canon(want) != canon(got) {
						return div(i, "ask/update", "update of period "+string(body), want, got), n
					}
				}
			}
		default:
			c, _, err := w.deliverGo("M1", "POST", "/monitor/receive-gossip-from-gossiper", monInput(s.A, know))
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			_ = err
			synctest.Wait()
			if a, m := take(); len(a)+len(m) > 0 {
				return div(i, "feed/"+t, "unexpected messages", nil, []any{a, msgs(m)}), n
			}
		}
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
	}
	return nil, n
}
