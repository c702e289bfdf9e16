package ctngverif

import (
	"bytes"
	"compress/gzip"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/monitor"
)

func init() { runners["revocation"] = runRevocation }

// deltaOf: the numbers a revocation statement adds
func deltaOf(g *GObj) ([]int, string) {
	var d struct {
		Period    string
		Delta_CRV []byte
		SRH       string
	}
	if err := json.Unmarshal([]byte(g.Payload[2]), &d); err != nil {
		return nil, "content unreadable: " + err.Error()
	}
	if d.Period != g.Period {
		return nil, fmt.Sprintf("inside period %s, outside %s", d.Period, g.Period)
	}
	zr, err := gzip.NewReader(bytes.NewReader(d.Delta_CRV))
	if err != nil {
		return nil, err.Error()
	}
	b, err := io.ReadAll(zr)
	if err != nil {
		return nil, err.Error()
	}
	var bs bitset.BitSet
	if err := bs.UnmarshalBinary(b); err != nil {
		return nil, err.Error()
	}
	r := []int{}
	for i, ok := bs.NextSet(0); ok; i, ok = bs.NextSet(i + 1) {
		r = append(r, int(i))
	}
	return r, ""
}

func readREV(body []byte, ca string) (g GObj, d []int, why string) {
	if err := json.Unmarshal(body, &g); err != nil {
		return g, nil, "unreadable: " + err.Error()
	}
	if urlType[g.Type] != "REV_INIT" || g.Signer != nameToID(ca) || g.Payload[0] != nameToID(ca) {
		return g, nil, fmt.Sprintf("%s of %s about %s", urlType[g.Type], idToName(g.Signer), idToName(g.Payload[0]))
	}
	if !rsaOK(g.Signer, g.Signature[0], g.Payload[0]+g.Payload[1]+g.Payload[2]) {
		return g, nil, "signature does not verify"
	}
	d, why = deltaOf(&g)
	return
}

// endorse: the threshold object gossip makes of a statement
func endorse(g GObj) *GObj {
	text := g.Payload[0] + g.Payload[1] + g.Payload[2]
	t := strings.Replace(urlType[g.Type], "_INIT", "_FULL", 1)
	return &GObj{Application: g.Application, Period: g.Period, Type: typeURL[t], Signers: []string{nameToID("G1"), nameToID("G2")},
		Signature: [2]string{fullSigString([]string{"G1", "G2"}, []string{"G1", "G2"}, text), ""}, Timestamp: time.Now().UTC().Format(time.RFC3339),
		Crypto_Scheme: "bls", Payload: g.Payload}
}

var revocCerts = map[string]*x509.Certificate{}
var revocTree *mtree

func runRevocation(tr *Trace) (*Divergence, int) {
	w := W
	tp := Topo{NG: 4, T: 2, NL: 2, NC: 2, Wait: 5, MMD: 60, Cert: 0}
	cas := strs(tr.Init, "cas")
	mass := num(tr.Init, "mass")
	nums := ints(list(tr.Init, "nums"))
	tp.MonLoggers, tp.MonCAs = make([][]int, tp.NG), make([][]int, tp.NG)
	for _, c := range cas {
		tp.MonCAs[0] = append(tp.MonCAs[0], int(c[1]-'1'))
	}
	periodBase = 1
	dir, err := os.MkdirTemp(scratch, "rvc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	served := map[string][]byte{}
	var sent []*Msg
	w.route = func(m *Msg) (int, []byte, error) {
		if m.To[0] == 'C' {
			c, b, err := w.deliver(m.To, m.Method, m.Path, m.Body)
			mu.Lock()
			served[m.To] = b
			mu.Unlock()
			return c, b, err
		}
		mu.Lock()
		defer mu.Unlock()
		sent = append(sent, m)
		return 200, nil, nil
	}
	take := func() []*Msg {
		mu.Lock()
		defer mu.Unlock()
		s := sent
		sent = nil
		return s
	}
	alignHour()
	ctxs := map[string]*CA.CAContext{}
	time.Sleep(30 * time.Second)
	for _, c := range cas {
		ctxs[c] = startCA(tp, c, dir)
		ctxs[c].RevocationRatio = float64(mass) / 1000000
	}
	time.Sleep(60 * time.Second) // 00:01:30
	startMonitor(tp, "M1", dir)  // queries from 00:02:00
	t0 := time.Now().Truncate(time.Minute)
	per := 0
	at := func(d time.Duration) { time.Sleep(time.Until(t0.Add(time.Duration(per)*time.Minute + d))) }
	synctest.Wait()
	defer func() { // the monitor has to have started before everything is stopped
		if per == 0 {
			at(61 * time.Second)
		}
	}()

	// the client knows one logger's tree, in which all certificates are
	const sub = 1
	if revocTree == nil {
		revocTree = treeOf(1, []int{1, 2, 3}, "rv")
	}
	cw := &cliWorld{trees: map[int]*mtree{1: revocTree}}
	cert := func(c string, n int) *x509.Certificate {
		k := fmt.Sprint(c, n)
		if revocCerts[k] == nil {
			revocCerts[k] = cw.cert(map[string]any{"id": k, "subj": 1.0, "iss": c, "rid": float64(n), "ext": "ok", "infos": []any{
				map[string]any{"e": "L1", "v": 1.0, "i": 1.0, "typ": "init", "sig": "ok", "pv": 1.0, "ps": 1.0, "pt": "no"}}}, n)
		}
		return revocCerts[k]
	}
	writeJSON(filepath.Join(dir, "cfg"), map[string]any{"Monitor_URLs": Monitors[:tp.NG], "MMD": 60, "MRD": 60, "Client_URL": "", "Port": "3000",
		"STH_Storage_filepath": filepath.Join(dir, "sth.json"), "CRV_Storage_filepath": filepath.Join(dir, "crv.json"), "PoM_Store_filepath": filepath.Join(dir, "pom.json")})
	start := func(status string) *client.ClientContext {
		ctx := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: filepath.Join(dir, "cfg"), Crypto_filepath: filepath.Join(configDir(tp), nameToID("M1")+".crypto"), Status: status}
		ctx.InitializeClientContext()
		return ctx
	}
	cl := start("NEW")
	st := gstmt("sth", "L1", "p1", 1)
	st["tree"] = revocTree
	var u0 monitor.ClientUpdate
	b0, _ := json.Marshal(map[string]any{"STHs": []*GObj{fullObjOf(st, "sth", "L1", "p1", []string{"G1", "G2"})}})
	if err := json.Unmarshal(b0, &u0); err != nil {
		fatal("%v", err)
	}
	if !cl.HandleUpdate(u0, true, false) {
		return div(0, "apply/first", "the client rejects a valid update", nil, nil), 0
	}
	massNums := map[string][]int{}
	n := 0
	wantDelta := func(c string, x map[string]any, got []int, first bool) (string, []int) {
		want := []int{}
		for _, k := range ints(list(x, "d")) {
			want = append(want, ridBit(k))
		}
		if first && mass > 0 {
			// the numbers of the mass revocation are random; they are the ones nobody asked for
			known := map[int]bool{}
			for _, k := range want {
				known[k] = true
			}
			if massNums[c] == nil {
				for _, g := range got {
					if !known[g] {
						massNums[c] = append(massNums[c], g)
					}
				}
				if len(massNums[c]) > mass {
					return fmt.Sprintf("%d numbers nobody revoked", len(massNums[c])), want
				}
			}
			want = append(want, massNums[c]...)
		}
		sort.Ints(want)
		if canon(got) != canon(want) {
			return "numbers in the statement of " + c, want
		}
		return "", want
	}
	current := map[string]GObj{}
	verdicts := func(i int, t string, x []any) *Divergence {
		for _, y := range x {
			v := y.(map[string]any)
			n++
			c, k := str(v, "c"), num(v, "n")
			if got := cl.VerifyCTngextension(cert(c, k)); got != (v["ok"] == true) {
				return div(i, t+"/verdict", fmt.Sprintf("client's verdict on certificate number %d of %s", ridBit(k), c), v["ok"], got)
			}
		}
		for _, c := range cas {
			for _, k := range massNums[c] {
				if cl.CRV_database[nameToID(c)] != nil && !cl.CRV_database[nameToID(c)].Test(uint(k)) {
					return div(i, t+"/mass", fmt.Sprintf("number %d of %s is no longer revoked", k, c), nil, nil)
				}
			}
		}
		return nil
	}
	_ = nums
	slot := "open"
	for i, s := range tr.Steps {
		n++
		np := len(w.panics)
		t := str(s.A, "t")
		x := s.X.([]any)
		switch t {
		case "revoke":
			if slot == "open" {
				at(36 * time.Second)
			}
			for _, y := range list(s.A, "s") {
				r := y.(map[string]any)
				ctxs[str(r, "c")].CRV.Revoke(ridBit(num(r, "n")))
			}
		case "close":
			at(44 * time.Second)
			synctest.Wait()
			if m := take(); len(m) > 0 {
				return div(i, "close/accused", "unexpected message to "+m[0].To+m[0].Path, nil, project(m[0].Body)), n
			}
			slot = "closed"
			if per == 0 {
				break
			}
			c, body, _ := w.deliverGo("M1", "GET", "/monitor/get-update", []byte(canon(fmt.Sprint(per))))
			var u updateDoc
			if err := json.Unmarshal(body, &u); err != nil || c != 200 {
				return div(i, "close/update", fmt.Sprintf("no update: status %d", c), nil, nil), n
			}
			got := map[string]string{}
			for _, g := range u.REVs {
				got[idToName(g.Payload[0])] += canon(g.Payload)
			}
			want := map[string]string{}
			for _, c := range cas {
				want[c] = canon(current[c].Payload)
			}
			if canon(got) != canon(want) || len(u.POM_ACCs)+len(u.POM_CONs) > 0 {
				return div(i, "close/update", "revocations in the monitor's update", len(want), len(got)), n
			}
			os.WriteFile(filepath.Join(dir, fmt.Sprint("u", per)), body, 0644)
		case "turn":
			per++
			slot = "open"
			at(2 * time.Second)
			synctest.Wait()
			fwd := map[string]bool{}
			for _, m := range take() {
				r := project(m.Body)
				if m.To != "G1" || m.Path != "/gossip/rev_init" {
					return div(i, "turn/msg", "unexpected message", nil, []any{m.To, m.Path, r}), n
				}
				var g GObj
				json.Unmarshal(m.Body, &g)
				fwd[idToName(g.Payload[0])] = true
			}
			for _, y := range x {
				r := y.(map[string]any)
				c := str(r, "c")
				g, d, why := readREV(served[c], c)
				if why == "" && g.Period != periodLabel(pname(per)) {
					why = "period " + g.Period
				}
				if why != "" {
					return div(i, "turn/statement", "statement of "+c+": "+why, nil, string(served[c])[:min(len(served[c]), 200)]), n
				}
				if why, want := wantDelta(c, r, d, per == 1); why != "" {
					return div(i, "turn/delta", why, want, d), n
				}
				if !fwd[c] {
					return div(i, "turn/srh", "the monitor does not accept the statement of "+c, nil, nil), n
				}
				current[c] = g
			}
			at(7 * time.Second)
			synctest.Wait()
			if m := take(); len(m) > 0 {
				return div(i, "turn/accused", "an honest CA is accused", nil, project(m[0].Body)), n
			}
			for _, c := range cas {
				if code, _, _ := w.deliverGo("M1", "POST", "/monitor/receive-gossip-from-gossiper", endorse(current[c]).json()); code == -1 {
					return div(i, "stuck", "the handler does not return", nil, nil), n
				}
			}
		case "apply":
			k := num(s.A, "n")
			u := cl.LoadUpdate(filepath.Join(dir, fmt.Sprint("u", k)))
			if !cl.HandleUpdate(u, true, false) {
				return div(i, "apply/ret", fmt.Sprintf("the client rejects update %d", k), true, false), n
			}
			if d := verdicts(i, t, x); d != nil {
				return d, n
			}
		case "restart":
			client.SaveSTHDatabase(cl)
			client.SaveCRVDatabase(cl)
			client.SavePomDatabase(cl)
			cl = start("")
			if d := verdicts(i, t, x); d != nil {
				return d, n
			}
		default:
			fatal("bad action %v", s.A)
		}
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
	}
	return nil, n
}
