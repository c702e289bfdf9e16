package ctngverif

import (
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/monitor"
)

func init() { runners["system"] = runSystem }

// fakeSTH: another statement of the logger for the same period
func fakeSTH(g GObj, e string) *GObj {
	var d sthDoc
	b, _ := hex.DecodeString(g.Payload[1])
	json.Unmarshal(b, &d)
	o := g
	o.Payload[1] = sthBodyRoot(d.Signer, d.Period, d.Timestamp, hex.EncodeToString(sha([]byte("fake"+d.RootHash))), d.TreeSize)
	o.Signature[0] = rsaSigString(rsaRaw(e, o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID(e))
	return &o
}

// fakeREV: another revocation statement of the CA for the same period that fits what was stated before
func fakeREV(g GObj, e string, stated *bitset.BitSet, delta []int) *GObj {
	o := g
	d := bitsN(1000000, delta)
	d.Set(424242)
	o.Payload[2] = revBody(nameToID(e), g.Period, stated.Union(d), d, e)
	o.Signature[0] = rsaSigString(rsaRaw(e, o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID(e))
	return &o
}

func runSystem(tr *Trace) (*Divergence, int) {
	w := W
	tp := topoOf(tr.Init)
	tp.Cert = 1
	m0 := num(tr.Init, "m")
	periodBase = m0
	modes := rec(tr.Steps[0].A, "md")
	dir, err := os.MkdirTemp(scratch, "sys")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	old, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(old)

	var ents, mons []string
	for i := 1; i <= tp.NL; i++ {
		ents = append(ents, fmt.Sprintf("L%d", i))
	}
	for i := 1; i <= tp.NC; i++ {
		ents = append(ents, fmt.Sprintf("C%d", i))
	}
	for i := 1; i <= tp.NG; i++ {
		mons = append(mons, fmt.Sprintf("M%d", i))
	}
	var mu sync.Mutex
	way := map[string]string{}
	asked := map[string]int{}
	served := map[string][][]byte{}
	stated := map[string]*bitset.BitSet{}
	for _, e := range ents {
		stated[e] = bitset.New(1000000)
	}
	var probs []string
	w.route = func(m *Msg) (int, []byte, error) {
		if m.Method != "GET" || (m.To[0] != 'L' && m.To[0] != 'C') {
			return w.deliver(m.To, m.Method, m.Path, m.Body)
		}
		time.Sleep(5 * time.Millisecond) // the network takes its time: by now every process that starts at this moment is up
		mu.Lock()
		asked[m.To]++
		k, wy := asked[m.To], way[m.To]
		mu.Unlock()
		c, b, err := w.deliver(m.To, m.Method, m.Path, m.Body)
		if err != nil {
			return c, b, err
		}
		mu.Lock()
		served[m.To] = append(served[m.To], b)
		mu.Unlock()
		fake := func() (int, []byte, error) {
			var g GObj
			if json.Unmarshal(b, &g) != nil || g.Payload[0] == "" {
				return c, b, err
			}
			if m.To[0] == 'L' {
				return 200, fakeSTH(g, m.To).json(), nil
			}
			d, _ := deltaOf(&g)
			mu.Lock()
			defer mu.Unlock()
			return 200, fakeREV(g, m.To, stated[m.To], d).json(), nil
		}
		switch wy {
		case "silent":
			if k%2 == 0 {
				return 200, nil, nil
			}
			return 0, nil, errRefused
		case "some":
			if k == 1 || k < tp.NG-1 {
				return 0, nil, errRefused
			}
		case "split":
			if k == 1 {
				return fake()
			}
		case "lie":
			return fake()
		}
		return c, b, err
	}
	alignHour()
	time.Sleep(time.Duration((m0+59)%60)*time.Minute + 20*time.Second)
	cas := map[string]*CA.CAContext{}
	for _, e := range ents {
		md := num(modes, e)
		// processes of their own never share memory: those using the Merkle tree library act at different moments here
		time.Sleep(100 * time.Millisecond)
		if e[0] == 'L' {
			l := startLogger(tp, e, dir)
			l.Logger_Type, l.MisbehaviorInterval = md, num(tr.Init, "interval")
		} else {
			cas[e] = startCA(tp, e, dir)
			cas[e].CA_Type, cas[e].MisbehaviorInterval = md, num(tr.Init, "interval")
			cas[e].RevocationRatio = 0
		}
	}
	for i := range mons { // gossipers have to be there when monitors begin
		startGossiper(tp, fmt.Sprintf("G%d", i+1))
	}
	t0 := time.Now().Truncate(time.Minute).Add(time.Minute) // minute of period 0
	per := 0
	at := func(d time.Duration) { time.Sleep(time.Until(t0.Add(time.Duration(per)*time.Minute + d))) }
	at(30 * time.Second)
	for i := range mons {
		startMonitor(tp, mons[i], dir)
	}
	certs := map[string]*x509.Certificate{} // "C1/0"
	rids := map[string]int{}
	collect := func() {
		at(40*time.Second + 500*time.Millisecond)
		synctest.Wait()
		for c, ctx := range cas {
			for _, x := range CA.SignAllCerts(ctx) {
				k := fmt.Sprintf("%s/%d", c, per)
				certs[k] = x
				if d, why := readExt(x.Extensions); why == "" {
					rids[k] = d.SequenceNumber.RID
				}
			}
		}
		at(43 * time.Second)
		synctest.Wait()
	}
	collect()

	writeJSON(filepath.Join(dir, "cfg"), map[string]any{"Monitor_URLs": Monitors[:tp.NG], "MMD": 60, "MRD": 60, "Client_URL": "", "Port": "3000",
		"STH_Storage_filepath": filepath.Join(dir, "sth.json"), "CRV_Storage_filepath": filepath.Join(dir, "crv.json"), "PoM_Store_filepath": filepath.Join(dir, "pom.json")})
	cl := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: filepath.Join(dir, "cfg"), Crypto_filepath: filepath.Join(configDir(tp), nameToID("M1")+".crypto"), Status: "NEW"}
	cl.InitializeClientContext()
	n := 0
	for i, s := range tr.Steps {
		x := s.X.(map[string]any)
		mu.Lock()
		asked, served = map[string]int{}, map[string][][]byte{}
		for _, y := range list(s.A, "f") {
			f := y.(map[string]any)
			e := str(f, "e")
			way[e] = str(f, "w")
			if num(modes, e) != 0 {
				way[e] = "own" // the process misbehaves by itself
			}
		}
		mu.Unlock()
		per++
		label := periodLabel(pname(per))
		at(20 * time.Second)
		synctest.Wait()
		if len(w.panics) > 0 {
			return div(i, "crash", "panic: "+w.panics[0], nil, nil), n
		}
		// what the entities served
		for _, e := range ents {
			mu.Lock()
			sv := served[e]
			mu.Unlock()
			for _, b := range sv {
				if len(b) == 0 {
					continue
				}
				n++
				var g GObj
				var why string
				if e[0] == 'L' {
					g, _, why = readSTH(b, e)
				} else {
					var d []int
					g, d, why = readREV(b, e)
					if why == "" && num(modes, e) == 0 {
						for _, k := range d {
							stated[e].Set(uint(k))
						}
					}
				}
				if why == "" && g.Period != label {
					why = "labelled " + g.Period + " in period " + label
				}
				if why != "" {
					return div(i, "label/"+e[:1], "statement served by "+e+": "+why, nil, string(b[:min(len(b), 200)])), n
				}
			}
		}
		for _, c := range strs(s.A, "rv") {
			cas[c].CRV.Revoke(rids[fmt.Sprintf("%s/%d", c, per-1)])
		}
		collect()
		if len(w.panics) > 0 {
			return div(i, "crash", "panic: "+w.panics[0], nil, nil), n
		}
		if len(probs) > 0 {
			return div(i, "msg", probs[0], nil, nil), n
		}
		want := map[string][]string{}
		for _, f := range []string{"con", "acc", "sth", "rev"} {
			want[f] = strs(x, f)
			sort.Strings(want[f])
		}
		var mine []byte
		for k, m := range mons {
			c, body, err := w.deliverGo(m, "GET", "/monitor/get-update", []byte(canon(fmt.Sprint(per))))
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			if err != nil || c != 200 {
				return div(i, "update/none", fmt.Sprintf("%s has no update of period %s: status %d %v", m, label, c, err), nil, nil), n
			}
			var u updateDoc
			if err := json.Unmarshal(body, &u); err != nil {
				return div(i, "update/none", m+": "+err.Error(), nil, nil), n
			}
			if u.Period != label || u.MonitorID != nameToID(m) {
				return div(i, "update/label", "update of "+m, []string{m, label}, []string{idToName(u.MonitorID), u.Period}), n
			}
			got := map[string][]string{}
			read := func(f, typ string, l []GObj) string {
				got[f] = []string{}
				for _, g := range l {
					e := idToName(g.Payload[0])
					got[f] = append(got[f], e)
					if urlType[g.Type] != typ || g.Period != label {
						return fmt.Sprintf("%s in section %s labelled %s in period %s", urlType[g.Type], f, g.Period, label)
					}
					text := g.Payload[0] + g.Payload[1] + g.Payload[2]
					if f == "con" {
						if !rsaOK(g.Payload[0], g.Signature[0], g.Payload[1]) || !rsaOK(g.Payload[0], g.Signature[1], g.Payload[2]) || g.Payload[1] == g.Payload[2] {
							return "conflict proof against " + e + " does not hold"
						}
					} else if ids, ok := fullOK(g.Signature[0], text); !ok || len(ids) < tp.T {
						return "threshold object about " + e + " does not verify"
					}
				}
				sort.Strings(got[f])
				return ""
			}
			for _, why := range []string{read("sth", "STH_FULL", u.STHs), read("rev", "REV_FULL", u.REVs), read("acc", "ACC_FULL", u.POM_ACCs), read("con", "CON_INIT", u.POM_CONs)} {
				if why != "" {
					return div(i, "update/object", m+": "+why, nil, nil), n
				}
			}
			for _, f := range []string{"con", "acc", "sth", "rev"} {
				n++
				if canon(got[f]) != canon(want[f]) {
					return div(i, "update/"+f, "section "+f+" of the update of "+m, want[f], got[f]), n
				}
			}
			if k == i%len(mons) {
				mine = body
			}
		}
		var u monitor.ClientUpdate
		if err := json.Unmarshal(mine, &u); err != nil {
			return div(i, "client/update", err.Error(), nil, nil), n
		}
		if !cl.HandleUpdate(u, true, false) {
			return div(i, "client/update", "the client rejects the update", nil, nil), n
		}
		for _, y := range list(x, "ver") {
			v := y.(map[string]any)
			k := fmt.Sprintf("%s/%d", str(v, "c"), num(v, "i"))
			if certs[k] == nil {
				return div(i, "client/cert", "no certificate "+k+" was issued", nil, nil), n
			}
			n++
			if got := cl.VerifyCTngextension(certs[k]); got != (v["ok"] == true) {
				return div(i, "client/verdict", "verdict on certificate "+k, v["ok"], got), n
			}
		}
	}
	_ = strings.TrimSpace
	return nil, n
}
