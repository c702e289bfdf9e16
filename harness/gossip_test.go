package ctngverif

import (
	"crypto/rsa"
	"crypto/sha256"
	stdcrypto "crypto"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/gossiper"
)

func init() { runners["gossip"] = runGossip }

// startGossiper starts a real gossiper; it serves from the next full minute on.
func startGossiper(tp Topo, name string) *gossiper.GossiperContext {
	d := configDir(tp)
	id := nameToID(name)
	os.MkdirAll(filepath.Join(scratch, "Gossip_log"), 0755)
	ctx := gossiper.InitializeGossiperContext(filepath.Join(d, id+".pub"), filepath.Join(d, id+".priv"), filepath.Join(d, id+".crypto"), name)
	ctx.Max_latency = 0
	ctx.Total_Logger, ctx.Total_CA = tp.NL, tp.NC
	go gossiper.StartGossiperServer(ctx)
	return ctx
}

// ---- symbolic objects of the gossip specifications ----

func gstmt(k, e, p string, v int) map[string]any {
	return map[string]any{"ent": e, "kind": k, "inS": e, "inP": p, "v": float64(v), "scheme": "CRV", "lay": "ok"}
}

// gstmtA: the statement an action or answer of the specification names
func gstmtA(a map[string]any, k, e, p string, v int) map[string]any {
	st := gstmt(k, e, p, v)
	if k == "rev" {
		if n, ok := a["n"].([]any); ok {
			st["n"], st["d"] = n, a["d"]
		}
	}
	return st
}

func initObj(k, e, p string, v int) *GObj { return initObjOf(gstmt(k, e, p, v), k, e, p, v) }

func initObjOf(st map[string]any, k, e, p string, v int) *GObj {
	pl := payloadOf(st)
	t := map[string]string{"sth": "STH_INIT", "rev": "REV_INIT"}[k]
	return &GObj{Application: "CTng", Period: periodLabel(p), Type: typeURL[t], Signer: nameToID(e), Timestamp: fmt.Sprintf("2000-01-01T00:00:0%dZ", v/3), Crypto_Scheme: "RSA",
		Payload: pl, Signature: [2]string{rsaSigString(rsaRaw(e, pl[0]+pl[1]+pl[2]), nameToID(e)), ""}}
}

func fragObj(k, e, p string, v int, g string, stripped bool) *GObj {
	pl := payloadOf(gstmt(k, e, p, v))
	t := map[string]string{"sth": "STH_FRAG", "rev": "REV_FRAG", "acc": "ACC_FRAG"}[k]
	o := &GObj{Application: "CTng", Period: periodLabel(p), Type: typeURL[t], Signer: nameToID(g), Timestamp: "2000-01-01T00:00:00Z", Crypto_Scheme: "bls",
		Payload: pl, Signature: [2]string{fragSigString(blsRaw(g, pl[0]+pl[1]+pl[2]), nameToID(g)), ""}}
	if stripped {
		o.Payload[1], o.Payload[2] = "", ""
	}
	return o
}

func conObj(k, e, p string, v, w int) *GObj {
	a, b := initObj(k, e, p, v), initObj(k, e, p, w)
	tx := func(o *GObj) string { return o.Payload[0] + o.Payload[1] + o.Payload[2] }
	return &GObj{Application: "CTng", Period: periodLabel(p), Type: typeURL["CON_INIT"], Timestamp: "2000-01-01T00:00:00Z",
		Payload: [3]string{nameToID(e), tx(a), tx(b)}, Signature: [2]string{a.Signature[0], b.Signature[0]}}
}

func accObj(e, p, by string) *GObj {
	ent := nameToID(e)
	return &GObj{Application: "CTng", Period: periodLabel(p), Type: typeURL["ACC_INIT"], Signer: nameToID(by), Timestamp: "2000-01-01T00:00:00Z", Crypto_Scheme: "RSA",
		Payload: [3]string{ent, "", ""}, Signature: [2]string{rsaSigString(rsaRaw(by, ent), nameToID(by)), ""}}
}

func fullObj(k, e, p string, v int, gs []string) *GObj { return fullObjOf(gstmt(k, e, p, v), k, e, p, gs) }

func fullObjOf(st map[string]any, k, e, p string, gs []string) *GObj {
	pl := payloadOf(st)
	t := map[string]string{"sth": "STH_FULL", "rev": "REV_FULL", "acc": "ACC_FULL"}[k]
	o := &GObj{Application: "CTng", Period: periodLabel(p), Type: typeURL[t], Timestamp: "2000-01-01T00:00:00Z", Crypto_Scheme: "bls",
		Payload: pl, Signature: [2]string{fullSigString(gs, gs, pl[0]+pl[1]+pl[2]), ""}}
	for _, g := range gs {
		o.Signers = append(o.Signers, nameToID(g))
	}
	return o
}

// ---- reading what a process sent ----

var projCache = map[string]map[string]any{}

func rsaOK(id string, sig string, text string) bool {
	var m map[string]string
	if json.Unmarshal([]byte(sig), &m) != nil || m["id"] != id {
		return false
	}
	raw, err := hex.DecodeString(m["sig"])
	k := keys.RSA[id]
	if err != nil || k == nil {
		return false
	}
	h := sha256.Sum256([]byte(text))
	return rsa.VerifyPKCS1v15(&k.PublicKey, stdcrypto.SHA256, h[:], raw) == nil
}

func blsOK(id string, sig string, text string) bool {
	var m map[string]string
	if json.Unmarshal([]byte(sig), &m) != nil || m["id"] != id {
		return false
	}
	k := keys.BLS[id]
	s := new(bls.Sign)
	if k == nil || s.DeserializeHexStr(m["sign"]) != nil {
		return false
	}
	return s.Verify(k.GetPublicKey(), text)
}

func fullOK(sig string, text string) (ids []string, ok bool) {
	var m struct {
		Sign string
		IDs  []string
	}
	if json.Unmarshal([]byte(sig), &m) != nil {
		return nil, false
	}
	s := new(bls.Sign)
	if s.DeserializeHexStr(m.Sign) != nil {
		return nil, false
	}
	var pks []bls.PublicKey
	for _, id := range m.IDs {
		k := keys.BLS[id]
		if k == nil {
			return nil, false
		}
		pks = append(pks, *k.GetPublicKey())
		ids = append(ids, idToName(id))
	}
	sort.Strings(ids)
	return ids, len(pks) > 0 && s.FastAggregateVerify(pks, []byte(text))
}

// contentOf finds which content a statement has (0: none that the specification knows).
func contentOf(k, e, p string, pl [3]string) int {
	if k == "acc" {
		if pl == payloadOf(gstmt(k, e, p, 0)) {
			return 0
		}
		return -1
	}
	for v := 1; v <= 3; v++ {
		if pl == payloadOf(gstmt(k, e, p, v)) {
			return v
		}
	}
	return -1
}

// project turns a gossip object on the wire into the specification's message record; anything wrong with it
// (signature, unknown content, unknown label) shows up as a field the specification never has.
func project(body []byte) map[string]any {
	if r, ok := projCache[string(body)]; ok {
		return r
	}
	r := project1(body)
	if len(projCache) < 50000 {
		projCache[string(body)] = r
	}
	return r
}

func project1(body []byte) map[string]any {
	var g GObj
	if err := json.Unmarshal(body, &g); err != nil {
		return map[string]any{"m": "unreadable"}
	}
	t := urlType[g.Type]
	e, p := idToName(g.Payload[0]), labelPeriod(g.Period)
	r := map[string]any{"e": e, "p": p}
	k := map[string]string{"STH": "sth", "REV": "rev", "ACC": "acc", "CON": "con"}[strings.Split(t+"_", "_")[0]]
	if strings.HasPrefix(e, "?") {
		r["m"] = "unknown-entity"
		return r
	}
	text := g.Payload[0] + g.Payload[1] + g.Payload[2]
	switch {
	case t == "STH_INIT" || t == "REV_INIT":
		r["m"], r["k"], r["v"] = "init", k, contentOf(k, e, p, g.Payload)
		if !rsaOK(g.Payload[0], g.Signature[0], text) || g.Signer != g.Payload[0] {
			r["badsig"] = true
		}
	case t == "ACC_INIT":
		r["m"], r["k"], r["by"] = "acc", k, idToName(g.Signer)
		if !rsaOK(g.Signer, g.Signature[0], text) || g.Payload[1] != "" || g.Payload[2] != "" {
			r["badsig"] = true
		}
	case strings.HasSuffix(t, "_FRAG"):
		r["m"], r["k"], r["g"] = "frag", k, idToName(g.Signer)
		if k == "rev" && g.Payload[1] == "" && g.Payload[2] == "" {
			r["v"] = -1
			for v := 1; v <= 3; v++ {
				pl := payloadOf(gstmt(k, e, p, v))
				if blsOK(g.Signer, g.Signature[0], pl[0]+pl[1]+pl[2]) {
					r["v"] = v
				}
			}
		} else {
			r["v"] = contentOf(k, e, p, g.Payload)
			if !blsOK(g.Signer, g.Signature[0], text) {
				r["badsig"] = true
			}
		}
	case strings.HasSuffix(t, "_FULL"):
		ids, ok := fullOK(g.Signature[0], text)
		r["m"], r["k"], r["v"], r["gs"] = "full", k, contentOf(k, e, p, g.Payload), ids
		if !ok {
			r["badsig"] = true
		}
	case t == "CON_INIT":
		r["m"] = "con"
		vs := []int{}
		for _, kk := range []string{"sth", "rev"} {
			for i := 1; i <= 2; i++ {
				for v := 1; v <= 3; v++ {
					pl := payloadOf(gstmt(kk, e, p, v))
					if g.Payload[i] == pl[0]+pl[1]+pl[2] {
						vs = append(vs, v)
						r["k"] = kk
					}
				}
			}
		}
		sort.Ints(vs)
		r["vs"] = vs
		if !rsaOK(g.Payload[0], g.Signature[0], g.Payload[1]) || !rsaOK(g.Payload[0], g.Signature[1], g.Payload[2]) {
			r["badsig"] = true
		}
	default:
		r["m"] = "unknown-type"
	}
	return r
}

type Note struct {
	Sender     string `json:"sender"`
	Period     string `json:"period"`
	Type       string `json:"type"`
	Entity_URL string `json:"entity_url"`
	Objhash    []byte `json:"objhash"`
}

func projectMsg(m *Msg) map[string]any {
	r := map[string]any{}
	switch m.Path {
	case "/gossip/new_payload_notification", "/gossip/new_payload_request":
		var n Note
		if json.Unmarshal(m.Body, &n) != nil {
			r["m"] = "unreadable"
		} else {
			r["m"] = "note"
			if strings.HasSuffix(m.Path, "request") {
				r["m"] = "req"
			}
			r["k"], r["e"], r["p"], r["from"] = "rev", idToName(n.Entity_URL), labelPeriod(n.Period), idToName(n.Sender)
			r["v"] = -1
			for k, h := range noteHash {
				if string(h) == string(n.Objhash) && strings.HasPrefix(k, fmt.Sprint(r["e"], "|", r["p"], "|")) {
					fmt.Sscanf(k[strings.LastIndex(k, "|")+1:], "%d", new(int))
					var v int
					fmt.Sscanf(k[strings.LastIndex(k, "|")+1:], "%d", &v)
					r["v"] = v
				}
			}
		}
	default:
		for k, v := range project(m.Body) {
			r[k] = v
		}
		// the route has to be the one of the object's type
		want := map[string]string{"/gossip/sth_init": "init/sth", "/gossip/rev_init": "init/rev", "/gossip/con_init": "con", "/gossip/acc_init": "acc",
			"/gossip/sth_frag": "frag/sth", "/gossip/rev_frag": "frag/rev", "/gossip/acc_frag": "frag/acc", "/monitor/receive-gossip-from-gossiper": "*"}[m.Path]
		is := fmt.Sprint(r["m"])
		if is == "init" || is == "frag" {
			is += "/" + fmt.Sprint(r["k"])
		}
		if want != "*" && want != is {
			r["route"] = m.Path
		}
	}
	return r
}

// noteHash: e|p|v -> the hash by which gossipers name a revocation statement
var noteHash = map[string][]byte{}

// learnNotes asks real gossipers how they announce the statements (the hash is an internal matter of theirs).
func learnNotes(w *World, need [][3]string) {
	tp := Topo{NG: 5, T: 3, NL: 2, NC: 2, Wait: 5, MMD: 60, Cert: 2}
	var todo [][3]string
	for _, n := range need {
		if _, ok := noteHash[n[0]+"|"+n[1]+"|"+n[2]]; !ok {
			todo = append(todo, n)
		}
	}
	for _, n := range todo {
		startGossiper(tp, "G5")
		time.Sleep(60 * time.Second)
		synctest.Wait()
		var mu sync.Mutex
		var got []byte
		w.route = func(m *Msg) (int, []byte, error) {
			mu.Lock()
			defer mu.Unlock()
			if m.Path == "/gossip/new_payload_notification" && got == nil {
				got = m.Body
			}
			return 200, nil, nil
		}
		var v int
		fmt.Sscanf(n[2], "%d", &v)
		o := initObj("rev", n[0], n[1], v)
		w.deliverGo("G5", "POST", "/gossip/rev_init", o.json())
		time.Sleep(20 * time.Second)
		synctest.Wait()
		time.Sleep(40 * time.Second)
		synctest.Wait()
		var nt Note
		if got == nil || json.Unmarshal(got, &nt) != nil || len(nt.Objhash) == 0 {
			// not announced: use the documented hash, the comparison will tell
			h := sha256.Sum256([]byte(o.Signature[0] + o.Signer + o.Period + o.Type + o.Payload[0] + o.Payload[1] + o.Payload[2]))
			nt.Objhash = h[:]
		}
		noteHash[n[0]+"|"+n[1]+"|"+n[2]] = nt.Objhash
	}
}

// ---- invalid inputs ----

func badBody(name string) (path string, body []byte) {
	mk := func(o *GObj, f func(o *GObj)) []byte { c := *o; f(&c); return c.json() }
	switch name {
	case "garbage_sth":
		return "/gossip/sth_init", []byte("{{{ not json")
	case "empty_rev":
		return "/gossip/rev_init", nil
	case "array_frag":
		return "/gossip/sth_frag", []byte(`[1,2,3]`)
	case "emptyobj_con":
		return "/gossip/con_init", []byte(`{}`)
	case "emptyobj_acc":
		return "/gossip/acc_frag", []byte(`{}`)
	case "note_garbage":
		return "/gossip/new_payload_notification", []byte(`"x"`)
	case "req_garbage":
		return "/gossip/new_payload_request", []byte(`"x"`)
	case "req_unknown":
		return "/gossip/new_payload_request", []byte(`{"sender":"` + nameToID("G2") + `","period":"77","type":"` + typeURL["REV_INIT"] + `","entity_url":"nobody"}`)
	case "sth_forged1", "sth_forged2": // statement of L1 signed by an outsider
		v := int(name[len(name)-1] - '0')
		return "/gossip/sth_init", mk(initObj("sth", "L1", "p0", v), func(o *GObj) {
			o.Signature[0] = rsaSigString(rsaRaw("X1", o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID("L1"))
		})
	case "sth_outsider": // an outsider's own statement
		return "/gossip/sth_init", mk(initObj("sth", "X1", "p0", 1), func(o *GObj) {})
	case "sth_relabel": // L1's statement of the next period, labelled as of this one
		return "/gossip/sth_init", mk(initObj("sth", "L1", "p1", 2), func(o *GObj) { o.Period = periodLabel("p0") })
	case "sth_other": // L2's statement presented as L1's
		return "/gossip/sth_init", mk(initObj("sth", "L2", "p0", 2), func(o *GObj) { o.Payload[0], o.Signer = nameToID("L1"), nameToID("L1") })
	case "rev_forged2":
		return "/gossip/rev_init", mk(initObj("rev", "C1", "p0", 2), func(o *GObj) {
			o.Signature[0] = rsaSigString(rsaRaw("X1", o.Payload[0]+o.Payload[1]+o.Payload[2]), nameToID("C1"))
		})
	case "rev_altered": // C1's signature on another content
		return "/gossip/rev_init", mk(initObj("rev", "C1", "p0", 1), func(o *GObj) { o.Payload[2] = payloadOf(gstmt("rev", "C1", "p0", 2))[2] })
	case "frag_forged": // G3's fragment made with G2's key
		return "/gossip/sth_frag", mk(fragObj("sth", "L1", "p0", 1, "G2", false), func(o *GObj) {
			o.Signer = nameToID("G3")
			o.Signature[0] = strings.Replace(o.Signature[0], nameToID("G2"), nameToID("G3"), 1)
		})
	case "frag_outsider":
		return "/gossip/sth_frag", fragObj("sth", "L1", "p0", 1, "X1", false).json()
	case "frag_relabel": // an old fragment of G3 labelled as of this period
		return "/gossip/sth_frag", mk(fragObj("sth", "L1", "p1", 1, "G3", false), func(o *GObj) { o.Period = periodLabel("p0") })
	case "frag_other": // G3's fragment on content 2 attached to content 1
		return "/gossip/sth_frag", mk(fragObj("sth", "L1", "p0", 2, "G3", false), func(o *GObj) { o.Payload = payloadOf(gstmt("sth", "L1", "p0", 1)) })
	case "accfrag_forged":
		return "/gossip/acc_frag", mk(fragObj("acc", "L1", "p0", 0, "G2", false), func(o *GObj) {
			o.Signer = nameToID("G3")
			o.Signature[0] = strings.Replace(o.Signature[0], nameToID("G2"), nameToID("G3"), 1)
		})
	case "con_same": // no conflict at all
		return "/gossip/con_init", conObj("sth", "L1", "p0", 1, 1).json()
	case "con_forged":
		return "/gossip/con_init", mk(conObj("sth", "L1", "p0", 1, 2), func(o *GObj) {
			o.Signature[1] = rsaSigString(rsaRaw("X1", o.Payload[2]), nameToID("L1"))
		})
	case "con_periods": // statements of two periods
		a, b := initObj("sth", "L1", "p0", 1), initObj("sth", "L1", "p1", 2)
		o := conObj("sth", "L1", "p0", 1, 2)
		o.Payload[2] = b.Payload[0] + b.Payload[1] + b.Payload[2]
		o.Signature = [2]string{a.Signature[0], b.Signature[0]}
		return "/gossip/con_init", o.json()
	case "con_framed": // an outsider's conflict attributed to L1
		o := conObj("sth", "X1", "p0", 1, 2)
		o.Payload[0] = nameToID("L1")
		return "/gossip/con_init", o.json()
	case "acc_forged":
		return "/gossip/acc_init", mk(accObj("L1", "p0", "M1"), func(o *GObj) { o.Signature[0] = rsaSigString(rsaRaw("X1", o.Payload[0]), nameToID("M1")) })
	case "full_one": // a single signer
		return "/gossip/sth_frag", fullObj("sth", "L1", "p0", 1, []string{"G2"}).json()
	case "full_repeat":
		return "/gossip/acc_frag", mk(fullObj("acc", "L1", "p0", 0, []string{"G2", "G2", "G2"}), func(o *GObj) {})
	case "full_forged":
		return "/gossip/acc_frag", mk(fullObj("acc", "L1", "p0", 0, []string{"G2"}), func(o *GObj) {
			o.Signature[0] = fullSigString([]string{"G2"}, []string{"G2", "G3", "X1"}, o.Payload[0])
		})
	}
	fatal("no invalid input named %s", name)
	return "", nil
}

// ---- replay of one gossiper ----

type sentLog struct {
	mu   sync.Mutex
	msgs []*Msg
}

func (l *sentLog) take() []*Msg {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := l.msgs
	l.msgs = nil
	return r
}

// diffOut compares what was sent with what the specification demands. peers: whom "peers" stands for.
func diffOut(want []any, got []*Msg, self string, peers []string) (missing, extra []string, first map[string]any) {
	exp := map[string]int{}
	info := map[string]map[string]any{}
	add := func(to string, r map[string]any, d int) {
		c := map[string]any{"to": to}
		for k, v := range r {
			if k != "to" {
				c[k] = v
			}
		}
		s := canon(c)
		exp[s] += d
		info[s] = c
	}
	for _, x := range want {
		r := map[string]any{}
		for k, v := range x.(map[string]any) {
			r[k] = v
		}
		to := str(r, "to")
		m := str(r, "m")
		if m == "note" || m == "req" {
			r["from"] = self
		}
		if vs, ok := r["vs"].([]any); ok {
			var l []int
			for _, v := range vs {
				l = append(l, int(v.(float64)))
			}
			sort.Ints(l)
			r["vs"] = l
		}
		if gs, ok := r["gs"].([]any); ok {
			var l []string
			for _, v := range gs {
				l = append(l, v.(string))
			}
			sort.Strings(l)
			r["gs"] = l
		}
		switch to {
		case "peers":
			for _, q := range peers {
				add(q, r, 1)
			}
		case "mon":
			add("M"+self[1:], r, 1)
		default:
			add(to, r, 1)
		}
	}
	for _, m := range got {
		add(m.To, projectMsg(m), -1)
	}
	var ks []string
	for k := range exp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for i := 0; i < exp[k]; i++ {
			missing = append(missing, k)
			if first == nil {
				first = info[k]
			}
		}
		for i := 0; i < -exp[k]; i++ {
			extra = append(extra, k)
			if first == nil {
				first = info[k]
			}
		}
	}
	return
}

func topoOf(init map[string]any) Topo {
	tp := Topo{NG: num(init, "ng"), T: num(init, "t"), NL: numd(init, "nl", 2), NC: numd(init, "nc", 2), Wait: numd(init, "wait", 4), MMD: 60, Cert: 2}
	if e, ok := init["edges"].([]any); ok {
		for _, l := range e {
			var r []int
			for _, x := range l.([]any) {
				r = append(r, int(x.(float64)))
			}
			tp.Edges = append(tp.Edges, r)
		}
	}
	return tp
}

var gossipRoute = map[string]string{"init/sth": "/gossip/sth_init", "init/rev": "/gossip/rev_init", "frag/sth": "/gossip/sth_frag", "frag/rev": "/gossip/rev_frag",
	"frag/acc": "/gossip/acc_frag", "con": "/gossip/con_init", "acc": "/gossip/acc_init"}

func noteBody(e, p string, v int, from string) []byte {
	b, _ := json.Marshal(Note{Sender: nameToID(from), Period: periodLabel(p), Type: typeURL["REV_INIT"], Entity_URL: nameToID(e), Objhash: noteHash[fmt.Sprintf("%s|%s|%d", e, p, v)]})
	return b
}

// inputOf is the HTTP request of an input of the gossip specifications.
func inputOf(a map[string]any) (string, []byte) {
	switch str(a, "t") {
	case "init":
		return gossipRoute["init/"+str(a, "k")], initObj(str(a, "k"), str(a, "e"), str(a, "p"), num(a, "v")).json()
	case "frag":
		k := str(a, "k")
		return gossipRoute["frag/"+k], fragObj(k, str(a, "e"), str(a, "p"), num(a, "v"), str(a, "g"), k == "rev").json()
	case "con":
		return gossipRoute["con"], conObj(str(a, "k"), str(a, "e"), str(a, "p"), num(a, "v"), num(a, "w")).json()
	case "acc":
		return gossipRoute["acc"], accObj(str(a, "e"), str(a, "p"), str(a, "by")).json()
	case "note":
		return "/gossip/new_payload_notification", noteBody(str(a, "e"), str(a, "p"), num(a, "v"), str(a, "from"))
	case "req":
		return "/gossip/new_payload_request", noteBody(str(a, "e"), str(a, "p"), numd(a, "v", 1), str(a, "from"))
	case "bad":
		return badBody(str(a, "b"))
	}
	fatal("bad input %v", a)
	return "", nil
}

func needNotes(steps []Step) (need [][3]string) {
	seen := map[[3]string]bool{}
	add := func(e, p string, v int) {
		n := [3]string{e, p, fmt.Sprint(v)}
		if !seen[n] {
			seen[n] = true
			need = append(need, n)
		}
	}
	for _, s := range steps {
		t := str(s.A, "t")
		if t == "note" || t == "req" || (t == "init" && str(s.A, "k") == "rev") {
			add(str(s.A, "e"), str(s.A, "p"), numd(s.A, "v", 1))
		}
	}
	return
}

// gossipFacet names what a deviation is about: rule of the specification / message / kind of statement.
func gossipFacet(a, first map[string]any, extra bool) string {
	rule := strd(a, "rule", str(a, "t"))
	for _, b := range strs(a, "black") {
		if extra && b == fmt.Sprint(first["e"]) && first["m"] != "req" {
			rule = "blacklisted"
		}
	}
	if rule == "invalid" {
		rule += "/" + str(a, "b")
	}
	return rule + "/" + fmt.Sprint(first["m"]) + "/" + fmt.Sprint(first["k"])
}

func runGossip(tr *Trace) (*Divergence, int) {
	w := W
	tp := topoOf(tr.Init)
	periodBase = 1
	if need := needNotes(tr.Steps); len(need) > 0 {
		// learning takes minutes of virtual time; the periods of this trace are counted from where it begins
		miss := false
		for _, n := range need {
			if _, ok := noteHash[n[0]+"|"+n[1]+"|"+n[2]]; !ok {
				miss = true
			}
		}
		if miss {
			learnNotes(w, need)
		}
	}
	var sent sentLog
	w.route = func(m *Msg) (int, []byte, error) {
		if m.To == "G1" {
			fatal("message to itself: %s", m.Path)
		}
		sent.mu.Lock()
		sent.msgs = append(sent.msgs, m)
		sent.mu.Unlock()
		return reach(tr, m.To)
	}
	// align: the node starts serving in period p0 = minute periodBase of some hour
	for time.Now().UTC().Minute() != 0 || time.Now().UTC().Second() != 0 {
		time.Sleep(time.Second)
	}
	startGossiper(tp, "G1")
	time.Sleep(60 * time.Second)
	synctest.Wait()
	sent.take()
	peers := []string{}
	for i := 1; i < tp.NG; i++ {
		peers = append(peers, fmt.Sprintf("G%d", i+1))
	}
	start := time.Now() // beginning of p0
	per := 0
	half := time.Duration(tp.Wait) * time.Second / 2
	n := 0
	for i, s := range tr.Steps {
		t := str(s.A, "t")
		np := len(w.panics)
		switch t {
		case "tick":
			time.Sleep(half)
		case "edge":
			time.Sleep(time.Until(start.Add(time.Duration(per+1)*time.Minute - 1*time.Second)))
		case "period":
			per++
			time.Sleep(time.Until(start.Add(time.Duration(per) * time.Minute)))
		default:
			path, body := inputOf(s.A)
			code, _, err := w.deliverGo("G1", "POST", path, body)
			if err != nil && len(w.panics) > np {
				return div(i, "crash", "request aborted by a panic: "+w.panics[np], nil, nil), n
			}
			if code == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			if err != nil {
				fatal("deliver: %v", err)
			}
		}
		synctest.Wait()
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
		n++
		missing, extra, first := diffOut(s.X.([]any), sent.take(), "G1", peers)
		if len(missing)+len(extra) > 0 {
			return div(i, gossipFacet(s.A, first, len(missing) == 0), fmt.Sprintf("gossiper's messages after %s: %d missing, %d unexpected", t, len(missing), len(extra)),
				map[string]any{"missing": missing}, map[string]any{"unexpected": extra}), n
		}
	}
	return nil, n
}

// reach: the answer of a node the process talks to, by the trace's environment
func reach(tr *Trace, to string) (int, []byte, error) {
	if tr.Init["refuse"] == nil && tr.Init["fail"] == nil {
		return 200, nil, nil
	}
	if tr.Init["refuse"] == nil {
		tr.Init["refuse"] = []any{}
	}
	if tr.Init["fail"] == nil {
		tr.Init["fail"] = []any{}
	}
	for _, x := range strs(tr.Init, "refuse") {
		if x == to {
			return 0, nil, errRefused
		}
	}
	for _, x := range strs(tr.Init, "fail") {
		if x == to {
			return 500, []byte("internal error\n"), nil
		}
	}
	return 200, nil, nil
}
