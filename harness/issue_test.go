package ctngverif

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	merkletree "github.com/txaty/go-merkletree"
)

func init() {
	runners["logger"] = runLogger
	runners["authority"] = runAuthority
}

func startLogger(tp Topo, name, dir string) *Logger.LoggerContext {
	d := configDir(tp)
	id := nameToID(name)
	ctx := Logger.InitializeLoggerContext(filepath.Join(d, id+".pub"), filepath.Join(d, id+".priv"), filepath.Join(d, id+".crypto"))
	ctx.Max_latency = 0
	ctx.StoragePath = filepath.Join(dir, name+".certs")
	go Logger.StartLogger(ctx)
	return ctx
}

func startCA(tp Topo, name, dir string) *CA.CAContext {
	d := configDir(tp)
	id := nameToID(name)
	ctx := CA.InitializeCAContext(filepath.Join(d, id+".pub"), filepath.Join(d, id+".priv"), filepath.Join(d, id+".crypto"))
	ctx.Max_latency = 0
	ctx.StoragePath1 = filepath.Join(dir, name+".1")
	ctx.StoragePath2 = filepath.Join(dir, name+".2")
	go CA.StartCA(ctx)
	return ctx
}

// ---- reading what loggers and CAs say ----

type sthDoc struct {
	Signer, Timestamp, Period, RootHash string
	TreeSize                            int
}

// readSTH: a signed statement about a tree, or why it is none.
func readSTH(body []byte, signer string) (g GObj, d sthDoc, why string) {
	if err := json.Unmarshal(body, &g); err != nil {
		return g, d, "unreadable: " + err.Error()
	}
	if urlType[g.Type] != "STH_INIT" || g.Signer != nameToID(signer) || g.Payload[0] != nameToID(signer) {
		return g, d, fmt.Sprintf("%s of %s about %s", urlType[g.Type], idToName(g.Signer), idToName(g.Payload[0]))
	}
	if !rsaOK(g.Signer, g.Signature[0], g.Payload[0]+g.Payload[1]+g.Payload[2]) {
		return g, d, "signature does not verify"
	}
	b, err := hex.DecodeString(g.Payload[1])
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		return g, d, "content unreadable: " + err.Error()
	}
	if d.Signer != g.Signer || d.Period != g.Period {
		return g, d, fmt.Sprintf("inside: signer %s period %s, outside: %s %s", idToName(d.Signer), d.Period, idToName(g.Signer), g.Period)
	}
	return g, d, ""
}

type poiDoc struct {
	Poi          *merkletree.Proof `json:"poi"`
	SubjectKeyId []byte            `json:"subjectKeyId"`
	Issuer       string            `json:"issuer"`
	LoggerID     string            `json:"loggerID"`
}

func proves(root []byte, p *merkletree.Proof, rawSubject []byte) bool {
	if p == nil {
		return false
	}
	ok, err := merkletree.Verify(&subjBlock{rawSubject}, p, root, nil)
	return ok && err == nil
}

// rootsOf: the roots of the trees over the subjects, in any order.
func rootsOf(subj [][]byte) map[string]bool {
	r := map[string]bool{}
	var rec func(k int)
	rec = func(k int) {
		if k == len(subj) {
			var bl []merkletree.DataBlock
			for _, s := range subj {
				bl = append(bl, &subjBlock{s})
			}
			t, err := merkletree.New(&merkletree.Config{Mode: merkletree.ModeTreeBuild}, bl)
			if err != nil {
				fatal("merkle: %v", err)
			}
			r[hex.EncodeToString(t.Root)] = true
			return
		}
		for i := k; i < len(subj); i++ {
			subj[k], subj[i] = subj[i], subj[k]
			rec(k + 1)
			subj[k], subj[i] = subj[i], subj[k]
		}
	}
	rec(0)
	return r
}

// ---- precertificates ----

var preCache = map[string][]byte{}

// precert: the DER of a precertificate of the specification: [id, ca, s, key]
func precert(c map[string]any) []byte {
	ck := canon(c)
	if b, ok := preCache[ck]; ok {
		return b
	}
	ext, _ := json.Marshal(map[string]any{"SequenceNumber": map[string]any{"RID": 3}})
	b := signCert(subjName(num(c, "s")), 500+len(preCache), str(c, "ca"), keys.RSA[nameToID(str(c, "ca"))], &keys.Pool[num(c, "key")].PublicKey, []byte{9, byte(num(c, "key"))}, []pkix.Extension{ctngExt(ext)}).Raw
	preCache[ck] = b
	return b
}

// badPrecert: requests that are no valid precertificate of a listed CA; id is the SubjectKeyId it would have
func badPrecert(b string) []byte {
	if x, ok := preCache["bad "+b]; ok {
		return x
	}
	mk := func(issuer string, key *rsa.PrivateKey) []byte {
		return signCert(subjName(90), 900, issuer, key, &keys.Pool[1].PublicKey, []byte{8, 8}, nil).Raw
	}
	var r []byte
	good := precert(map[string]any{"id": "zz", "ca": "C1", "s": 91.0, "key": 5.0})
	switch b {
	case "empty":
		r = []byte{}
	case "garbage":
		r = []byte("no certificate at all")
	case "json":
		r = []byte(`{"Raw":"abc"}`)
	case "trunc":
		r = good[:len(good)-40]
	case "trail":
		r = append(append([]byte{}, good...), 0, 1, 2)
	case "forged": // names a listed CA, signed with another key
		r = mk("C1", keys.RSA[nameToID("X1")])
	case "swap": // names one listed CA, signed by another one
		r = mk("C1", keys.RSA[nameToID("C2")])
	case "outsider": // a stranger's own certificate
		r = mk("X1", keys.RSA[nameToID("X1")])
	case "known": // of an entity that is known but no CA
		r = mk("L2", keys.RSA[nameToID("L2")])
	case "altered": // a byte of the content changed under the signature
		c, err := x509.ParseCertificate(good)
		if err != nil {
			fatal("%v", err)
		}
		r = append([]byte{}, good...)
		i := strings.Index(string(r), "www.s91.test")
		if i < 0 {
			fatal("no subject")
		}
		r[i+5] = '2'
		_ = c
	case "nosig":
		r = append([]byte{}, good...)
		for i := 1; i <= 64; i++ {
			r[len(r)-i] = 0
		}
	case "ecdsa": // the signature algorithm is not the one of the CA
		r = append([]byte{}, good...)
		r[len(r)-1] ^= 1
	default:
		fatal("bad precert %q", b)
	}
	preCache["bad "+b] = r
	return r
}

func runLogger(tr *Trace) (*Divergence, int) {
	w := W
	tp := Topo{NG: 1, T: 1, NL: 2, NC: 2, Wait: 5, MMD: 60, Cert: 0}
	periodBase = 1
	dir, err := os.MkdirTemp(scratch, "log")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	certs := map[string]*x509.Certificate{}
	var mu sync.Mutex
	var sent []*Msg
	down := map[string]bool{}
	w.route = func(m *Msg) (int, []byte, error) {
		mu.Lock()
		defer mu.Unlock()
		if down[m.To] {
			return 0, nil, errRefused
		}
		sent = append(sent, m)
		return 200, nil, nil
	}
	take := func() []*Msg {
		mu.Lock()
		defer mu.Unlock()
		s := sent
		sent = nil
		return s
	}
	alignHour()
	time.Sleep(20 * time.Second)
	startLogger(tp, "L1", dir)
	t0 := time.Now().Truncate(time.Minute).Add(time.Minute)
	per := 0
	at := func(d time.Duration) { time.Sleep(time.Until(t0.Add(time.Duration(per)*time.Minute + d))) }
	at(500 * time.Millisecond)
	synctest.Wait()
	made := map[string]string{} // period label -> statement sent
	n := 0
	for i, s := range tr.Steps {
		n++
		np := len(w.panics)
		t := str(s.A, "t")
		quiet := func() *Divergence {
			if m := take(); len(m) > 0 {
				return div(i, t+"/msg", "unexpected messages", nil, fmt.Sprint(m[0].To, m[0].Path))
			}
			return nil
		}
		switch t {
		case "submit", "bad":
			var body []byte
			if t == "submit" {
				c := rec(s.A, "c")
				body = precert(c)
				crt, err := x509.ParseCertificate(body)
				if err != nil {
					fatal("%v", err)
				}
				certs[str(c, "id")] = crt
			} else {
				body = badPrecert(str(s.A, "b"))
			}
			c, _, err := w.deliverGo("L1", "POST", "/Logger/receive-precerts", body)
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			if t == "submit" && (err != nil || c != 200) {
				return div(i, "submit/status", fmt.Sprintf("valid precertificate answered with %d %v", c, err), nil, nil), n
			}
			time.Sleep(time.Second)
			synctest.Wait()
			if d := quiet(); d != nil {
				return d, n
			}
		case "turn":
			per++
			at(500 * time.Millisecond)
			synctest.Wait()
			if d := quiet(); d != nil {
				return d, n
			}
		case "round":
			mu.Lock()
			for _, e := range strs(s.A, "down") {
				down[e] = true
			}
			mu.Unlock()
			at(39 * time.Second)
			synctest.Wait()
			if d := quiet(); d != nil {
				return d, n
			}
			at(43 * time.Second)
			synctest.Wait()
			mu.Lock()
			down = map[string]bool{}
			mu.Unlock()
			x := rec(map[string]any{"x": s.X}, "x")
			label := fmt.Sprintf("%02d", (periodBase+num(s.A, "p"))%60)
			stmt := ""
			var root []byte
			var doc sthDoc
			gotS, gotP := []string{}, []string{}
			for _, m := range take() {
				switch strings.TrimSuffix(m.Path, "/") {
				case "/CA/receive-sth":
					_, d, why := readSTH(m.Body, "L1")
					if why != "" {
						return div(i, "round/sth", "statement sent to "+m.To+" is not valid: "+why, nil, nil), n
					}
					if stmt != "" && canonJSON(m.Body) != stmt {
						return div(i, "round/sth", "different statements are sent to the CAs", nil, nil), n
					}
					stmt, doc = canonJSON(m.Body), d
					root, _ = hex.DecodeString(d.RootHash)
					gotS = append(gotS, m.To)
				case "/CA/receive-poi":
					var p poiDoc
					if err := json.Unmarshal(m.Body, &p); err != nil {
						return div(i, "round/poi", "unreadable proof: "+err.Error(), nil, nil), n
					}
					if root == nil {
						return div(i, "round/order", "a proof is sent before the statement it refers to", nil, nil), n
					}
					hit := ""
					for _, c := range strs(x, "certs") {
						if k := certs[c]; string(k.SubjectKeyId) == string(p.SubjectKeyId) && k.Issuer.CommonName == p.Issuer && p.LoggerID == nameToID("L1") && proves(root, p.Poi, k.RawSubject) {
							k := m.To + "/" + c
							dup := false
							for _, g := range gotP {
								dup = dup || g == k
							}
							if !dup {
								hit = k
								break
							}
							if hit == "" {
								hit = "="
							}
						}
					}
					switch hit {
					case "":
						gotP = append(gotP, m.To+"/not a proof for an accepted precertificate: "+p.Issuer+" "+hexs(p.SubjectKeyId))
					case "=":
					default:
						gotP = append(gotP, hit)
					}
				default:
					return div(i, "round/msg", "unexpected message to "+m.To, nil, m.Path), n
				}
			}
			wantS := strs(x, "up")
			sort.Strings(wantS)
			sort.Strings(gotS)
			if canon(gotS) != canon(wantS) {
				return div(i, "round/sth", "CAs that get the statement", wantS, gotS), n
			}
			wantP := []string{}
			for _, y := range list(x, "poi") {
				q := y.(map[string]any)
				wantP = append(wantP, str(q, "to")+"/"+str(q, "id"))
			}
			sort.Strings(wantP)
			sort.Strings(gotP)
			if canon(gotP) != canon(wantP) {
				return div(i, "round/poi", "proofs of inclusion (receiver/precertificate)", wantP, gotP), n
			}
			if stmt != "" {
				if doc.Period != label {
					return div(i, "round/label", "period of the statement", label, doc.Period), n
				}
				ids := strs(x, "certs")
				if x["exact"] == true {
					if doc.TreeSize != len(ids) {
						return div(i, "round/tree", "size of the tree", len(ids), doc.TreeSize), n
					}
					if len(ids) >= 2 && len(ids) <= 5 {
						var subj [][]byte
						for _, c := range ids {
							subj = append(subj, certs[c].RawSubject)
						}
						if !rootsOf(subj)[doc.RootHash] {
							return div(i, "round/tree", "the root is not that of the accepted precertificates", ids, nil), n
						}
					}
				}
				made[label] = stmt
			} else {
				made[label] = "?"
			}
		case "ask":
			x := rec(map[string]any{"x": s.X}, "x")
			c, body, err := w.deliverGo("L1", "GET", "/ctng/v2/get-sth", nil)
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			label := fmt.Sprintf("%02d", (periodBase+num(x, "p"))%60)
			_, d, why := readSTH(body, "L1")
			if x["have"] != true {
				if why == "" && d.Period == label {
					return div(i, "ask/none", "a statement is served that was never made", nil, nil), n
				}
				break
			}
			if err != nil || c != 200 || why != "" || d.Period != label {
				return div(i, "ask/sth", fmt.Sprintf("served: status %d, %v %s, period %s", c, err, why, d.Period), label, nil), n
			}
			if made[label] != "?" && canonJSON(body) != made[label] {
				return div(i, "ask/sth", "the statement served is not the one sent to the CAs", nil, nil), n
			}
		default:
			fatal("bad action %v", s.A)
		}
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
	}
	return nil, n
}

func canonJSON(b []byte) string {
	var v any
	json.Unmarshal(b, &v)
	return canon(v)
}

// ---------------------------------------------------------------------------------------------------------------- CA

type issuedCert struct {
	per, k int
	rid    int
	cert   *x509.Certificate
}

type extDoc struct {
	SequenceNumber struct {
		RID int `json:"RID"`
	} `json:"SequenceNumber"`
	LoggerInformation []struct {
		STH GObj   `json:"STH"`
		POI poiDoc `json:"POI"`
	} `json:"LoggerInformation"`
}

func readExt(exts []pkix.Extension) (d extDoc, why string) {
	n := 0
	for _, e := range exts {
		if e.Id.Equal(oidCTng) {
			n++
			var raw asn1.RawValue
			if _, err := asn1.Unmarshal(e.Value, &raw); err != nil {
				return d, err.Error()
			}
			d = extDoc{}
			if err := json.Unmarshal(raw.Bytes, &d); err != nil {
				return d, err.Error()
			}
		}
	}
	if n != 1 {
		return d, fmt.Sprintf("%d CTng extensions", n)
	}
	return d, ""
}

func certSigned(c *x509.Certificate, ca string) bool {
	h := sha256.Sum256(c.RawTBSCertificate)
	return rsa.VerifyPKCS1v15(&keys.RSA[nameToID(ca)].PublicKey, crypto.SHA256, h[:], c.Signature) == nil
}

func runAuthority(tr *Trace) (*Divergence, int) {
	w := W
	N := num(tr.Init, "n")
	tp := Topo{NG: 1, T: 1, NL: num(tr.Init, "nl"), NC: 2, Wait: 5, MMD: 60, Cert: N}
	periodBase = 1
	dir, err := os.MkdirTemp(scratch, "ca")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	old, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(old)
	var mu sync.Mutex
	var sent []*Msg
	w.route = func(m *Msg) (int, []byte, error) {
		mu.Lock()
		defer mu.Unlock()
		sent = append(sent, m)
		return 200, nil, nil
	}
	take := func() []*Msg {
		mu.Lock()
		defer mu.Unlock()
		s := sent
		sent = nil
		return s
	}
	alignHour()
	time.Sleep(30 * time.Second)
	ctx := startCA(tp, "C1", dir)
	t0 := time.Now().Truncate(time.Minute).Add(time.Minute)
	per := 0
	at := func(d time.Duration) { time.Sleep(time.Until(t0.Add(time.Duration(per)*time.Minute + d))) }
	rids := map[int]string{}
	skis := map[string]string{}
	all := map[string]*issuedCert{} // "period/k"
	cur := func(k int) *issuedCert { return all[fmt.Sprint(per, "/", k)] }
	prev := func(k int) *issuedCert { return all[fmt.Sprint(per-1, "/", k)] }
	tree := func(cov []int) *mtree {
		// a tree always has a leaf of someone else
		t := &mtree{members: cov, proofs: map[int]*merkletree.Proof{}, stamp: fmt.Sprint("t", cov)}
		bl := []merkletree.DataBlock{&subjBlock{rawSubject(70)}}
		for _, k := range cov {
			bl = append(bl, &subjBlock{cur(k).cert.RawSubject})
		}
		if len(bl) < 2 {
			bl = append(bl, &subjBlock{rawSubject(71)})
		}
		mt, err := merkletree.New(nil, bl)
		if err != nil {
			fatal("%v", err)
		}
		t.root = mt.Root
		for i, k := range cov {
			t.proofs[k] = mt.Proofs[i+1]
		}
		t.proofs[0] = mt.Proofs[0]
		return t
	}
	good := map[string]map[string]bool{} // logger -> valid statements of this round
	evidence := func(i int, t string, exts map[int][]pkix.Extension, x []any) *Divergence {
		for _, y := range x {
			e := y.(map[string]any)
			k := num(e, "k")
			ex, ok := exts[k]
			if !ok {
				return div(i, t+"/pool", fmt.Sprintf("certificate %d is missing", k), nil, nil)
			}
			d, why := readExt(ex)
			if why != "" {
				return div(i, t+"/ext", "extension: "+why, nil, nil)
			}
			if d.SequenceNumber.RID != cur(k).rid {
				return div(i, t+"/number", "revocation number changed", cur(k).rid, d.SequenceNumber.RID)
			}
			got := map[string]bool{}
			for _, in := range d.LoggerInformation {
				l := idToName(in.STH.Signer)
				b := canonJSON(in.STH.json())
				_, sd, why := readSTH(in.STH.json(), l)
				root, _ := hex.DecodeString(sd.RootHash)
				switch {
				case why != "":
				case !good[l][b]:
					why = "the statement is not one the logger made for the coming period"
				case in.POI.LoggerID != in.STH.Signer || string(in.POI.SubjectKeyId) != string(cur(k).cert.SubjectKeyId):
					why = "the proof is of another logger or certificate"
				case !proves(root, in.POI.Poi, cur(k).cert.RawSubject):
					why = "the proof does not verify"
				}
				if why != "" {
					return div(i, t+"/unproven", fmt.Sprintf("certificate %d: evidence of %s: %s", k, l, why), nil, nil)
				}
				got[l] = true
			}
			for _, l := range strs(e, "must") {
				if !got[l] {
					return div(i, t+"/missing", fmt.Sprintf("certificate %d lacks the evidence of %s", k, l), strs(e, "must"), keysOf(got))
				}
			}
			may := map[string]bool{}
			for _, l := range strs(e, "may") {
				may[l] = true
			}
			for l := range got {
				if !may[l] {
					return div(i, t+"/extra", fmt.Sprintf("certificate %d has evidence of %s", k, l), strs(e, "may"), keysOf(got))
				}
			}
		}
		return nil
	}
	n := 0
	for i, s := range tr.Steps {
		n++
		np := len(w.panics)
		t := str(s.A, "t")
		switch t {
		case "issue":
			per = num(s.A, "p")
			good = map[string]map[string]bool{}
			at(3 * time.Second)
			synctest.Wait()
			seen := map[string]map[string]bool{}
			byRaw := map[string]*issuedCert{}
			for _, m := range take() {
				if strings.TrimSuffix(m.Path, "/") != "/Logger/receive-precerts" || m.Method != "POST" {
					return div(i, "issue/msg", "unexpected message to "+m.To, nil, m.Path), n
				}
				c, err := x509.ParseCertificate(m.Body)
				if err != nil {
					return div(i, "issue/cert", "unreadable precertificate: "+err.Error(), nil, nil), n
				}
				ic := byRaw[string(c.Raw)]
				if ic == nil {
					if !certSigned(c, "C1") || c.Issuer.CommonName != nameToID("C1") {
						return div(i, "issue/signature", "precertificate is not signed by the CA it names", nil, c.Issuer.CommonName), n
					}
					d, why := readExt(c.Extensions)
					if why != "" {
						return div(i, "issue/ext", "extension: "+why, nil, nil), n
					}
					ic = &issuedCert{per: per, k: len(byRaw) + 1, rid: d.SequenceNumber.RID, cert: c}
					byRaw[string(c.Raw)] = ic
					id := fmt.Sprint(per, "/", ic.k)
					if o, ok := rids[ic.rid]; ok {
						return div(i, "issue/number", fmt.Sprintf("certificates %s and %s have the same revocation number %d", o, id, ic.rid), nil, nil), n
					}
					if ic.rid < 0 || ic.rid >= 1000000 {
						return div(i, "issue/number", "revocation number out of range", nil, ic.rid), n
					}
					rids[ic.rid] = id
					if o, ok := skis[string(c.SubjectKeyId)]; ok || len(c.SubjectKeyId) == 0 {
						return div(i, "issue/key", fmt.Sprintf("certificates %s and %s have the same key identifier", o, id), nil, nil), n
					}
					skis[string(c.SubjectKeyId)] = id
					all[id] = ic
				}
				if seen[m.To] == nil {
					seen[m.To] = map[string]bool{}
				}
				seen[m.To][string(c.Raw)] = true
			}
			if len(byRaw) != num(s.A, "n") {
				return div(i, "issue/count", "precertificates issued", num(s.A, "n"), len(byRaw)), n
			}
			for _, l := range strs(rec(map[string]any{"x": s.X}, "x"), "per") {
				if len(seen[l]) != len(byRaw) {
					return div(i, "issue/sent", "precertificates sent to "+l, len(byRaw), len(seen[l])), n
				}
			}
		case "sth", "poi", "bad":
			path, body := "/CA/receive-sth", []byte(nil)
			switch t {
			case "sth":
				q := rec(s.A, "s")
				body = caSTH(q, tree(ints(list(q, "cov"))), per)
				if str(q, "b") == "ok" {
					l := str(q, "l")
					if good[l] == nil {
						good[l] = map[string]bool{}
					}
					good[l][canonJSON(body)] = true
				}
			case "poi":
				path = "/CA/receive-poi"
				q := rec(s.A, "q")
				body = caPOI(q, tree(ints(list(q, "cov"))), cur, prev, N)
			case "bad":
				path, body = badCA(str(s.A, "b"))
			}
			c, _, _ := w.deliverGo("C1", "POST", path, body)
			if c == -1 {
				return div(i, "stuck", "the handler does not return", nil, nil), n
			}
			time.Sleep(time.Second)
			synctest.Wait()
			if m := take(); len(m) > 0 {
				return div(i, t+"/msg", "unexpected message to "+m[0].To, nil, m[0].Path), n
			}
			exts := map[int][]pkix.Extension{}
			for _, c := range ctx.CurrentCertificatePool.GetCerts() {
				for k := 1; k <= N; k++ {
					if string(c.SubjectKeyId) == string(cur(k).cert.SubjectKeyId) {
						exts[k] = c.Extensions
					}
				}
			}
			if d := evidence(i, t, exts, s.X.([]any)); d != nil {
				return d, n
			}
		case "leave":
			at(40 * time.Second)
			exts := map[int][]pkix.Extension{}
			var out []*x509.Certificate
			if i%2 == 0 {
				out = CA.SignAllCerts(ctx)
			} else {
				ctx.SaveToStorage()
				fs, _ := filepath.Glob(filepath.Join(dir, "*.crt"))
				for _, f := range fs {
					b, _ := os.ReadFile(f)
					c, err := parseCertFile(b)
					if err != nil {
						return div(i, "leave/file", "saved certificate unreadable: "+err.Error(), nil, nil), n
					}
					out = append(out, c)
					os.Remove(f)
				}
			}
			for _, c := range out {
				if !certSigned(c, "C1") || c.Issuer.CommonName != nameToID("C1") {
					return div(i, "leave/signature", "certificate is not signed by its CA", nil, nil), n
				}
				for k := 1; k <= N; k++ {
					if string(c.SubjectKeyId) == string(cur(k).cert.SubjectKeyId) {
						exts[k] = c.Extensions
					}
				}
			}
			if d := evidence(i, t, exts, s.X.([]any)); d != nil {
				return d, n
			}
			at(45 * time.Second)
			synctest.Wait()
			if m := take(); len(m) > 0 {
				return div(i, t+"/msg", "unexpected message to "+m[0].To, nil, m[0].Path), n
			}
		default:
			fatal("bad action %v", s.A)
		}
		if len(w.panics) > np {
			return div(i, "crash", "panic: "+w.panics[np], nil, nil), n
		}
	}
	return nil, n
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func caSTH(q map[string]any, t *mtree, per int) []byte {
	l := str(q, "l")
	other := map[string]string{"L1": "L2", "L2": "L1"}[l]
	mk := func(l string, p int) *GObj {
		st := gstmt("sth", l, pname(p), 1)
		st["tree"] = t
		return initObjOf(st, "sth", l, pname(p), 1)
	}
	o := mk(l, per+1)
	text := o.Payload[0] + o.Payload[1] + o.Payload[2]
	switch str(q, "b") {
	case "ok":
	case "forged":
		o.Signature[0] = rsaSigString(rsaRaw("X1", text), nameToID(l))
	case "byother":
		o.Signature[0] = rsaSigString(rsaRaw(other, text), nameToID(other))
	case "signer": // another logger's statement under this logger's name
		o = mk(other, per+1)
		o.Signer = nameToID(l)
	case "stale":
		o = mk(l, per)
	case "future":
		o = mk(l, per+2)
	case "relabel":
		o = mk(l, per)
		o.Period = periodLabel(pname(per + 1))
	case "full":
		st := gstmt("sth", l, pname(per+1), 1)
		st["tree"] = t
		o = fullObjOf(st, "sth", l, pname(per+1), []string{"G1"})
		o.Signer = nameToID(l)
	case "unsigned":
		o.Signature[0] = ""
	default:
		fatal("bad statement %v", q)
	}
	return o.json()
}

func caPOI(q map[string]any, t *mtree, cur, prev func(int) *issuedCert, N int) []byte {
	k := num(q, "k")
	pr := t.proofs[k]
	if pr == nil {
		pr = t.proofs[0] // not in the tree: a proof of something else
	}
	poi := map[string]any{"Siblings": append([][]byte{}, pr.Siblings...), "Path": pr.Path}
	m := map[string]any{"poi": poi, "subjectKeyId": cur(k).cert.SubjectKeyId, "issuer": nameToID("C1"), "loggerID": nameToID(str(q, "l"))}
	switch str(q, "b") {
	case "ok":
	case "path":
		poi["Path"] = pr.Path ^ 1<<(len(pr.Siblings)-1)
	case "sib":
		s := append([][]byte{}, pr.Siblings...)
		s[0] = append([]byte{s[0][0] ^ 1}, s[0][1:]...)
		poi["Siblings"] = s
	case "short":
		poi["Siblings"] = [][]byte{}
	case "null":
		m["poi"] = nil
	case "other": // the proof of another certificate
		m["subjectKeyId"] = cur(k%N + 1).cert.SubjectKeyId
		if N == 1 {
			fatal("other needs two certificates")
		}
	case "unknown":
		m["subjectKeyId"] = []byte("nobody")
	case "nokey":
		delete(m, "subjectKeyId")
	case "old": // a certificate of the period before
		if o := prev(k); o != nil {
			m["subjectKeyId"] = o.cert.SubjectKeyId
		} else {
			m["subjectKeyId"] = []byte("nobody")
		}
	case "logger": // under the name of a logger that does not exist
		m["loggerID"] = nameToID("X1")
	case "monitor":
		m["loggerID"] = nameToID("M1")
	default:
		fatal("bad proof %v", q)
	}
	b, _ := json.Marshal(m)
	return b
}

func badCA(b string) (string, []byte) {
	i := strings.Index(b, "_")
	path := map[string]string{"sth": "/CA/receive-sth", "poi": "/CA/receive-poi"}[b[:i]]
	switch b[i+1:] {
	case "empty":
		return path, nil
	case "garbage":
		return path, []byte("<no>")
	case "null":
		return path, []byte("null")
	case "array":
		return path, []byte("[1,2]")
	case "obj":
		return path, []byte("{}")
	case "types":
		return path, []byte(`{"type":7,"payload":"x","poi":"y","signature":{}}`)
	case "rev": // a valid statement, but about revocations
		return path, initObj("rev", "C2", "p1", 1).json()
	case "con":
		return path, conObj("sth", "L1", "p1", 1, 2).json()
	}
	fatal("bad request %q", b)
	return "", nil
}

func parseCertFile(b []byte) (*x509.Certificate, error) {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil, fmt.Errorf("no PEM")
	}
	return x509.ParseCertificate(bl.Bytes)
}
