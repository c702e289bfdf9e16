package ctngverif

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/monitor"
	merkletree "github.com/txaty/go-merkletree"
)

func init() { runners["client"] = runClient }

// ---- Merkle trees over certificate subjects ----

type mtree struct {
	members []int
	root    []byte
	proofs  map[int]*merkletree.Proof
	stamp   string
}

type subjBlock struct{ b []byte }

func (s *subjBlock) Serialize() ([]byte, error) { return s.b, nil }

func subjName(n int) pkix.Name { return pkix.Name{CommonName: fmt.Sprintf("www.s%d.test", n), Organization: []string{"S"}} }

func rawSubject(n int) []byte {
	b, err := asn1.Marshal(subjName(n).ToRDNSequence())
	if err != nil {
		fatal("%v", err)
	}
	return b
}

var treeCache = map[string]*mtree{}

func treeOf(v int, members []int, stamp string) *mtree {
	ck := fmt.Sprint(v, members, stamp)
	if t, ok := treeCache[ck]; ok {
		return t
	}
	t := &mtree{members: members, proofs: map[int]*merkletree.Proof{}, stamp: stamp}
	var bl []merkletree.DataBlock
	for _, m := range members {
		bl = append(bl, &subjBlock{rawSubject(m)})
	}
	mt, err := merkletree.New(nil, bl)
	if err != nil {
		fatal("merkle: %v", err)
	}
	t.root = mt.Root
	for i, m := range members {
		t.proofs[m] = mt.Proofs[i]
	}
	treeCache[ck] = t
	return t
}

// ---- certificates ----

var oidCTng = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 67847871}

func ctngExt(v []byte) pkix.Extension {
	b, _ := asn1.Marshal(asn1.RawValue{Tag: asn1.TagOctetString, Bytes: v})
	return pkix.Extension{Id: oidCTng, Value: b}
}

func signCert(subj pkix.Name, serial int, issuer string, key *rsa.PrivateKey, pub *rsa.PublicKey, ski []byte, exts []pkix.Extension) *x509.Certificate {
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(serial)), Subject: subj, NotBefore: time.Unix(900000000, 0), NotAfter: time.Unix(4000000000, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, SubjectKeyId: ski, ExtraExtensions: exts, DNSNames: []string{subj.CommonName}}
	parent := &x509.Certificate{Subject: pkix.Name{CommonName: nameToID(issuer), Organization: []string{nameToID(issuer)}}, SubjectKeyId: []byte{1}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, pub, key)
	if err != nil {
		fatal("cert: %v", err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		fatal("cert: %v", err)
	}
	return c
}

type cliWorld struct {
	trees map[int]*mtree
	certs map[string]*x509.Certificate
}

func ints(l []any) []int {
	r := []int{}
	for _, x := range l {
		r = append(r, int(x.(float64)))
	}
	sort.Ints(r)
	return r
}

func pname(i int) string { return fmt.Sprintf("p%d", i) }

// info is one piece of logger evidence in a certificate.
func (cw *cliWorld) info(n map[string]any) map[string]any {
	e, v, p := str(n, "e"), num(n, "v"), pname(num(n, "i"))
	st := gstmt("sth", e, p, v)
	st["tree"] = cw.trees[v]
	var o *GObj
	if str(n, "typ") == "full" {
		o = fullObjOf(st, "sth", e, p, []string{"G1", "G2"})
		o.Signer = nameToID(e)
	} else {
		o = initObjOf(st, "sth", e, p, v)
	}
	text := o.Payload[0] + o.Payload[1] + o.Payload[2]
	switch str(n, "sig") {
	case "ok":
	case "forged":
		o.Signature[0] = rsaSigString(rsaRaw("X1", text), nameToID(e))
	case "byother": // signed by another logger
		o2 := map[string]string{"L1": "L2", "L2": "L1"}[e]
		o.Signature[0] = rsaSigString(rsaRaw(o2, text), nameToID(o2))
	case "signer": // valid but for the name of the signer
		o.Signer = nameToID(map[string]string{"L1": "L2", "L2": "L1"}[e])
	case "relabel": // the statement of another period
		st["inP"] = pname(num(n, "i") + 1)
		pl := payloadOf(st)
		o.Payload = pl
		o.Signature[0] = rsaSigString(rsaRaw(e, pl[0]+pl[1]+pl[2]), nameToID(e))
	default:
		fatal("bad info %v", n)
	}
	poi := map[string]any{"subjectKeyId": []byte("k"), "issuer": nameToID("C1"), "loggerID": nameToID(e)}
	pr := cw.trees[num(n, "pv")].proofs[num(n, "ps")]
	if pr == nil {
		fatal("subject %d not in tree %d", num(n, "ps"), num(n, "pv"))
	}
	sib := append([][]byte{}, pr.Siblings...)
	path := pr.Path
	switch str(n, "pt") {
	case "no":
		poi["poi"] = map[string]any{"Siblings": sib, "Path": path}
	case "none":
	case "path":
		poi["poi"] = map[string]any{"Siblings": sib, "Path": path ^ 1}
	case "sib":
		sib[0] = append([]byte{sib[0][0] ^ 1}, sib[0][1:]...)
		poi["poi"] = map[string]any{"Siblings": sib, "Path": path}
	case "short":
		poi["poi"] = map[string]any{"Siblings": [][]byte{}, "Path": path}
	default:
		fatal("bad proof %v", n)
	}
	return map[string]any{"STH": o, "POI": poi}
}

func (cw *cliWorld) cert(c map[string]any, i int) *x509.Certificate {
	var exts []pkix.Extension
	infos := []any{}
	for _, n := range list(c, "infos") {
		infos = append(infos, cw.info(n.(map[string]any)))
	}
	rid := ridBit(num(c, "rid"))
	j, _ := json.Marshal(map[string]any{"SequenceNumber": map[string]any{"RID": rid}, "LoggerInformation": infos})
	switch str(c, "ext") {
	case "ok":
		exts = append(exts, ctngExt(j))
	case "none":
	case "junk":
		exts = append(exts, ctngExt(j[:len(j)/2]))
	case "asn1":
		exts = append(exts, pkix.Extension{Id: oidCTng, Value: j})
	default:
		fatal("bad ext %v", c)
	}
	return signCert(subjName(num(c, "subj")), 100+i, str(c, "iss"), keys.RSA[nameToID(str(c, "iss"))], &keys.Pool[i%len(keys.Pool)].PublicKey, []byte{byte(i), 7}, exts)
}

// updObj builds an object of an update.
func (cw *cliWorld) updObj(o map[string]any) *GObj {
	t, e, p := str(o, "t"), str(o, "e"), pname(num(o, "i"))
	b := str(o, "b")
	gs := []string{"G1", "G2"}
	switch b {
	case "one":
		gs = []string{"G1"}
	case "repeat":
		gs = []string{"G1", "G1"}
	case "outsider":
		gs = []string{"G1", "G5"}
	}
	if t == "con" {
		switch b {
		case "ok":
			return conObj("sth", e, p, 1, 2)
		case "same":
			return conObj("sth", e, p, 1, 1)
		case "forged":
			c := conObj("sth", e, p, 1, 2)
			c.Signature[1] = rsaSigString(rsaRaw("X1", c.Payload[2]), nameToID(e))
			return c
		case "periods":
			c, d := conObj("sth", e, p, 1, 2), conObj("sth", e, pname(num(o, "i")+1), 1, 2)
			c.Payload[2], c.Signature[1] = d.Payload[2], d.Signature[1]
			return c
		case "framed": // a genuine proof against another entity under this one's name
			c := conObj("sth", map[string]string{"L1": "L2", "L2": "L1"}[e], p, 1, 2)
			c.Payload[0] = nameToID(e)
			return c
		case "kind":
			return fullObj("acc", e, p, 0, gs)
		}
		fatal("bad object %v", o)
	}
	k := t
	v := 0
	if _, ok := o["v"]; ok {
		v = num(o, "v")
	}
	stmt := func(e, p string, v int) map[string]any {
		st := gstmt(k, e, p, v)
		if k == "sth" {
			st["tree"] = cw.trees[v]
		}
		if k == "rev" {
			st["n"], st["d"] = o["n"], o["d"]
		}
		return st
	}
	st := stmt(e, p, v)
	switch b {
	case "ok", "one", "repeat", "outsider":
		return fullObjOf(st, k, e, p, gs)
	case "forged": // made over another statement
		f := fullObjOf(st, k, e, p, gs)
		f.Signature[0] = fullSigString(gs, gs, "something else")
		return f
	case "altered": // the statement of another entity's threshold object
		e2 := map[string]string{"L1": "L2", "L2": "L1", "C1": "C2", "C2": "C1"}[e]
		f := fullObjOf(stmt(e2, p, v), k, e2, p, gs)
		f.Payload = payloadOf(st)
		return f
	case "init": // the statement itself, not endorsed
		if k == "acc" {
			return accObj(e, p, "M1")
		}
		return initObjOf(st, k, e, p, v)
	case "frag":
		f := fullObjOf(st, k, e, p, gs)
		f.Type = typeURL[map[string]string{"sth": "STH_FRAG", "rev": "REV_FRAG", "acc": "ACC_FRAG"}[k]]
		f.Signers, f.Signer = nil, nameToID("G1")
		f.Signature[0] = fragSigString(blsRaw("G1", f.Payload[0]+f.Payload[1]+f.Payload[2]), nameToID("G1"))
		return f
	case "relabel":
		f := fullObjOf(st, k, e, p, gs)
		f.Period = periodLabel(pname(num(o, "i") + 1))
		return f
	case "kind": // a genuine object of another kind
		if k == "acc" {
			return fullObj("sth", e, p, 1, gs)
		}
		return fullObj("acc", e, p, 0, gs)
	case "srh": // the revocation hash is signed by another CA
		st["srh"] = map[string]string{"C1": "C2", "C2": "C1"}[e]
		return fullObjOf(st, k, e, p, gs)
	}
	fatal("bad object %v", o)
	return nil
}

func (cw *cliWorld) update(u map[string]any, flip bool) []byte {
	get := func(f string, keep bool) []*GObj {
		r := []*GObj{}
		for _, x := range list(u, f) {
			r = append(r, cw.updObj(x.(map[string]any)))
		}
		if flip && !keep {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
		return r
	}
	b, _ := json.Marshal(map[string]any{"STHs": get("sth", false), "REVs": get("rev", true), "POM_CONs": get("con", false), "POM_ACCs": get("acc", false),
		"MonitorID": nameToID("M1"), "Period": periodLabel("p0")})
	return b
}

var cliWorlds = map[string]*cliWorld{}

func runClient(tr *Trace) (*Divergence, int) {
	w := W
	periodBase = 1
	tp := Topo{NG: 4, T: 2, NL: 2, NC: 2, Wait: 5, MMD: 60, Cert: 2}
	ck := canon(tr.Init)
	cw := cliWorlds[ck]
	if cw == nil {
		cw = &cliWorld{trees: map[int]*mtree{}, certs: map[string]*x509.Certificate{}}
		for _, x := range list(tr.Init, "trees") {
			t := x.(map[string]any)
			cw.trees[num(t, "v")] = treeOf(num(t, "v"), ints(list(t, "m")), str(t, "stamp"))
		}
		for i, x := range list(tr.Init, "certs") {
			c := x.(map[string]any)
			cw.certs[str(c, "id")] = cw.cert(c, i)
		}
		cliWorlds[ck] = cw
	}
	dir, err := os.MkdirTemp(scratch, "cli")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	writeJSON(filepath.Join(dir, "cfg"), map[string]any{"Monitor_URLs": Monitors[:tp.NG], "MMD": 60, "MRD": 60, "Client_URL": "", "Port": "3000",
		"STH_Storage_filepath": filepath.Join(dir, "sth.json"), "CRV_Storage_filepath": filepath.Join(dir, "crv.json"), "PoM_Store_filepath": filepath.Join(dir, "pom.json")})
	start := func(status string) *client.ClientContext {
		ctx := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: filepath.Join(dir, "cfg"), Crypto_filepath: filepath.Join(configDir(tp), nameToID("M1")+".crypto"), Status: status}
		ctx.InitializeClientContext()
		return ctx
	}
	ctx := start("NEW")
	n := 0
	for i, s := range tr.Steps {
		t := str(s.A, "t")
		x := s.X.(map[string]any)
		switch t {
		case "update":
			body := cw.update(rec(s.A, "u"), i%2 == 1)
			var u monitor.ClientUpdate
			switch i % 3 {
			case 0:
				if err := json.Unmarshal(body, &u); err != nil {
					return div(i, "update/decode", err.Error(), nil, nil), n
				}
			case 1:
				f := filepath.Join(dir, "update.json")
				os.WriteFile(f, body, 0644)
				u = ctx.LoadUpdate(f)
			case 2:
				w.route = func(m *Msg) (int, []byte, error) { return 200, body, nil }
				var err error
				u, err = client.FetchClientUpdate("http://" + nameToID("M1") + "/monitor/get-update")
				if err != nil {
					return div(i, "update/fetch", err.Error(), nil, nil), n
				}
			}
			done := make(chan bool, 1)
			go func() {
				defer close(done)
				done <- ctx.HandleUpdate(u, s.A["verify"] == true, false)
			}()
			ret := <-done
			n++
			if r := str(x, "ret"); r != "?" && (r == "y") != ret {
				return div(i, "update/ret", "result of the update", r, ret), n
			}
		case "save":
			client.SaveSTHDatabase(ctx)
			client.SaveCRVDatabase(ctx)
			client.SavePomDatabase(ctx)
		case "restart":
			ctx = start("")
		default:
			fatal("bad action %v", s.A)
		}
		for _, y := range list(x, "ver") {
			c := y.(map[string]any)
			want := str(c, "x")
			if want == "?" {
				continue
			}
			n++
			got := ctx.VerifyCTngextension(cw.certs[str(c, "id")])
			if got != (want == "y") {
				return div(i, t+"/verdict/"+str(c, "id"), "verdict on certificate "+str(c, "id"), want, got), n
			}
		}
	}
	return nil, n
}
