package ctngverif

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/herumi/bls-go-binary/bls"
)

// Fixture identities. Ports are unique, so a request's port names its target.
var (
	Gossipers = []string{"localhost:8080", "localhost:8081", "localhost:8082", "localhost:8083", "localhost:8084"}
	Monitors  = []string{"localhost:8180", "localhost:8181", "localhost:8182", "localhost:8183", "localhost:8184"}
	Loggers   = []string{"localhost:9000", "localhost:9001"}
	CAs       = []string{"localhost:9100", "localhost:9101"}
	Outsider  = "localhost:9999" // has a key pair, but no entry in any public map
)

func nameToID(n string) string {
	i := int(n[1] - '1')
	switch n[0] {
	case 'G':
		return Gossipers[i]
	case 'M':
		return Monitors[i]
	case 'L':
		return Loggers[i]
	case 'C':
		return CAs[i]
	case 'X':
		return Outsider
	}
	panic("bad entity name " + n)
}

func idToName(id string) string {
	for i, s := range Gossipers {
		if s == id {
			return fmt.Sprintf("G%d", i+1)
		}
	}
	for i, s := range Monitors {
		if s == id {
			return fmt.Sprintf("M%d", i+1)
		}
	}
	for i, s := range Loggers {
		if s == id {
			return fmt.Sprintf("L%d", i+1)
		}
	}
	for i, s := range CAs {
		if s == id {
			return fmt.Sprintf("C%d", i+1)
		}
	}
	if id == Outsider {
		return "X1"
	}
	return "?" + id
}

type keyFile struct {
	RSA  map[string]string // id -> base64 PKCS1
	BLS  map[string]string // id -> hex secret
	Pool []string          // spare RSA keys, base64 PKCS1
}

type Keys struct {
	RSA  map[string]*rsa.PrivateKey
	BLS  map[string]*bls.SecretKey
	Pool []*rsa.PrivateKey
}

var keys *Keys

func allIDs() []string {
	var r []string
	r = append(r, Gossipers...)
	r = append(r, Monitors...)
	r = append(r, Loggers...)
	r = append(r, CAs...)
	return r
}

// TestGenFixtures writes the committed key fixture; it is run by hand once.
func TestGenFixtures(t *testing.T) {
	out := os.Getenv("VERIF_GEN_FIXTURES")
	if out == "" {
		t.Skip()
	}
	bls.Init(bls.BLS12_381)
	kf := keyFile{RSA: map[string]string{}, BLS: map[string]string{}}
	enc := func() string {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			t.Fatal(err)
		}
		return base64.StdEncoding.EncodeToString(x509.MarshalPKCS1PrivateKey(k))
	}
	for _, id := range append(allIDs(), Outsider) {
		kf.RSA[id] = enc()
		var s bls.SecretKey
		s.SetByCSPRNG()
		kf.BLS[id] = s.SerializeToHexStr()
	}
	for i := 0; i < 24; i++ {
		kf.Pool = append(kf.Pool, enc())
	}
	b, _ := json.MarshalIndent(kf, "", " ")
	os.WriteFile(out, b, 0644)
}

func loadKeys(path string) {
	bls.Init(bls.BLS12_381)
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("fixtures: %v", err)
	}
	var kf keyFile
	if err := json.Unmarshal(b, &kf); err != nil {
		fatal("fixtures: %v", err)
	}
	k := &Keys{RSA: map[string]*rsa.PrivateKey{}, BLS: map[string]*bls.SecretKey{}}
	dec := func(s string) *rsa.PrivateKey {
		d, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			fatal("fixtures: %v", err)
		}
		p, err := x509.ParsePKCS1PrivateKey(d)
		if err != nil {
			fatal("fixtures: %v", err)
		}
		return p
	}
	for id, s := range kf.RSA {
		k.RSA[id] = dec(s)
	}
	for id, s := range kf.BLS {
		sk := new(bls.SecretKey)
		if err := sk.DeserializeHexStr(s); err != nil {
			fatal("fixtures: %v", err)
		}
		k.BLS[id] = sk
	}
	for _, s := range kf.Pool {
		k.Pool = append(k.Pool, dec(s))
	}
	ids := []string{}
	for id := range k.RSA {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		k.Pool = append(k.Pool, k.RSA[id])
	}
	keys = k
}

// ---- configuration files in the on-disk format every CTng process reads ----

type Topo struct {
	NG, T      int // gossipers (= monitors), threshold
	NL, NC     int
	Edges      [][]int // Edges[i] = 0-based peers of gossiper i (nil: complete graph)
	Wait, MMD  int
	Cert       int     // certificates per period and CA
	MonLoggers [][]int // loggers monitor i queries (nil: all)
	MonCAs     [][]int
}

func (tp Topo) ids() []string {
	var r []string
	r = append(r, Gossipers[:tp.NG]...)
	r = append(r, Monitors[:tp.NG]...)
	r = append(r, Loggers[:tp.NL]...)
	r = append(r, CAs[:tp.NC]...)
	return r
}

func cryptoJSON(tp Topo, self string) map[string]any {
	pubs := map[string]any{}
	for _, id := range tp.ids() {
		pk := keys.RSA[id].PublicKey
		pubs[id] = map[string]any{"N": pk.N, "E": pk.E}
	}
	tpubs := map[string][]byte{}
	for _, g := range Gossipers[:tp.NG] {
		tpubs[g] = keys.BLS[g].GetPublicKey().Serialize()
	}
	var tsec []byte = []byte{}
	if idToName(self)[0] == 'G' {
		tsec = keys.BLS[self].Serialize()
	}
	return map[string]any{
		"SelfID": self, "Threshold": tp.T, "N": tp.NG, "HashScheme": 4, "SignScheme": "rsa", "ThresholdScheme": "bls",
		"SignPublicMap": pubs, "SignSecretKey": keys.RSA[self],
		"ThresholdPublicMap": tpubs, "ThresholdSecretKey": tsec,
	}
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("writeJSON: %v", err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("writeJSON: %v", err)
	}
}

func pick(all []string, idx [][]int, i int) []string {
	r := []string{}
	if idx == nil {
		return append(r, all...)
	}
	for _, j := range idx[i] {
		r = append(r, all[j])
	}
	return r
}

var topoCache = map[string]string{}

// configDir writes (once per process) the configuration of every entity of a topology and returns the directory.
func configDir(tp Topo) string {
	kb, _ := json.Marshal(tp)
	if d, ok := topoCache[string(kb)]; ok {
		return d
	}
	d := filepath.Join(scratch, fmt.Sprintf("cfg%d", len(topoCache)))
	os.MkdirAll(d, 0755)
	for i := 0; i < tp.NG; i++ {
		g, m := Gossipers[i], Monitors[i]
		peers := []string{}
		for j := 0; j < tp.NG; j++ {
			if tp.Edges == nil && j != i {
				peers = append(peers, Gossipers[j])
			}
		}
		if tp.Edges != nil {
			for _, j := range tp.Edges[i] {
				peers = append(peers, Gossipers[j])
			}
		}
		writeJSON(filepath.Join(d, g+".priv"), map[string]any{"Connected_Gossipers": peers, "Owner_URL": m, "Port": g[10:]})
		writeJSON(filepath.Join(d, g+".pub"), map[string]any{"Gossip_wait_time": tp.Wait, "MMD": tp.MMD, "MRD": tp.MMD, "Gossiper_URLs": Gossipers[:tp.NG], "Signer_URLs": Monitors[:tp.NG]})
		writeJSON(filepath.Join(d, g+".crypto"), cryptoJSON(tp, g))
		writeJSON(filepath.Join(d, m+".priv"), map[string]any{"CA_URLs": pick(CAs[:tp.NC], tp.MonCAs, i), "Logger_URLs": pick(Loggers[:tp.NL], tp.MonLoggers, i), "Signer": m, "Gossiper_URL": g, "Inbound_gossiper_port": g[10:], "Port": m[10:]})
		writeJSON(filepath.Join(d, m+".pub"), map[string]any{"All_CA_URLs": CAs[:tp.NC], "All_Logger_URLs": Loggers[:tp.NL], "Gossip_wait_time": tp.Wait, "MMD": tp.MMD, "MRD": tp.MMD})
		writeJSON(filepath.Join(d, m+".crypto"), cryptoJSON(tp, m))
	}
	for _, l := range Loggers[:tp.NL] {
		writeJSON(filepath.Join(d, l+".priv"), map[string]any{"Signer": l, "Port": l[10:], "CAlist": CAs[:tp.NC], "Monitorlist": Monitors[:tp.NG], "Gossiperlist": Gossipers[:tp.NG]})
		writeJSON(filepath.Join(d, l+".pub"), map[string]any{"All_CA_URLs": CAs[:tp.NC], "All_Logger_URLs": Loggers[:tp.NL], "MMD": tp.MMD, "MRD": tp.MMD, "Http_vers": []string{"1.1"}})
		writeJSON(filepath.Join(d, l+".crypto"), cryptoJSON(tp, l))
	}
	for _, c := range CAs[:tp.NC] {
		writeJSON(filepath.Join(d, c+".priv"), map[string]any{"Signer": c, "Port": c[10:], "Loggerlist": Loggers[:tp.NL], "Monitorlist": Monitors[:tp.NG], "Gossiperlist": Gossipers[:tp.NG], "Cert_per_period": tp.Cert})
		writeJSON(filepath.Join(d, c+".pub"), map[string]any{"All_CA_URLs": CAs[:tp.NC], "All_Logger_URLs": Loggers[:tp.NL], "MMD": tp.MMD, "MRD": tp.MMD, "Http_vers": []string{"1.1"}})
		writeJSON(filepath.Join(d, c+".crypto"), cryptoJSON(tp, c))
	}
	topoCache[string(kb)] = d
	return d
}

func hexs(b []byte) string { return hex.EncodeToString(b) }
