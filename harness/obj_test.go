package ctngverif

import (
	"bytes"
	"compress/gzip"
	stdcrypto "crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
)

// The concrete side of the specification's objects. Nothing here uses the code under test: the wire format is
// written out, so that a change of what the code produces or accepts is visible.

const typeBase = "http://ctng.uconn.edu/"

var typeURL = map[string]string{
	"STH_INIT": typeBase + "101", "REV_INIT": typeBase + "102", "ACC_INIT": typeBase + "103", "CON_INIT": typeBase + "104",
	"STH_FRAG": typeBase + "201", "REV_FRAG": typeBase + "202", "ACC_FRAG": typeBase + "203",
	"STH_FULL": typeBase + "301", "REV_FULL": typeBase + "302", "ACC_FULL": typeBase + "303",
}

var urlType = func() map[string]string {
	m := map[string]string{}
	for k, v := range typeURL {
		m[v] = k
	}
	return m
}()

// GObj is the wire format of a gossip object.
type GObj struct {
	Application   string    `json:"application"`
	Period        string    `json:"period"`
	Type          string    `json:"type"`
	Signer        string    `json:"signer"`
	Signers       []string  `json:"signers,omitempty"`
	Signature     [2]string `json:"signature"`
	Timestamp     string    `json:"timestamp"`
	Crypto_Scheme string    `json:"crypto_scheme"`
	Payload       [3]string `json:"payload,omitempty"`
}

func (g *GObj) json() []byte { b, _ := json.Marshal(g); return b }

// periods: "p3" is the 3rd minute after periodBase
var periodBase int

func periodLabel(p string) string {
	if p == "" {
		return ""
	}
	var k int
	if n, err := fmt.Sscanf(p, "p%d", &k); n != 1 || err != nil {
		fatal("bad period %q", p)
	}
	if strings.HasSuffix(p, "s") { // the number only
		return fmt.Sprint((periodBase + k + 60) % 60)
	}
	if strings.HasSuffix(p, "l") { // a digit too many
		return fmt.Sprintf("%03d", (periodBase+k+60)%60)
	}
	return fmt.Sprintf("%02d", (periodBase+k+60)%60)
}

func labelPeriod(l string) string {
	if l == "" {
		return ""
	}
	var k int
	if len(l) != 2 {
		return "?" + l
	}
	if n, err := fmt.Sscanf(l, "%02d", &k); n != 1 || err != nil {
		return "?" + l
	}
	return fmt.Sprintf("p%d", (k-periodBase+60)%60)
}

func entID(n string) string {
	if n == "" {
		return ""
	}
	return nameToID(n)
}

// ---- signatures ----

var sigCache = map[string]string{}

func rsaRaw(key string, msg string) []byte {
	ck := "R" + key + "|" + msg
	if s, ok := sigCache[ck]; ok {
		return []byte(s)
	}
	h := sha256.Sum256([]byte(msg))
	s, err := rsa.SignPKCS1v15(rand.Reader, keys.RSA[nameToID(key)], stdcrypto.SHA256, h[:])
	if err != nil {
		fatal("rsa sign: %v", err)
	}
	if len(sigCache) < 20000 {
		sigCache[ck] = string(s)
	}
	return s
}

func rsaSigString(raw []byte, id string) string {
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(raw), id)
}

func blsRaw(key string, msg string) *bls.Sign {
	ck := "B" + key + "|" + msg
	if s, ok := sigCache[ck]; ok {
		r := new(bls.Sign)
		if err := r.Deserialize([]byte(s)); err != nil {
			fatal("bls: %v", err)
		}
		return r
	}
	r := keys.BLS[nameToID(key)].Sign(msg)
	if len(sigCache) < 20000 {
		sigCache[ck] = string(r.Serialize())
	}
	return r
}

func fragSigString(s *bls.Sign, id string) string {
	return fmt.Sprintf(`{"sign":"%s","id":"%s"}`, s.SerializeToHexStr(), id)
}

func fullSigString(keyNames []string, ids []string, msg string) string {
	agg := new(bls.Sign)
	hexs := strings.Repeat("0", 192)
	if len(keyNames) > 0 {
		var l []bls.Sign
		for _, k := range keyNames {
			l = append(l, *blsRaw(k, msg))
		}
		agg.Aggregate(l)
		hexs = agg.SerializeToHexStr()
	} else {
		hexs = "c0" + strings.Repeat("0", 190) // the point at infinity
	}
	idl := make([]string, len(ids))
	for i, n := range ids {
		idl[i] = nameToID(n)
	}
	sort.Strings(idl)
	j, _ := json.Marshal(idl)
	return fmt.Sprintf(`{"sign":"%s", "ids":%s}`, hexs, j)
}

// ---- statements ----

func gz(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func bits(set []int) *bitset.BitSet {
	b := new(bitset.BitSet)
	for _, i := range set {
		b.Set(uint(i))
	}
	return b
}

// bitsN has the length the CA gives its vectors.
func bitsN(n int, set []int) *bitset.BitSet {
	b := bitset.New(uint(n))
	for _, i := range set {
		b.Set(uint(i))
	}
	return b
}

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func revBody(ca, plabel string, crvNew, delta *bitset.BitSet, key string) string {
	nb, _ := crvNew.MarshalBinary()
	db, _ := delta.MarshalBinary()
	msg := sha([]byte(plabel + string(sha(nb)) + string(sha(db))))
	srh := rsaSigString(rsaRaw(key, string(msg)), ca)
	j, _ := json.Marshal(map[string]any{"Period": plabel, "Delta_CRV": gz(db), "SRH": srh})
	return string(j)
}

func sthBody(signer, plabel string, v int) string {
	root := sha([]byte(fmt.Sprintf("root%d", v)))
	ts := "2000-01-01T00:00:00Z"
	if v == 3 { // the same tree as v=1, other time stamp
		root = sha([]byte("root1"))
		ts = "2000-01-01T00:00:07Z"
	}
	return sthBodyRoot(signer, plabel, ts, hex.EncodeToString(root), 2)
}

func sthBodyRoot(signer, plabel, ts, root string, size int) string {
	j, _ := json.Marshal(struct {
		Signer, Timestamp, Period, RootHash string
		TreeSize                            int
	}{signer, ts, plabel, root, size})
	return hex.EncodeToString(j)
}

// payloadOf builds the payload of a symbolic statement {ent, kind, inS, inP, v, scheme, lay}.
func payloadOf(st map[string]any) [3]string {
	ent := entID(str(st, "ent"))
	var p [3]string
	switch str(st, "kind") {
	case "sth":
		p = [3]string{ent, sthBody(entID(strd(st, "inS", str(st, "ent"))), periodLabel(str(st, "inP")), num(st, "v")), ""}
		if t, ok := st["tree"].(*mtree); ok { // a real Merkle tree
			p[1] = sthBodyRoot(ent, periodLabel(str(st, "inP")), t.stamp, hex.EncodeToString(t.root), len(t.members))
		}
	case "rev":
		if _, ok := st["n"]; ok { // explicit: the numbers it adds and the set its hash covers
			return revPayload(st)
		}
		d := bitsN(16, []int{num(st, "v")})
		key := str(st, "ent")
		if key == "" {
			key = "C1"
		}
		p = [3]string{ent, strd(st, "scheme", "CRV"), revBody(ent, periodLabel(str(st, "inP")), d, d, key)}
	case "acc":
		p = [3]string{ent, "", ""}
	case "sthx", "sthpre":
		p = [3]string{ent, sthBody(entID(strd(st, "inS", str(st, "ent"))), periodLabel(str(st, "inP")), num(st, "v")), "00"}
		if str(st, "kind") == "sthpre" {
			p[0], p[2] = "zz"+ent, ""
		}
	case "junk":
		p = [3]string{ent, "zz-not-hex", "{not json"}
	default:
		fatal("bad statement kind %v", st)
	}
	switch strd(st, "lay", "ok") {
	case "ok":
	case "shift": // the last byte of the entity moves to the next field
		if n := len(p[0]); n > 0 {
			p[1] = p[0][n-1:] + p[1]
			p[0] = p[0][:n-1]
		}
	case "tail": // the end of the middle field moves to the last one, or the start of the last to the middle one
		if n := len(p[1]); n > 2 && p[2] == "" {
			p[2] = p[1][n-2:]
			p[1] = p[1][:n-2]
		} else if n > 0 {
			p[1] = p[1] + p[2][:1]
			p[2] = p[2][1:]
		} else if len(p[0]) > 0 { // accusations
			p[2] = p[0][len(p[0])-1:]
			p[0] = p[0][:len(p[0])-1]
		}
	default:
		fatal("bad layout %v", st)
	}
	return p
}

// ridBit: the revocation number a small number of the specification stands for (chosen across word boundaries)
func ridBit(i int) int {
	return []int{5, 64, 1000, 999999, 63, 65, 128, 77, 7, 777777, 0}[i]
}

func ridBits(l []any) *bitset.BitSet {
	b := bitset.New(1000000)
	for _, x := range l {
		b.Set(uint(ridBit(int(x.(float64)))))
	}
	return b
}

var revCache = map[string][3]string{}

func revPayload(st map[string]any) [3]string {
	ck := canon(st) + fmt.Sprint(periodBase)
	if p, ok := revCache[ck]; ok {
		return p
	}
	ent := entID(str(st, "ent"))
	key := strd(st, "srh", str(st, "ent"))
	p := [3]string{ent, "CRV", revBody(ent, periodLabel(str(st, "inP")), ridBits(list(st, "n")), ridBits(list(st, "d")), key)}
	revCache[ck] = p
	return p
}

func textOf(st map[string]any) string {
	s := map[string]any{}
	for k, v := range st {
		s[k] = v
	}
	s["lay"] = "ok"
	p := payloadOf(s)
	return p[0] + p[1] + p[2]
}

// ---- helpers for decoded JSON ----

func str(m map[string]any, k string) string {
	v, ok := m[k]
	if !ok {
		fatal("no field %s in %v", k, m)
	}
	s, ok := v.(string)
	if !ok {
		fatal("field %s of %v is not a string", k, m)
	}
	return s
}

func strd(m map[string]any, k, d string) string {
	if _, ok := m[k]; !ok {
		return d
	}
	return str(m, k)
}

func num(m map[string]any, k string) int {
	f, ok := m[k].(float64)
	if !ok {
		fatal("field %s of %v is not a number", k, m)
	}
	return int(f)
}

func numd(m map[string]any, k string, d int) int {
	if _, ok := m[k]; !ok {
		return d
	}
	return num(m, k)
}

func rec(m map[string]any, k string) map[string]any {
	r, ok := m[k].(map[string]any)
	if !ok {
		fatal("field %s of %v is not a record", k, m)
	}
	return r
}

func list(m map[string]any, k string) []any {
	v, ok := m[k]
	if !ok {
		fatal("no field %s in %v", k, m)
	}
	r, ok := v.([]any)
	if !ok {
		fatal("field %s of %v is not a list", k, m)
	}
	return r
}

func strs(m map[string]any, k string) []string {
	r := []string{}
	for _, v := range list(m, k) {
		r = append(r, v.(string))
	}
	return r
}

func canon(v any) string { b, _ := json.Marshal(v); return string(b) }
