package ctngverif

import (
	"encoding/json"
	"path/filepath"
	"strings"

	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
)

func init() { runners["verify"] = runVerify }

func sigOf(sg map[string]any, scheme string) string {
	form := str(sg, "form")
	if form == "empty" {
		return ""
	}
	if form == "garbage" {
		return "not a signature"
	}
	text := textOf(rec(sg, "text"))
	var s string
	if form == "swap" { // the other signature scheme
		if scheme == "rsa" {
			scheme = "bls"
		} else {
			scheme = "rsa"
		}
	}
	switch scheme {
	case "rsa":
		s = rsaSigString(rsaRaw(str(sg, "key"), text), entID(str(sg, "id")))
	case "bls":
		s = fragSigString(blsRaw(str(sg, "key"), text), entID(str(sg, "id")))
	}
	return reform(s, form)
}

// reform alters the encoded signature
func reform(s, form string) string {
	b := strings.Index(s, `":"`) + 3
	e := b + strings.Index(s[b:], `"`)
	switch form {
	case "flip": // another digit
		i := b + 40
		c := byte('0')
		if s[i] == '0' {
			c = '1'
		}
		return s[:i] + string(c) + s[i+1:]
	case "odd": // a digit too many
		return s[:e] + "0" + s[e:]
	case "short": // a byte too few
		return s[:e-2] + s[e:]
	case "long": // a byte too many
		return s[:e] + "00" + s[e:]
	case "recode": // the same bytes, other digits
		return s[:b] + strings.ToUpper(s[b:e]) + s[e:]
	}
	return s
}

// buildObj makes the concrete object of a symbolic one.
func buildObj(o map[string]any) *GObj {
	t := str(o, "type")
	g := &GObj{Application: "CTng", Type: typeURL[t], Period: periodLabel(str(o, "period")), Timestamp: "2000-01-01T00:00:00Z"}
	if g.Type == "" {
		g.Type = t
	}
	switch str(o, "shape") {
	case "init":
		g.Signer, g.Crypto_Scheme = entID(str(o, "signer")), "RSA"
		g.Payload = payloadOf(rec(o, "st"))
		g.Signature[0] = sigOf(rec(o, "sig"), "rsa")
	case "frag":
		g.Signer, g.Crypto_Scheme = entID(str(o, "signer")), "bls"
		g.Payload = payloadOf(rec(o, "st"))
		g.Signature[0] = sigOf(rec(o, "sig"), "bls")
	case "full":
		g.Crypto_Scheme = "bls"
		g.Payload = payloadOf(rec(o, "st"))
		sg := rec(o, "sig")
		for _, n := range strs(sg, "ids") {
			g.Signers = append(g.Signers, nameToID(n))
		}
		switch str(sg, "form") {
		case "empty":
		case "garbage":
			g.Signature[0] = "not a signature"
		default:
			g.Signature[0] = fullSigString(strs(sg, "contrib"), strs(sg, "ids"), textOf(rec(sg, "text")))
			g.Signature[0] = reform(g.Signature[0], str(sg, "form"))
		}
	case "con":
		g.Payload = [3]string{entID(str(o, "ent")), textOf(rec(o, "st1")), textOf(rec(o, "st2"))}
		g.Signature = [2]string{sigOf(rec(o, "sig1"), "rsa"), sigOf(rec(o, "sig2"), "rsa")}
	default:
		fatal("bad shape %v", o)
	}
	return g
}

var cryptoCache = map[string]*crypto.CryptoConfig{}

func cryptoFor(tp Topo, who string, verifyOnly bool) *crypto.CryptoConfig {
	k := configDir(tp) + who
	if verifyOnly {
		k += "v"
	}
	if c, ok := cryptoCache[k]; ok {
		return c
	}
	read := crypto.ReadCryptoConfig
	if verifyOnly {
		read = crypto.ReadVerifyOnlyCryptoConfig
	}
	c, err := read(filepath.Join(configDir(tp), nameToID(who)+".crypto"))
	if c == nil { // entities other than gossipers have no threshold key, which the reader reports
		fatal("reading crypto config: %v", err)
	}
	cryptoCache[k] = c
	return c
}

// runVerify: every step is an object and the verdict the specification gives.
func runVerify(tr *Trace) (*Divergence, int) {
	tp := Topo{NG: num(tr.Init, "ng"), T: num(tr.Init, "t"), NL: 2, NC: 2, Wait: 5, MMD: 60, Cert: 2}
	periodBase = 3
	n := 0
	for i, s := range tr.Steps {
		o := rec(s.A, "o")
		g := buildObj(o)
		want := s.X.(bool)
		var d definition.Gossip_object
		if err := json.Unmarshal(g.json(), &d); err != nil {
			fatal("object does not decode: %v", err)
		}
		for _, who := range []string{"G1", "M2", "client"} {
			var c *crypto.CryptoConfig
			if who == "client" {
				c = cryptoFor(tp, "M1", true)
			} else {
				c = cryptoFor(tp, who, false)
			}
			got := d.Verify(c) == nil
			n++
			if got != want {
				return div(i, str(s.A, "facet"), "verdict of "+who, want, got), n
			}
		}
	}
	return nil, n
}
