package ctngverif

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Gen"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
)

func init() {
	runners["config"] = runConfig
}

var configDirs int

type loadedEnt struct {
	name string
	cc   *crypto.CryptoConfig
	self string // address it goes by
	port string // port it listens on
	rec  map[string]any
	addr map[string][]string // lists of addresses, by what they are
}

// loadGenerated loads the files of entity i of kind k the way its main program does.
func loadGenerated(k string, i int) (l *loadedEnt, why string) {
	id := strconv.Itoa(i)
	l = &loadedEnt{name: k + id, rec: map[string]any{}, addr: map[string][]string{}}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessError); ok {
				panic(r)
			}
			why = fmt.Sprintf("loading panics: %v", r)
		}
	}()
	one := map[string]string{}
	signer := ""
	switch k {
	case "G":
		c, _ := Gen.InitializeOneEntity("Gossiper", id).(*gossiper.GossiperContext)
		l.cc, l.port = c.Gossiper_crypto_config, c.Gossiper_private_config.Port
		one["owner"] = c.Gossiper_private_config.Owner_URL
		l.addr["peers"] = c.Gossiper_private_config.Connected_Gossipers
		l.addr["gossipers"], l.addr["monitors"] = c.Gossiper_public_config.Gossiper_URLs, c.Gossiper_public_config.Signer_URLs
	case "M":
		c, _ := Gen.InitializeOneEntity("Monitor", id).(*monitor.MonitorContext)
		l.cc, l.port, signer = c.Monitor_crypto_config, c.Monitor_private_config.Port, c.Monitor_private_config.Signer
		one["gossiper"] = c.Monitor_private_config.Gossiper_URL
		l.addr["loggers"], l.addr["cas"] = c.Monitor_public_config.All_Logger_URLs, c.Monitor_public_config.All_CA_URLs
		for _, u := range c.Monitor_private_config.Logger_URLs { // may be fewer, but none that is not in the public list
			l.addr["loggers"] = append(l.addr["loggers"][:len(l.addr["loggers"]):len(l.addr["loggers"])], u)
		}
		for _, u := range c.Monitor_private_config.CA_URLs {
			l.addr["cas"] = append(l.addr["cas"][:len(l.addr["cas"]):len(l.addr["cas"])], u)
		}
	case "L":
		c, _ := Gen.InitializeOneEntity("Logger", id).(*Logger.LoggerContext)
		l.cc, l.port, signer = c.Logger_crypto_config, c.Logger_private_config.Port, c.Logger_private_config.Signer
		l.addr["cas"] = append(append([]string{}, c.Logger_public_config.All_CA_URLs...), c.Logger_private_config.CAlist...)
		l.addr["loggers"] = c.Logger_public_config.All_Logger_URLs
		l.addr["monitors"], l.addr["gossipers"] = c.Logger_private_config.Monitorlist, c.Logger_private_config.Gossiperlist
	case "C":
		c, _ := Gen.InitializeOneEntity("CA", id).(*CA.CAContext)
		l.cc, l.port, signer = c.CA_crypto_config, c.CA_private_config.Port, c.CA_private_config.Signer
		l.addr["cas"], l.addr["loggers"] = c.CA_public_config.All_CA_URLs, c.CA_public_config.All_Logger_URLs
		l.addr["monitors"], l.addr["gossipers"] = c.CA_private_config.Monitorlist, c.CA_private_config.Gossiperlist
		l.addr["submits"] = c.CA_private_config.Loggerlist
	}
	l.self = string(l.cc.SelfID)
	for n, a := range one {
		l.addr["1"+n] = []string{a}
	}
	h, p := l.self, ""
	if j := strings.LastIndex(h, ":"); j >= 0 {
		h, p = h[:j], h[j+1:]
	}
	l.rec["host"] = h
	l.rec["same"] = p != "" && p == l.port && (signer == "" || signer == l.self)
	l.rec["t"], l.rec["n"] = float64(l.cc.Threshold), float64(l.cc.N)
	return l, ""
}

// projConfig: what the loaded configurations say and can do
func projConfig(p map[string]any, real bool) (map[string]any, string) {
	n := map[string]int{"G": num(p, "ng"), "M": num(p, "ng"), "L": num(p, "nl"), "C": num(p, "nc")}
	var ents []*loadedEnt
	name := map[string]string{}
	for _, k := range []string{"G", "M", "L", "C"} {
		for i := 1; i <= n[k]; i++ {
			l, why := loadGenerated(k, i)
			if why != "" {
				return nil, l.name + ": " + why
			}
			if o, ok := name[l.self]; ok {
				return nil, fmt.Sprintf("%s and %s have the same address %s", o, l.name, l.self)
			}
			name[l.self] = l.name
			ents = append(ents, l)
		}
	}
	res := func(as []string) []any {
		seen := map[string]bool{}
		for _, a := range as {
			x, ok := name[a]
			if !ok {
				x = "?" + a
			}
			seen[x] = true
		}
		return sortedAny(seen)
	}
	out := []any{}
	for _, l := range ents {
		for k, as := range l.addr {
			r := res(as)
			switch {
			case k == "submits":
				l.rec[k] = "loggers"
				if len(r) == 0 {
					l.rec[k] = "nobody"
				}
				for _, x := range r {
					if x.(string)[0] != 'L' {
						l.rec[k] = r
					}
				}
			case k[0] == '1':
				l.rec[k[1:]] = r[0]
			default:
				l.rec[k] = r
			}
		}
		ids := []string{}
		for id := range l.cc.SignPublicMap {
			ids = append(ids, string(id))
		}
		l.rec["keys"] = res(ids)
		ids = nil
		for id := range l.cc.ThresholdPublicMap {
			ids = append(ids, string(id))
		}
		l.rec["tkeys"] = res(ids)
		out = append(out, map[string]any{"e": l.name, "k": l.rec})
	}
	sign, why := signatures(ents)
	if why != "" {
		return nil, why
	}
	return map[string]any{"ent": out, "sign": sign, "_ents": ents}, ""
}

func signatures(ents []*loadedEnt) ([]any, string) {
	msg := make([]byte, 24)
	rand.Read(msg)
	sign := []any{}
	for _, a := range ents {
		sig, err := a.cc.Sign(msg)
		if err != nil {
			return nil, a.name + " cannot sign: " + err.Error()
		}
		progress.Add(1)
		for _, b := range ents {
			at := map[string]bool{}
			for i, v := range ents {
				if a != b && len(ents) > 16 && i > 2 { // large networks: a few judges for the negative cases
					break
				}
				s := sig
				s.ID = b.cc.SelfID
				if v.cc.Verify(msg, s) == nil {
					at[v.name] = true
				}
			}
			sign = append(sign, map[string]any{"by": a.name, "as": b.name, "at": sortedAny(at)})
		}
	}
	return sign, ""
}

func sortedAny(m map[string]bool) []any {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []any{}
	for _, k := range ks {
		r = append(r, k)
	}
	return r
}

func endorsements(ents []*loadedEnt, want any) ([]any, string) {
	by := map[string]*loadedEnt{}
	for _, l := range ents {
		by[l.name] = l
	}
	out := []any{}
	msg := make([]byte, 24)
	rand.Read(msg)
	for _, w := range want.([]any) {
		s := strs(w.(map[string]any), "s")
		sort.Strings(s)
			progress.Add(1)
		frags := []crypto.SigFragment{}
		for _, g := range s {
			f, err := by[g].cc.ThresholdSign(string(msg))
			if err != nil {
				return nil, g + " cannot make a fragment: " + err.Error()
			}
			for _, l := range ents {
				if err := l.cc.FragmentVerify(string(msg), f); err != nil {
					return nil, fmt.Sprintf("%s does not accept the fragment of %s: %v", l.name, g, err)
				}
			}
			frags = append(frags, f)
		}
		at := map[string]bool{}
		seen := map[string]bool{}
		judge := func(agg crypto.ThresholdSig) {
			b, err := agg.String()
			if err == nil && seen[b] {
				return
			}
			seen[b] = true
			for _, l := range ents {
				if l.cc.ThresholdVerify(string(msg), agg) == nil {
					at[l.name] = true
				}
			}
		}
		for _, g := range s {
			if agg, err := by[g].cc.ThresholdAggregate(frags); err == nil {
				judge(agg)
			}
		}
		// without the check of the number when aggregating
		if agg, err := crypto.ThresholdAggregate(frags, len(frags)); err == nil {
			judge(agg)
		}
		out = append(out, map[string]any{"s": strsAny(s), "at": sortedAny(at)})
	}
	return out, ""
}

func strsAny(s []string) []any {
	r := []any{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

func runConfig(tr *Trace) (*Divergence, int) {
	configDirs++
	d := filepath.Join(scratch, fmt.Sprintf("gen%d", configDirs))
	if err := os.MkdirAll(d, 0755); err != nil {
		fatal("%v", err)
	}
	if err := os.Chdir(d); err != nil {
		fatal("%v", err)
	}
	defer func() {
		os.Chdir(scratch)
		os.RemoveAll(d)
	}()
	realKeys := tr.Init["real"] == true
	checks := 0
	for i, st := range tr.Steps {
		a := st.A
		p := a["p"].(map[string]any)
		where := "generate"
		switch str(a, "t") {
		case "generate":
			w := W
			if realKeys {
				W = nil // keys are made, not taken from the pool
			}
			path := ""
			if tr.Init["abs"] == true {
				path = d + "/"
			}
			Gen.Generateall(num(p, "ng"), num(p, "t"), num(p, "nl"), num(p, "nc"), 3, 60, 60, path)
			W = w
		case "map":
			where = "map/" + str(a, "l")
			ip := a["ip"].(map[string]any)
			m := func(k string) map[int]string {
				r := map[int]string{}
				for j, h := range ip[k].([]any) {
					r[j] = h.(string)
				}
				return r
			}
			var js Gen.IP_Json
			if str(a, "l") == "tmpl" {
				js = Gen.Generate_IP_Json_template(num(p, "nc"), num(p, "nl"), num(p, "ng"), "10.0.1.", 11, "10.0.2.", 41, "10.0.3.", 99)
			} else {
				js = Gen.IP_Json{Monitor_ip_map: m("M"), Gossiper_ip_map: m("G"), Logger_ip_map: m("L"), CA_ip_map: m("C")}
			}
			Gen.Write_IP_Json_to_files("lists/ip.json", js)
			Gen.Map_all(num(p, "nc"), num(p, "nl"), num(p, "ng"), Gen.Read_IP_Json_from_files("lists/ip.json"))
		}
		x := st.X.(map[string]any)
		var got map[string]any
		var why string
		if str(a, "t") == "keyfiles" {
			where = "keyfiles"
			got, why = keyfiles(p, realKeys, d)
		} else {
			got, why = projConfig(p, realKeys)
		}
		if why != "" {
			return div(i, where+"/load", why, nil, nil), checks
		}
		for _, part := range []string{"ent", "sign"} {
			checks++
			if c, w := unordered(got[part]), unordered(x[part]); c != w {
				return div(i, where+"/"+part, firstDiff(x[part], got[part]), nil, nil), checks
			}
		}
		e, why := endorsements(got["_ents"].([]*loadedEnt), x["endorse"])
		if why != "" {
			return div(i, where+"/endorse", why, nil, nil), checks
		}
		checks++
		if unordered(any(e)) != unordered(x["endorse"]) {
			return div(i, where+"/endorse", firstDiff(x["endorse"], any(e)), nil, nil), checks
		}
	}
	return nil, checks
}

// firstDiff names the first elements that only one of two sets has
func firstDiff(want, got any) string {
	w, g := map[string]bool{}, map[string]bool{}
	for _, x := range want.([]any) {
		w[unordered(x)] = true
	}
	for _, x := range got.([]any) {
		g[unordered(x)] = true
	}
	var b bytes.Buffer
	for _, k := range sortedAny(g) {
		if !w[k.(string)] {
			fmt.Fprintf(&b, "got %s ", k)
			break
		}
	}
	for _, k := range sortedAny(w) {
		if !g[k.(string)] {
			fmt.Fprintf(&b, "instead of %s", k)
			break
		}
	}
	return b.String()
}


// unordered: canonical form in which the order of arrays does not matter
func unordered(v any) string {
	switch x := v.(type) {
	case []any:
		r := []string{}
		for _, e := range x {
			r = append(r, unordered(e))
		}
		sort.Strings(r)
		return "[" + strings.Join(r, ",") + "]"
	case map[string]any:
		r := []string{}
		for k, e := range x {
			r = append(r, k+":"+unordered(e))
		}
		sort.Strings(r)
		return "{" + strings.Join(r, ",") + "}"
	}
	return canon(v)
}

// keyfiles: the key files of the crypto package are generated, saved and read back
func keyfiles(p map[string]any, real bool, d string) (map[string]any, string) {
	ids := []crypto.CTngID{}
	for i := 0; i < num(p, "ng"); i++ {
		ids = append(ids, crypto.CTngID(fmt.Sprintf("host%d.test:%d", i, 4000+i)))
	}
	w := W
	if real {
		W = nil
	}
	ccs, err := crypto.GenerateEntityCryptoConfigs(ids, num(p, "t"))
	W = w
	if err != nil {
		return nil, err.Error()
	}
	if err := crypto.SaveCryptoFiles(filepath.Join(d, "keyfiles"), ccs); err != nil {
		return nil, err.Error()
	}
	ents := []*loadedEnt{}
	for i, id := range ids {
		cc, err := crypto.ReadCryptoConfig(filepath.Join(d, "keyfiles", string(id)+".test.json"))
		if err != nil {
			return nil, err.Error()
		}
		if cc.SelfID != id || cc.Threshold != num(p, "t") || cc.N != len(ids) {
			return nil, fmt.Sprintf("%s reads back as %s, %d of %d", id, cc.SelfID, cc.Threshold, cc.N)
		}
		ents = append(ents, &loadedEnt{name: fmt.Sprintf("G%d", i+1), cc: cc})
	}
	sign, why := signatures(ents)
	return map[string]any{"ent": []any{}, "sign": sign, "_ents": ents}, why
}
