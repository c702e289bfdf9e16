From 116307437093193b958f63ff896975f49c0f46fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:24:24 +0000
Subject: [PATCH 01/18] fix: bind gossip object signatures to signer, entity,
 statement type and period; count distinct known threshold signers

---
 Logger/buildmerkle.go   |  8 ++--
 crypto/crypto_config.go | 19 ++++++++-
 definition/Types.go     |  3 ++
 definition/Verify.go    | 90 ++++++++++++++++++++++++++++++++++++++---
 4 files changed, 110 insertions(+), 10 deletions(-)

diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..21fcf70 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,7 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
+	"fmt"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -25,10 +25,12 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 			LoggerID:     ctx.Logger_private_config.Signer,
 		})
 	}
+	// the STH is signed for the period it is published under
+	period := fmt.Sprintf("%02d", periodNum)
 	STH1 := definition.STH{
 		Signer:    string(ctx.Logger_private_config.Signer),
 		Timestamp: util.GetCurrentTimestamp(),
-		Period:    util.GetCurrentPeriod(),
+		Period:    period,
 		RootHash:  hex.EncodeToString(roothash),
 		TreeSize:  len(blocks),
 	}
@@ -40,7 +42,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        period,
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..bb5d3c6 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -41,7 +41,10 @@ func (c *CryptoConfig) Sign(msg []byte) (RSASig, error) {
 // Verify a message using the configured "normal signature" scheme, and the stored public keys.
 func (c *CryptoConfig) Verify(msg []byte, sig RSASig) error {
 	if c.SignScheme == "rsa" {
-		pub := c.SignPublicMap[sig.ID]
+		pub, ok := c.SignPublicMap[sig.ID]
+		if !ok {
+			return errors.New("Unknown Signer")
+		}
 		//fmt.Println("PublicKey Found: ",pub)
 		return RSAVerify(msg, sig, &pub)
 	}
@@ -74,6 +77,17 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// at least Threshold different known signers are needed
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if _, ok := c.ThresholdPublicMap[id]; !ok || signers[id] {
+				return errors.New("Threshold Signature has unknown or repeated signers")
+			}
+			signers[id] = true
+		}
+		if len(signers) == 0 || len(signers) < c.Threshold || sig.Sign == nil {
+			return errors.New("Not enough signers")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
@@ -87,6 +101,9 @@ func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) FragmentVerify(msg string, sig SigFragment) error {
 	if c.ThresholdScheme == "bls" {
+		if _, ok := c.ThresholdPublicMap[sig.ID]; !ok || sig.Sign == nil {
+			return errors.New("Unknown Signer")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
diff --git a/definition/Types.go b/definition/Types.go
index 3cd14e8..8ad9e48 100644
--- a/definition/Types.go
+++ b/definition/Types.go
@@ -43,6 +43,9 @@ type STH struct {
 // The only valid application type
 const CTNG_APPLICATION = "CTng"
 
+// The only valid revocation scheme
+const REV_SCHEME = "CRV"
+
 // Identifiers for different types of gossip object or PoM counter that can be sent.
 const (
 	STH_INIT = "http://ctng.uconn.edu/101"
diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..5a16333 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -5,10 +5,10 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/util"
-	//"strings"
 	//"time"
 )
 
@@ -19,11 +19,70 @@ const (
 	Invalid_Type = "Invalid Type"
 )
 
+// period of the statement carried by an STH payload ("" unless it is a well-formed STH of the entity)
+func sthPeriod(entity string, payload1 string) string {
+	var sth STH
+	sthBytes, err := hex.DecodeString(payload1)
+	if err != nil || json.Unmarshal(sthBytes, &sth) != nil || sth.Signer != entity {
+		return ""
+	}
+	return sth.Period
+}
+
+// period of the statement carried by a REV payload ("" unless it is a well-formed revocation)
+func revPeriod(scheme string, payload2 string) string {
+	var rev Revocation
+	if scheme != REV_SCHEME || json.Unmarshal([]byte(payload2), &rev) != nil {
+		return ""
+	}
+	return rev.Period
+}
+
+// The signatures only cover the concatenated payload: type and period of a gossip object
+// are bound to it by requiring the payload to be a statement of that type and period.
+func Verify_Statement(g Gossip_object) error {
+	ok := false
+	switch g.Type {
+	case STH_INIT, STH_FRAG, STH_FULL:
+		ok = g.Period != "" && g.Payload[2] == "" && sthPeriod(g.Payload[0], g.Payload[1]) == g.Period
+	case REV_INIT, REV_FRAG, REV_FULL:
+		ok = g.Period != "" && revPeriod(g.Payload[1], g.Payload[2]) == g.Period
+	case ACC_INIT, ACC_FRAG, ACC_FULL:
+		ok = g.Payload[1] == "" && g.Payload[2] == ""
+	}
+	if !ok {
+		return errors.New(Mislabel)
+	}
+	return nil
+}
+
+// kind and period of the signed statement of an entity quoted in a conflict PoM
+func conflictStatement(entity string, statement string) (string, string) {
+	body, found := strings.CutPrefix(statement, entity)
+	if !found {
+		return "", ""
+	}
+	if rev, isREV := strings.CutPrefix(body, REV_SCHEME); isREV {
+		return REV_INIT, revPeriod(REV_SCHEME, rev)
+	}
+	return STH_INIT, sthPeriod(entity, body)
+}
+
 func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
+	// A conflict consists of two different statements of the same kind for the same period
+	kind1, period1 := conflictStatement(g.Payload[0], g.Payload[1])
+	kind2, period2 := conflictStatement(g.Payload[0], g.Payload[2])
+	if g.Payload[0] == "" || g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 == "" || period1 != period2 {
+		return errors.New(Mislabel)
+	}
 	rsaSig1, sigerr1 := crypto.RSASigFromString(g.Signature[0])
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// both have to be signed by the entity the PoM is against
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] {
+			return errors.New(No_Sig_Match)
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
@@ -41,8 +100,14 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil || sig.ID.String() != g.Signer {
+			return errors.New(No_Sig_Match)
+		}
+		if err := Verify_Statement(g); err != nil {
+			return err
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +120,14 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		if err := Verify_Statement(g); err != nil {
+			return err
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -70,9 +141,16 @@ func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
 		sig, err := crypto.RSASigFromString(g.Signature[0])
-		if err != nil {
+		if err != nil || sig.ID.String() != g.Signer {
 			return errors.New(No_Sig_Match)
 		}
+		// loggers and CAs only speak for themselves
+		if g.Type != ACC_INIT && g.Payload[0] != g.Signer {
+			return errors.New(Mislabel)
+		}
+		if err := Verify_Statement(g); err != nil {
+			return err
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 0c18965e32cdcb05f55d91eb55f44158eede68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:25 +0000
Subject: [PATCH 02/18] fix: client update handling releases its locks and
 checks object types when an update is rejected

---
 client/client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index f8054fa..63bc368 100644
--- a/client/client.go
+++ b/client/client.go
@@ -132,8 +132,9 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || rev.Type != definition.REV_FULL {
 				fmt.Println("REV verification failed")
+				ctx.CRV_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -143,6 +144,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		//verify SRH
 		if !ctx.VerifySRH(SRH, &DCRV, key, rev.Period) {
 			fmt.Println("SRH verification failed")
+			ctx.CRV_DB_RWLock.Unlock()
 			return false
 		}
 		//Update CRV
@@ -158,8 +160,9 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || sth.Type != definition.STH_FULL {
 				fmt.Println("sth verification failed")
+				ctx.STH_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -168,6 +171,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		err := json.Unmarshal(payload1, &STH_def)
 		if err != nil {
 			fmt.Println("sth unmarshal failed")
+			ctx.STH_DB_RWLock.Unlock()
 			return false
 		}
 		newrecord := STH_def.RootHash
@@ -182,8 +186,9 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.ACC_FULL {
 				fmt.Println("pom verification failed")
+				ctx.POM_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -194,8 +199,9 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_CONs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.CON_INIT {
 				fmt.Println("pom verification failed")
+				ctx.POM_DB_RWLock.Unlock()
 				return false
 			}
 		}
-- 
2.43.0


From 47263bc26eff9a7d5ed4e21a66b4362031914616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 03/18] fix: client rejects certificates without revocation
 information or logger STH and reloads its PoM database

---
 client/client.go | 6 +++++-
 client/types.go  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 63bc368..7611ec6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -228,7 +228,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 			faulty_logger++
 		} else {
 			err := loggerinfo.STH.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || loggerinfo.STH.Type != definition.STH_INIT {
 				fmt.Println("Cert logger STH verification failed")
 				faulty_logger++
 			} else {
@@ -269,6 +269,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No revocation information for the issuer")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
diff --git a/client/types.go b/client/types.go
index f16cb50..d4112c3 100644
--- a/client/types.go
+++ b/client/types.go
@@ -131,5 +131,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 51266955e2c0804cdf8db189e45c48b48cf8b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 04/18] fix: revocation deltas are chained: SRH covers the
 updated CRV and monitors and clients apply deltas

---
 CA/CRV.go          |  8 +++++---
 CA/server.go       |  2 +-
 client/client.go   | 15 ++++++++-------
 monitor/monitor.go | 19 +++++++++++--------
 monitor/types.go   | 10 +++++-----
 5 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..1a36eb9 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -93,9 +93,7 @@ func (crv *CRV) MassRevoke(ratio float64) {
 
 func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.Gossip_object {
 	// if REV_type == 1 generate a REV based on another Delta_CRV
-	// hash c.CRV.CRVcurrent
-	hashmsg, _ := c.CRV.CRV_current.MarshalBinary()
-	hash, _ := crypto.GenerateSHA256(hashmsg)
+	CRV_new := c.CRV.CRV_current
 	var hashmsgdelta []byte
 	// hash delta CRV
 	if REV_type == 0 {
@@ -110,11 +108,15 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 			panic(err)
 		}
 		m2.Set(1 + uint(c.OnlineDuration))
+		CRV_new = CRV_new.Union(&m2)
 		hashmsgdelta, err = m2.MarshalBinary()
 		if err != nil {
 			panic(err)
 		}
 	}
+	// hash c.CRV.CRVcurrent
+	hashmsg, _ := CRV_new.MarshalBinary()
+	hash, _ := crypto.GenerateSHA256(hashmsg)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
 	hash_revocation, _ := crypto.GenerateSHA256([]byte(Period + string(hash) + string(hash_delta)))
diff --git a/CA/server.go b/CA/server.go
index 238c020..6855478 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -420,7 +420,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
diff --git a/client/client.go b/client/client.go
index 7611ec6..048f007 100644
--- a/client/client.go
+++ b/client/client.go
@@ -99,13 +99,13 @@ func fetch(url string) ([]byte, error) {
 }
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
-	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// find the corresponding CRV, the SRH covers the CRV with the update applied
+	CRV_new := dCRV
+	if CRV_old := ctx.CRV_database[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -114,8 +114,9 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
-	if err != nil {
+	if err != nil || rsasig.ID.String() != CAID {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
 	}
 	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
@@ -152,7 +153,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..61e5657 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -491,23 +491,26 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 }
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
-	// find the corresponding CRV
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// find the corresponding CRV, the SRH covers the CRV with the update applied
+	CRV_new := dCRV
+	ctx.CRV_lock.Lock()
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
+	ctx.CRV_lock.Unlock()
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
-	if err != nil {
+	if err != nil || rsasig.ID.String() != CAID {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
 	}
 	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..5488b04 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -121,11 +121,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -249,14 +251,12 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
-				c.Storage_CRV[key].Union(&DCRV)
-				c.CRV_lock.Unlock()
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
-- 
2.43.0


From f02fc1c481e3ba89415ccfbcb8503e7ba011a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:30 +0000
Subject: [PATCH 05/18] fix: loggers and CAs label next period as two digit
 minute of the hour

---
 CA/server.go     | 20 +++++---------------
 Logger/server.go |  3 ++-
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 6855478..8eb9cca 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -142,17 +142,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		c.Request_Count = c.Request_Count + 1
 		c.Request_Count_lock.Unlock()
 	}
-	Period := GetCurrentPeriod()
-	// convert string to int
-	periodnum, err := strconv.Atoi(Period)
-	if err != nil {
-	}
-	// convert int to string
-	// add a leading 0 if the string is only 1 digit
-	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
-	}
-	Period = strconv.Itoa(periodnum)
+	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -408,14 +398,14 @@ func PeriodicTask(ctx *CAContext) {
 		periodnum, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		// add 1 to current period
-		periodnum = periodnum + 1
+		// add 1 to current period, periods wrap every hour
+		periodnum = (periodnum + 1) % 60
 		// convert int to string
+		period = strconv.Itoa(periodnum)
 		// add a leading 0 if the string is only 1 digit
 		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
+			period = "0" + period
 		}
-		period = strconv.Itoa(periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..40b731d 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -214,7 +214,8 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		periodint = periodint + 1
+		// periods wrap every hour
+		periodint = (periodint + 1) % 60
 		period = strconv.Itoa(periodint)
 		// add a leading zero if the period is less than 10
 		if periodint < 10 {
-- 
2.43.0


From 7753b0a4ac5f7b2aa4108a159b0fd64361e424e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:21 +0000
Subject: [PATCH 06/18] fix: generated configurations name existing loggers,
 CAs and monitors

---
 Gen/Gen.go       |  8 ++++----
 Gen/IPmapping.go | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index ae4f649..66f6d16 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -325,7 +325,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate CA crypto config map
 	ca_crypto_config_map = GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")
 	// Create CA directory
-	os.Mkdir("ca_testconfig", 0777)
+	os.Mkdir(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
 	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
 	// Generate Logger private config map
@@ -333,7 +333,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Logger crypto config map
 	logger_crypto_config_map = GenerateCryptoconfig_map(Total, num_logger, Threshold, "Logger")
 	// Create Logger directory
-	os.Mkdir("logger_testconfig", 0777)
+	os.Mkdir(config_path+"logger_testconfig", 0777)
 	// write all CA public config, private config, crypto config to file
 	for i := 0; i < num_ca; i++ {
 		// create a new folder for each CA if not exist
@@ -373,7 +373,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
-	os.Mkdir("monitor_testconfig", 0777)
+	os.Mkdir(config_path+"monitor_testconfig", 0777)
 	// write all Monitor public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Monitor
@@ -399,7 +399,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-	os.Mkdir("gossiper_testconfig", 0777)
+	os.Mkdir(config_path+"gossiper_testconfig", 0777)
 	// write all Gossiper public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Gossiper
diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..20b2618 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		//index should be the last 3 characters of the port number (ignore leading 0)
+		sindex, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[sindex] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
@@ -293,6 +295,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 	new_dest_1 := logger_ip + semicolon_and_port_1
 	logger_priv_config.Signer = new_dest_1
 	fmt.Println("logger_priv_config.Signer: ", logger_priv_config.Signer)
+	// iterate over CAList
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//take the data out and slice out the last 5 characters
+		semicolon_and_port := ca[len(ca)-5:]
+		new_dest := ip_json_config.CA_ip_map[index] + semicolon_and_port
+		logger_priv_config.CAlist[index] = new_dest
+	}
 	// iterate over MonitorList
 	for index, monitor := range logger_priv_config.Monitorlist {
 		//change localhost to actual IP
-- 
2.43.0


From e2a705020fa92a40c063707f56982e35891f7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 07/18] fix: logger survives malformed precerts, small or
 unreachable rounds and keeps every accepted precert

---
 CA/ca.go              |  3 ++-
 Logger/buildmerkle.go |  6 +++++-
 Logger/server.go      | 27 ++++++++++++++++++++-------
 crypto/certpool.go    |  4 +++-
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/CA/ca.go b/CA/ca.go
index 85ee8d5..08142f4 100644
--- a/CA/ca.go
+++ b/CA/ca.go
@@ -197,7 +197,8 @@ func Marshall_Signed_PreCert(precert *x509.Certificate) []byte {
 func Unmarshall_Signed_PreCert(precert []byte) *x509.Certificate {
 	cert, err := x509.ParseCertificate(precert)
 	if err != nil {
-		log.Fatalf("Failed to parse certificate: %v", err)
+		fmt.Println("Failed to parse certificate: ", err)
+		return nil
 	}
 	return cert
 }
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 21fcf70..b4c6b88 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -14,6 +14,10 @@ import (
 func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, periodNum int) (definition.Gossip_object, []byte, []crypto.POI_for_transmission) {
 	leafs := make([]crypto.POI_for_transmission, 0)
 	blocks := crypto.GenerateDataBlocks(certs)
+	// a tree has at least two leafs
+	for len(blocks) < 2 {
+		blocks = append(blocks, &crypto.Certblock{})
+	}
 	tree, _ := crypto.GenerateMerkleTree(blocks)
 	POI := crypto.GeneratePOI(tree)
 	roothash := crypto.GenerateRootHash(tree)
@@ -32,7 +36,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 		Timestamp: util.GetCurrentTimestamp(),
 		Period:    period,
 		RootHash:  hex.EncodeToString(roothash),
-		TreeSize:  len(blocks),
+		TreeSize:  len(certs),
 	}
 	payload0 := string(ctx.Logger_private_config.Signer)
 	sth_payload, _ := json.Marshal(STH1)
diff --git a/Logger/server.go b/Logger/server.go
index 40b731d..1efcc23 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -119,6 +119,10 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 	}
 	// Parse the DER-encoded certificate
 	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	if cert_ca == nil || !Verifyprecert(*cert_ca, *c) {
+		http.Error(w, "invalid precert", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
@@ -154,8 +158,9 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
@@ -222,34 +227,42 @@ func PeriodicTask(ctx *LoggerContext) {
 			period = "0" + period
 		}
 		// update STH
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		// close the cert pool of this period, precerts received from now on belong to the next one
+		closed := *ctx
+		ctx.CertPool_lock.Lock()
+		closed.CurrentPrecertPool = ctx.CurrentPrecertPool
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		ctx.CertPool_lock.Unlock()
+		certlist := closed.CurrentPrecertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		certlist2 := closed.CurrentPrecertPool.GetCerts()
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		Send_POIs_to_CAs(&closed, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..20d41cd 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -5,6 +5,7 @@ package crypto
 
 import (
 	//"CTng/gossip"
+	"bytes"
 	"encoding/pem"
 	"fmt"
 
@@ -71,7 +72,8 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		// the certificates of a pool may have no raw content to compare
+		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) && s.certs[c].Issuer.String() == cert.Issuer.String() {
 			return true
 		}
 	}
-- 
2.43.0


From 12ee750ee02e1ffee43eca65592f5c473c10f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 08/18] fix: CA rejects unproven POIs and malformed input and
 does not lose concurrent POIs

---
 CA/server.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 8eb9cca..1802745 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -136,11 +136,11 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 	}
 	req_count := 1
+	c.Request_Count_lock.Lock()
+	defer c.Request_Count_lock.Unlock()
 	if c.CA_Type != 0 {
-		c.Request_Count_lock.Lock()
 		req_count = c.Request_Count + 1
 		c.Request_Count = c.Request_Count + 1
-		c.Request_Count_lock.Unlock()
 	}
 	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
@@ -206,13 +206,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil {
-		panic(err)
+	if err != nil || gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "invalid STH", http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -229,12 +231,15 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
+	c.STH_storage_lock.Lock()
 	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -242,13 +247,24 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		//fmt.Println(poi.SubjectKeyId)
+		// the POI has to prove the inclusion of the cert in the tree of the STH
+		roothash, err := definition.ExtractRootHash(sth)
+		if err != nil || poi.Poi == nil {
+			http.Error(w, "invalid POI", http.StatusBadRequest)
+			return
+		}
+		pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+		if err != nil || !pass {
+			http.Error(w, "invalid POI", http.StatusBadRequest)
+			return
+		}
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
@@ -261,8 +277,9 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 // send a signed precert to all loggers
@@ -282,6 +299,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
@@ -354,7 +373,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -411,8 +432,10 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
+		ctx.Request_Count_lock.Unlock()
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
@@ -424,7 +447,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 5fce3c7f451e84a6fa242fe07fac125c28756f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 09/18] fix: monitor verifies what it stores, publishes every
 PoM and FULL object once and recognises conflict PoMs of any period

---
 monitor/client-update-monitor.go | 15 +++++--
 monitor/monitor.go               | 50 ++++++++++++++++-----
 monitor/types.go                 | 75 +++++++++++++++++---------------
 3 files changed, 93 insertions(+), 47 deletions(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..c63c725 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"strconv"
 
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -45,12 +46,20 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	if _, err = strconv.Atoi(periodnum); err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
-	msg, _ := json.Marshal(ctupdate)
-	json.NewEncoder(w).Encode(msg)
+	json.NewEncoder(w).Encode(ctupdate)
 	fmt.Println("Update request Processed")
 }
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 61e5657..0552b67 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -3,10 +3,12 @@ package monitor
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"log"
 	"net/http"
+	"sort"
 	"strconv"
 	"time"
 
@@ -46,6 +48,13 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// Verify the object is valid.
+	err = gossip_obj.Verify(c.Monitor_crypto_config)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
@@ -131,6 +140,14 @@ func QueryLoggers(c *MonitorContext) {
 
 }*/
 
+// A queried entity has to answer with its own statement for the current period
+func checkQueried(g definition.Gossip_object, gtype string, entity string) error {
+	if g.Type != gtype || g.Signer != entity || g.Period != util.GetCurrentPeriod() {
+		return errors.New(definition.Mislabel)
+	}
+	return nil
+}
+
 func QueryLoggers(c *MonitorContext) {
 	for _, logger := range c.Monitor_private_config.Logger_URLs {
 		if Check_entity_pom(c, logger) {
@@ -158,6 +175,9 @@ func QueryLoggers(c *MonitorContext) {
 						Wait_then_accuse(c, loggerURL, "logger")
 					} else {
 						err3 := STH.Verify(c.Monitor_crypto_config)
+						if err3 == nil {
+							err3 = checkQueried(STH, definition.STH_INIT, loggerURL)
+						}
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
@@ -263,6 +283,9 @@ func QueryAuthorities(c *MonitorContext) {
 				}
 
 				err4 := REV.Verify(c.Monitor_crypto_config)
+				if err4 == nil {
+					err4 = checkQueried(REV, definition.REV_INIT, CAURL)
+				}
 				if err4 != nil {
 					log.Println(util.RED+"Revocation information signature verification failed", err4.Error(), util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
@@ -323,14 +346,14 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
-			_, ok = (*c.Storage_TEMP)[GID]
+			ok = c.GetObject(GID).Type == GID.Type
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
-			_, ok = (*c.Storage_TEMP)[GID]
+			ok = c.GetObject(GID).Type == GID.Type
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -376,16 +399,11 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	if c.GetObject(GID).Type == GID.Type {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPoM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -415,18 +433,30 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	// the revocations of a CA have to be applied in order
+	sort.SliceStable(storageList_rev_full, func(i, j int) bool {
+		return storageList_rev_full[i].Timestamp < storageList_rev_full[j].Timestamp
+	})
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -459,12 +489,12 @@ func PeriodicTasks(c *MonitorContext) {
 	}
 	f1 := func() {
 		c.Clean_Conflicting_Object()
-		c.WipeStorage()
 		update := GenerateUpdate(c)
 		current, _ := strconv.Atoi(util.GetCurrentPeriod())
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
 		c.SaveStorage(PeriodIO, update)
+		c.WipeStorage(update)
 	}
 	time.AfterFunc(time.Duration(c.Monitor_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/monitor/types.go b/monitor/types.go
index 5488b04..e2bd97d 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,30 +85,36 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// check if there is a conflict PoM (of any period) against the entity
+func (c *MonitorContext) HasConflictPoM(entity string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == entity {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -221,15 +227,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -267,32 +273,33 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 
 }
 
-// wipe all temp data
-func (c *MonitorContext) WipeStorage() {
+// wipe all temp data and everything that has been written to file with the update
+func (c *MonitorContext) WipeStorage(update ClientUpdate) {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
-	// we can clear All STH and REV storage, because we will write them to file at the end of the period
-	for key := range *c.Storage_STH_FULL {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_STH_FULL, key)
-		}
+	c.TEMP_lock.Unlock()
+	c.STH_FULL_lock.Lock()
+	for _, o := range update.STHs {
+		delete(*c.Storage_STH_FULL, o.GetID())
 	}
-	for key := range *c.Storage_REV_FULL {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_REV_FULL, key)
-		}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
+	for _, o := range update.REVs {
+		delete(*c.Storage_REV_FULL, o.GetID())
 	}
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
+	c.REV_FULL_lock.Unlock()
+	c.CONFLICT_POM_lock.Lock()
+	for _, o := range update.POM_CONs {
+		delete(*c.Storage_CONFLICT_POM_DELTA, o.GetID())
 	}
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
+	for _, o := range update.POM_ACCs {
+		delete(*c.Storage_ACCUSATION_POM_DELTA, o.GetID())
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 0b41457000cc5d8ecf9ff9ae6d34184f1a0428ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:05 +0000
Subject: [PATCH 10/18] fix: gossiper only counts and aggregates valid
 fragments of distinct signers on one payload

---
 gossiper/Interface.go       | 42 +++++++++++++++++++++++++++++++------
 gossiper/gen.go             |  2 +-
 gossiper/gossiper_server.go | 16 ++++++++++++--
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..7a061b0 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -204,14 +204,29 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
 	case definition.STH_FULL:
 		ctx.Gossip_object_storage.STH_FULL_LOCK.Lock()
+		// only the first full object is kept
+		if _, ok := ctx.Gossip_object_storage.STH_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.STH_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.STH_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.STH_FULL_LOCK.Unlock()
 	case definition.REV_FULL:
 		ctx.Gossip_object_storage.REV_FULL_LOCK.Lock()
+		// only the first full object is kept
+		if _, ok := ctx.Gossip_object_storage.REV_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.REV_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.REV_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.REV_FULL_LOCK.Unlock()
 	case definition.ACC_FULL:
 		ctx.Gossip_object_storage.ACC_FULL_LOCK.Lock()
+		// only the first full object is kept
+		if _, ok := ctx.Gossip_object_storage.ACC_FULL[gossip_object.GetID()]; ok {
+			ctx.Gossip_object_storage.ACC_FULL_LOCK.Unlock()
+			return false
+		}
 		ctx.Gossip_object_storage.ACC_FULL[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.ACC_FULL_LOCK.Unlock()
 		// if not in temp blacklist, add it
@@ -224,29 +239,44 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// the number of stored fragments on the same payload, threshold if the signer is already among them
+func countMatching(stored []definition.Gossip_object, fragment definition.Gossip_object, threshold int) int {
+	count := 0
+	for _, v := range stored {
+		if v.Payload != fragment.Payload {
+			continue
+		}
+		if v.Signer == fragment.Signer {
+			return threshold
+		}
+		count++
+	}
+	return count
+}
+
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatching(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object, ctx.Gossiper_crypto_config.Threshold)
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatching(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object, ctx.Gossiper_crypto_config.Threshold)
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
+		before := countMatching(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object, ctx.Gossiper_crypto_config.Threshold)
+		if before < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
 		}
 		return before
diff --git a/gossiper/gen.go b/gossiper/gen.go
index f36674f..ea70667 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -69,7 +69,7 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FULL(g_list []definition.Goss
 	return definition.Gossip_object{
 		Application:   definition.CTNG_APPLICATION,
 		Type:          TargetType,
-		Period:        util.GetCurrentPeriod(),
+		Period:        g_list[0].Period,
 		Signer:        "",
 		Signers:       signer_list,
 		Signature:     [2]string{sig_full_string, ""},
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..b072b4f 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -329,6 +329,10 @@ func Handle_CON_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 }
 
 func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
+	if gossip_obj.Verify(c.Gossiper_crypto_config) != nil {
+		fmt.Println(util.RED, "Invalid object "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
+		return
+	}
 	icount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG:
@@ -350,7 +354,13 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		// only fragments on the same payload can be aggregated
+		itemlist := []definition.Gossip_object{}
+		for _, item := range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type) {
+			if item.Payload == gossip_obj.Payload {
+				itemlist = append(itemlist, item)
+			}
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
@@ -368,7 +378,9 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		if !c.Store(gossip_obj) {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From 81d6dc5184d40dc44d8739a022949b62b5f9e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:06 +0000
Subject: [PATCH 11/18] fix: gossiper detects conflicting INIT objects that are
 handled concurrently

---
 definition/Verify.go        |  2 +-
 gossiper/Interface.go       | 28 ++++++++++++----------------
 gossiper/gen.go             |  2 +-
 gossiper/gossiper_server.go |  8 ++++++++
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 5a16333..e8e5d90 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -72,7 +72,7 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	// A conflict consists of two different statements of the same kind for the same period
 	kind1, period1 := conflictStatement(g.Payload[0], g.Payload[1])
 	kind2, period2 := conflictStatement(g.Payload[0], g.Payload[2])
-	if g.Payload[0] == "" || g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 == "" || period1 != period2 {
+	if g.Payload[0] == "" || g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 == "" || period1 != period2 || period1 != g.Period {
 		return errors.New(Mislabel)
 	}
 	rsaSig1, sigerr1 := crypto.RSASigFromString(g.Signature[0])
diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 7a061b0..0038522 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -287,25 +287,21 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
-		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// a stored object is never replaced
+		_, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]
+		return ok
 	case definition.REV_INIT:
-		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// a stored object is never replaced
+		_, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]
+		return ok
 	case definition.ACC_INIT:
-		if _, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// a stored object is never replaced
+		_, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]
+		return ok
 	case definition.CON_INIT:
-		if _, ok := ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// a stored object is never replaced
+		_, ok := ctx.Gossip_object_storage.CON_INIT[gossip_object.GetID()]
+		return ok
 	case definition.STH_FRAG:
 		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) == 0 {
 			return false
diff --git a/gossiper/gen.go b/gossiper/gen.go
index ea70667..2bf9998 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -83,7 +83,7 @@ func (ctx *GossiperContext) Generate_CON_INIT(obj1 definition.Gossip_object, obj
 	D2_POM := definition.Gossip_object{
 		Application: definition.CTNG_APPLICATION,
 		Type:        definition.CON_INIT,
-		Period:      util.GetCurrentPeriod(),
+		Period:      obj1.Period,
 		Signer:      "",
 		Timestamp:   util.GetCurrentTimestamp(),
 		Signature:   [2]string{obj1.Signature[0], obj2.Signature[0]},
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index b072b4f..ab66e2d 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -232,6 +232,10 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check
+		if c.IsMalicious(gossip_obj) {
+			Handle_STH_INIT(c, gossip_obj)
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -274,6 +278,10 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check
+		if c.IsMalicious(gossip_obj) {
+			Handle_REV_INIT(c, gossip_obj)
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From 3e284d1d1def44a4f6ee5525ba7b41ba4cd22d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:08 +0000
Subject: [PATCH 12/18] fix: gossiper keeps the objects of a period until it is
 over and wipes them under their locks

---
 gossiper/Interface.go       | 40 ++++++++++++++++++++++++++++---------
 gossiper/gossiper_server.go |  3 ++-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 0038522..f6690d6 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -98,9 +99,15 @@ func (ctx *GossiperContext) Save() {
 		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
 		Timerlist:              ctx.Timerlist,
 	}
+	ctx.Gossip_object_storage.STH_FRAG_LOCK.RLock()
 	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
+	ctx.Gossip_object_storage.STH_FRAG_LOCK.RUnlock()
+	ctx.Gossip_object_storage.REV_FRAG_LOCK.RLock()
 	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
+	ctx.Gossip_object_storage.REV_FRAG_LOCK.RUnlock()
+	ctx.Gossip_object_storage.ACC_FRAG_LOCK.RLock()
 	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Gossip_object_storage.ACC_FRAG_LOCK.RUnlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -652,16 +659,31 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 	return false
 }
 
+// delete the objects of all other periods
+func wipeExcept[V any](lock *sync.RWMutex, storage map[definition.Gossip_ID]V, period string) {
+	lock.Lock()
+	defer lock.Unlock()
+	for id := range storage {
+		if id.Period != period {
+			delete(storage, id)
+		}
+	}
+}
+
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
-	// clear all PoM counter and gossiper log
+	// clear the storage of all other periods, conflicts and the blacklist are permanent
+	period := util.GetCurrentPeriod()
+	storage := ctx.Gossip_object_storage
+	wipeExcept(&storage.STH_INIT_LOCK, storage.STH_INIT, period)
+	wipeExcept(&storage.REV_INIT_LOCK, storage.REV_INIT, period)
+	wipeExcept(&storage.ACC_INIT_LOCK, storage.ACC_INIT, period)
+	wipeExcept(&storage.STH_FRAG_LOCK, storage.STH_FRAG, period)
+	wipeExcept(&storage.REV_FRAG_LOCK, storage.REV_FRAG, period)
+	wipeExcept(&storage.ACC_FRAG_LOCK, storage.ACC_FRAG, period)
+	wipeExcept(&storage.STH_FULL_LOCK, storage.STH_FULL, period)
+	wipeExcept(&storage.REV_FULL_LOCK, storage.REV_FULL, period)
+	wipeExcept(&storage.ACC_FULL_LOCK, storage.ACC_FULL, period)
+	wipeExcept(&storage.REV_PAYLOAD_LOCK, storage.REV_PAYLOAD, period)
 }
 
 func (ctx *GossiperContext) CleanUpGossiperStorage() {
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index ab66e2d..6f529ee 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -588,9 +588,10 @@ func PeriodicTasks(c *GossiperContext) {
 	}
 	time.AfterFunc(time.Duration(c.Gossiper_public_config.MMD)*time.Second, f)
 	// Run the periodic tasks.
+	// The objects of a period are kept until it is over, otherwise they would be accepted twice.
+	c.WipeStorage()
 	f1 := func() {
 		c.Save()
-		c.WipeStorage()
 	}
 	time.AfterFunc(time.Duration(c.Gossiper_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 88a50f09dde10284790a7e63042f18f41f6f4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 13/18] fix: gossiper only supports accusations of its own
 monitor

---
 gossiper/gossiper_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 6f529ee..0a6f096 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -300,6 +300,10 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 }
 
 func Handle_ACC_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
+	// a gossiper only supports the accusations of its own monitor
+	if gossip_obj.Signer != c.Gossiper_private_config.Owner_URL {
+		return
+	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), definition.ACC_FULL)
 	if icount > 0 {
 		// we already have the full object, we just ignore the init
-- 
2.43.0


From 5c30cfad9dbb689482734373aff9b660b42cc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:08 +0000
Subject: [PATCH 14/18] fix: logger sends the proof of every logged precert,
 also when two share a key identifier

---
 Logger/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 1efcc23..72465e7 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -164,16 +164,17 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
+	// the POIs are in the order of the certs of the pool
+	certs := c.CurrentPrecertPool.GetCerts()
 	//iterate over the POIs
 	for i := 0; i < len(POIs); i++ {
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
-			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
+			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, certs[i])
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
-				return
+				continue
 			}
 			// Get the Issuer CA
 			ca := POIs[i].Issuer
-- 
2.43.0


From 2320d534ee538a6be762df5585d959841efc3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:08 +0000
Subject: [PATCH 15/18] fix: CA only takes logger statements for the coming
 period

---
 CA/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index 1802745..8b1ba65 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -216,6 +216,12 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		http.Error(w, "invalid STH", http.StatusBadRequest)
 		return
 	}
+	// the certs of this period are logged under the STH of the next period, periods wrap every hour
+	periodnum, err := strconv.Atoi(util.GetCurrentPeriod())
+	if err != nil || gossip_sth.Period != fmt.Sprintf("%02d", (periodnum+1)%60) {
+		http.Error(w, "STH is not for the next period", http.StatusBadRequest)
+		return
+	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
 	c.STH_storage_lock.Lock()
-- 
2.43.0


From 9b8324f9b3ddc1a1c687bd15b5c8377f75d69d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:14 +0000
Subject: [PATCH 16/18] fix: monitor numbers its updates consecutively across
 the turn of the hour

---
 monitor/monitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 0552b67..fc4e31c 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -492,7 +492,8 @@ func PeriodicTasks(c *MonitorContext) {
 		update := GenerateUpdate(c)
 		current, _ := strconv.Atoi(util.GetCurrentPeriod())
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
-		PeriodIO := strconv.Itoa(current - offsetint)
+		// periods wrap every hour
+		PeriodIO := strconv.Itoa((current - offsetint + 60) % 60)
 		c.SaveStorage(PeriodIO, update)
 		c.WipeStorage(update)
 	}
-- 
2.43.0


From d90f2295a2d1ce43fb1520882bf7518a7538beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:26 +0000
Subject: [PATCH 17/18] fix: no statement of an entity in an update after a
 conflict PoM arrived while the update was put together

---
 monitor/monitor.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index fc4e31c..8935dd0 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -433,13 +433,25 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	// first the conflict PoMs: a PoM can arrive at any time, and no statement of an entity goes with a PoM against it
+	c.CONFLICT_POM_lock.RLock()
+	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
+		storageList_pom_con = append(storageList_pom_con, gossipObject)
+	}
+	c.CONFLICT_POM_lock.RUnlock()
 	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
+		if c.HasConflictPoM(gossipObject.Payload[0]) {
+			continue
+		}
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
 	c.STH_FULL_lock.RUnlock()
 	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
+		if c.HasConflictPoM(gossipObject.Payload[0]) {
+			continue
+		}
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
 	c.REV_FULL_lock.RUnlock()
@@ -447,11 +459,6 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	sort.SliceStable(storageList_rev_full, func(i, j int) bool {
 		return storageList_rev_full[i].Timestamp < storageList_rev_full[j].Timestamp
 	})
-	c.CONFLICT_POM_lock.RLock()
-	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
-		storageList_pom_con = append(storageList_pom_con, gossipObject)
-	}
-	c.CONFLICT_POM_lock.RUnlock()
 	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
-- 
2.43.0


From 9f9bcddb9763e83d8762ef718fde97d3b87e78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:32 +0000
Subject: [PATCH 18/18] fix: an entity that does not answer the monitor's query
 at all is accused when the waiting time is over

---
 monitor/monitor.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 8935dd0..8407a1d 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -148,6 +148,11 @@ func checkQueried(g definition.Gossip_object, gtype string, entity string) error
 	return nil
 }
 
+// An answer has to be complete within the waiting time
+func queryClient(c *MonitorContext) *http.Client {
+	return &http.Client{Timeout: time.Duration(c.Monitor_public_config.Gossip_wait_time) * time.Second}
+}
+
 func QueryLoggers(c *MonitorContext) {
 	for _, logger := range c.Monitor_private_config.Logger_URLs {
 		if Check_entity_pom(c, logger) {
@@ -157,13 +162,14 @@ func QueryLoggers(c *MonitorContext) {
 
 			// Launch a goroutine to perform the query and introduce a delay
 			go func(loggerURL string) {
+				begin := time.Now()
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				sthResp, err1 := http.Get(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
+				sthResp, err1 := queryClient(c).Get(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
 				if err1 != nil {
 					log.Println(util.RED+"Query Logger Failed, connection refused.", util.RESET)
-					Wait_then_accuse(c, loggerURL, "logger")
+					Wait_then_accuse(c, loggerURL, "logger", begin)
 				} else {
 					// Read and process the response
 					sthBody, err2 := ioutil.ReadAll(sthResp.Body)
@@ -172,7 +178,7 @@ func QueryLoggers(c *MonitorContext) {
 					err2 = json.Unmarshal(sthBody, &STH)
 					if err2 != nil {
 						log.Println(util.RED+err2.Error(), util.RESET)
-						Wait_then_accuse(c, loggerURL, "logger")
+						Wait_then_accuse(c, loggerURL, "logger", begin)
 					} else {
 						err3 := STH.Verify(c.Monitor_crypto_config)
 						if err3 == nil {
@@ -180,7 +186,7 @@ func QueryLoggers(c *MonitorContext) {
 						}
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
-							Wait_then_accuse(c, loggerURL, "logger")
+							Wait_then_accuse(c, loggerURL, "logger", begin)
 						} else {
 							// Process valid object
 							Process_valid_object(c, STH)
@@ -256,13 +262,14 @@ func QueryAuthorities(c *MonitorContext) {
 
 			// Launch a goroutine to perform the query and introduce a delay
 			go func(CAURL string) {
+				begin := time.Now()
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				revResp, err1 := http.Get(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
+				revResp, err1 := queryClient(c).Get(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
 				if err1 != nil {
 					log.Println(util.RED+"Query CA Failed, connection refused.", util.RESET)
-					Wait_then_accuse(c, CAURL, "ca")
+					Wait_then_accuse(c, CAURL, "ca", begin)
 					return
 				}
 
@@ -270,7 +277,7 @@ func QueryAuthorities(c *MonitorContext) {
 				revResp.Body.Close()
 				if err2 != nil {
 					log.Println(util.RED+err2.Error(), util.RESET)
-					Wait_then_accuse(c, CAURL, "ca")
+					Wait_then_accuse(c, CAURL, "ca", begin)
 					return
 				}
 
@@ -278,7 +285,7 @@ func QueryAuthorities(c *MonitorContext) {
 				err3 := json.Unmarshal(revBody, &REV)
 				if err3 != nil {
 					log.Println(util.RED+err3.Error(), util.RESET)
-					Wait_then_accuse(c, CAURL, "ca")
+					Wait_then_accuse(c, CAURL, "ca", begin)
 					return
 				}
 
@@ -288,7 +295,7 @@ func QueryAuthorities(c *MonitorContext) {
 				}
 				if err4 != nil {
 					log.Println(util.RED+"Revocation information signature verification failed", err4.Error(), util.RESET)
-					Wait_then_accuse(c, CAURL, "ca")
+					Wait_then_accuse(c, CAURL, "ca", begin)
 					return
 				}
 
@@ -297,7 +304,7 @@ func QueryAuthorities(c *MonitorContext) {
 				pass := c.VerifySRH(SRH, &DCRV, key, REV.Period)
 				if !pass {
 					fmt.Println("SRH verification failed")
-					Wait_then_accuse(c, CAURL, "ca")
+					Wait_then_accuse(c, CAURL, "ca", begin)
 				} else {
 					Process_valid_object(c, REV)
 				}
@@ -336,7 +343,8 @@ func AccuseEntity(c *MonitorContext, Accused string) {
 	Send_to_gossiper(c, accusation)
 }
 
-func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
+// begin is when the entity was queried, the waiting time counts from then on
+func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string, begin time.Time) {
 	var GID definition.Gossip_ID
 	var ok bool
 	f := func() {
@@ -359,7 +367,8 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 			AccuseEntity(c, Accused)
 		}
 	}
-	time.AfterFunc(time.Duration(c.Monitor_public_config.Gossip_wait_time)*time.Second, f)
+	wait := time.Duration(c.Monitor_public_config.Gossip_wait_time) * time.Second
+	time.AfterFunc(time.Until(begin.Add(wait)), f)
 }
 
 // Send the input gossip object to its gossiper
-- 
2.43.0

