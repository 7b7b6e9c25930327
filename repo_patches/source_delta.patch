From 91ef49232e81d35412f7a95b01beafef78f91537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 01/61] fix: unknown or expired FDO session tokens are refused
 instead of dereferencing a nil session

---
 core/do/dbs/session.db.go | 2 +-
 core/rv/session.db.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..4b953f3 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -131,7 +131,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("Session does not exist or has expired.")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..0141f85 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -86,7 +86,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("Session does not exist or has expired.")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From d5b37a248dbfd96cc03966e5e862b2b6702e5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/61] fix: updating a TO2 session keeps its expiry instead of
 making it permanent

---
 core/do/dbs/session.db.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 4b953f3..1107077 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,16 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	// Updating must neither extend the session lifetime, nor revive an expired session
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating session entry. The error is: " + err.Error())
+	}
+
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt()
+
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From c978c7567fe9ebc65fc78c9ab513f0f1db9630a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 03/61] fix: ProveDevice64 without a SetupDv nonce is refused
 instead of panicking

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..fa01bb8 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -95,6 +95,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Missing NonceTO2SetupDv in the unprotected header", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// KEX
 	sessionKey, err := fdoshared.DeriveSessionKey(session.XAKex, eatPayload.EatFDO.XBKeyExchange, false, privateKeyInst)
 	if err != nil {
-- 
2.43.0


From af0d45dda8b1c4a8c3e7ac67e7f10b80478da1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 04/61] fix: voucher header without a device certificate chain
 hash is refused instead of panicking

---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From 963dfa265319f49416c739ec5a9580ec8d2b4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:21 +0000
Subject: [PATCH 05/61] fix: encrypted messages without an algorithm or with a
 wrong IV are refused instead of panicking

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..a1ac098 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or invalid IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or invalid IV")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From 418b27f249d2aaf0db099225fa714eb0c21b7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 06/61] fix: AES-CCM-16-128-128 and AES-CCM-16-128-256 use 128
 and 256 bit keys, not the other way round

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index a1ac098..07d0c83 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From cd8b9d6f0c8f53e93f7dae67f376778c70c86977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 07/61] fix: voucher entries whose header info hash does not
 match the voucher header are refused

---
 core/shared/voucher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index af9dc13..65d039a 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -147,6 +147,12 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 			return errors.New("error decoding OVEntry payload: " + err.Error())
 		}
 
+		hdrInfo := append(voucherHeader.OVGuid[:], []byte(voucherHeader.OVDeviceInfo)...)
+		err = VerifyHash(hdrInfo, OVEntryPayload.OVEHashHdrInfo)
+		if err != nil {
+			return errors.New("error verifying OVEntry header info Hash: " + err.Error())
+		}
+
 		if i == 0 {
 			headerHmacBytes, _ := CborCust.Marshal(ovHeaderHMac)
 			firstEntryHashContents := append(ovHeaderTag, headerHmacBytes...)
-- 
2.43.0


From c41b519916d844e5abe6010c943f24903d1ce436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 08/61] fix: ECDH coordinates and shared secret are fixed
 width, so one handshake in 128 no longer breaks

---
 core/shared/kex.crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..40c84fb 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 32))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 32))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 48))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 48))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -305,7 +305,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 32)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -350,7 +350,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 48)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From 286ea7c6f597f98ad5c96b3eb77422c0e3c2346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 09/61] fix: ECDH key exchange messages that are not on the
 curve are refused instead of panicking

---
 core/shared/kex.crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 40c84fb..d6719a8 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -283,6 +283,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange is not a point on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:34]
 		ownerY := kexA.XAKeyExchange[36:68]
 		xaRandom := kexA.XAKeyExchange[70:86]
@@ -328,6 +332,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange is not a point on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:50]
 		ownerY := kexA.XAKeyExchange[52:100]
 		xaRandom := kexA.XAKeyExchange[102:150]
-- 
2.43.0


From 6c9ed0a6cb7d211ae72341035b8876908ac121a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 10/61] fix: asymmetric key exchange with a non RSA owner key
 is refused instead of panicking

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index d6719a8..c651265 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -398,8 +398,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. Public key is not RSA")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -408,8 +413,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. Private key is not RSA")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From c3678a2ea9648a1434b5faf7313a3c24daa19272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 11/61] fix: conformance failures are recorded under the
 protocol that failed

---
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/do/to2/listener-to2-70-Done.go        | 6 +++---
 core/rv/listener-to1.go                    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index fa01bb8..51bedad 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -71,7 +71,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	pkType, ok := fdoshared.SgTypeToFdoPkType[session.EASigInfo.SgType]
 	if !ok {
 		log.Println("ProveToRV32: Unknown signature type. ")
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..f86c3b5 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -86,14 +86,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 
 	done271Bytes, err := fdoshared.AddEncryptionWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING {
 		done271Bytes, err = fdoshared.Conf_Fuzz_AddWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
@@ -103,7 +103,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		testcomListener.To2.CompleteTestRun()
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
 		}
 	}
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..dda4739 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -209,7 +209,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if !bytes.Equal(pb.EatNonce[:], session.NonceTO1Proof[:]) {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To1)
 		return
 	}
 
-- 
2.43.0


From c16f57460afca50398e2b7e5e8baee264305bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 12/61] fix: error messages name the message they answer

---
 core/do/to2/common.go                      | 4 ++--
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/rv/listener-to0.go                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 51bedad..9900290 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From 5d4b2078f8a336f3cf510236e47e5531bf0e815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 13/61] fix: an undecodable Done70 is answered once, not twice,
 during a device test

---
 core/do/to2/listener-to2-70-Done.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index f86c3b5..b72a6e3 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -59,6 +59,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		if testcomListener != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+			return
 		}
 
 		log.Println("Done70: Error decoding request..." + err.Error())
-- 
2.43.0


From d5cb8379c727ad576683e9431d0e6bd8d4574dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 14/61] fix: starting a device test run keeps an unfinished run
 in the history, does not list a finished one twice, and forgets the old run's
 last test

---
 core/shared/testcom/listener/listenert.db.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..e05c059 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -69,7 +69,8 @@ func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdosha
 }
 
 func (h *RequestListenerRunnerInst) StartNewTestRun() {
-	if len(h.TestRunHistory) != 0 {
+	// Completed runs are already in the history
+	if h.Running {
 		h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 	}
 
@@ -78,6 +79,7 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 
 	h.CurrentTestRun = NewListenerTestRun(h.Protocol)
 	h.CurrentTestIndex = 0
+	h.LastTestID = ""
 	h.CompletedCmds = []fdoshared.FdoCmd{}
 
 	switch h.Protocol {
-- 
2.43.0


From fa242ea40a4eae949a71fae1fca2eb100624cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 15/61] fix: deleting the last completed device test run
 removes it from the history

---
 core/shared/testcom/listener/listenert.db.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index e05c059..05d45cd 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -97,8 +97,11 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 
 	if h.CurrentTestRun.Uuid == id {
 		h.CurrentTestRun = ListenerTestRun{}
-		h.Running = false
-		return nil
+		// A completed run also has its copy in the history
+		if h.Running {
+			h.Running = false
+			return nil
+		}
 	}
 
 	for _, testRun := range h.TestRunHistory {
-- 
2.43.0


From 8817b14dd49641ac1a78a35d7114dd8c8bf5aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 16/61] fix: a device without a running test run gets untouched
 answers and no verdicts

---
 core/shared/testcom/listener/listenert.db.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 05d45cd..37be423 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -59,6 +59,11 @@ func (h *RequestListenerRunnerInst) CheckExpectedCmds(expectedCmds []fdoshared.F
 }
 
 func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdoshared.FdoCmd) bool {
+	// Without a running test there is nothing to test, record or break
+	if !h.Running {
+		return true
+	}
+
 	for _, completedCmd := range h.CompletedCmds {
 		if completedCmd == currentCmd {
 			return true
-- 
2.43.0


From 85ee524b1d3bb6574f77d1f34fa81a8f6bdf7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 17/61] fix: device test verdicts: a failed test is not
 followed by a success, and a test is only spent on the message it breaks

---
 core/do/to2/listener-to2-60-HelloDevice.go            |  2 +-
 core/do/to2/listener-to2-62-GetOVNextEntry.go         |  5 ++++-
 core/do/to2/listener-to2-64-ProveDevice.go            |  2 +-
 core/do/to2/listener-to2-66-DeviceServiceInfoReady.go |  2 +-
 core/do/to2/listener-to2-68-DeviceServiceInfo.go      |  2 +-
 core/do/to2/listener-to2-70-Done.go                   |  2 +-
 core/rv/listener-to1.go                               |  4 ++--
 core/shared/testcom/listener/listenert.db.go          | 10 ++++++++++
 8 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index f969d04..7b4c6c2 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -49,7 +49,7 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..6f7a5aa 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -30,11 +30,14 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE && session.PrevCMD == fdoshared.TO2_63_OV_NEXTENTRY {
+			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
+			isLastTestFailed = true
 		} else if testcomListener.To2.CurrentTestIndex != 0 {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 9900290..0f9b4c3 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -40,7 +40,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a4cdc14..5114d7c 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -33,7 +33,7 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 4bfdca6..8136888 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -36,7 +36,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index b72a6e3..65385f7 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -34,7 +34,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index dda4739..afaea3f 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -77,7 +77,7 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To1.PushSuccess()
 		}
 
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To1.CheckExpectedCmd(currentCmd) {
 			fdoTestId = testcomListener.To1.GetNextTestID()
 		}
 
@@ -181,7 +181,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To1.PushSuccess()
 		}
 
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
+		if testcomListener.To1.CheckExpectedCmd(currentCmd) {
 			fdoTestId = testcomListener.To1.GetNextTestID()
 		}
 
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 37be423..afe6d7c 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -13,6 +13,9 @@ type RequestListenerRunnerInst struct {
 	ExpectedCmd   fdoshared.FdoCmd        `cbor:"expectedCmd,omitempty"`
 	CompletedCmds []fdoshared.FdoCmd      `cbor:"completedCmds,omitempty"`
 
+	// The last test already has its verdict
+	LastTestJudged bool `cbor:"lastTestJudged,omitempty"`
+
 	CurrentTestIndex int                                      `cbor:"currentTestIndex,omitempty"`
 	Tests            map[fdoshared.FdoCmd][]testcom.FDOTestID `cbor:"tests,omitempty"`
 	Running          bool                                     `cbor:"running,omitempty"`
@@ -132,6 +135,7 @@ func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
 	selectedTestID := h.Tests[h.ExpectedCmd][h.CurrentTestIndex]
 
 	h.LastTestID = selectedTestID
+	h.LastTestJudged = false
 
 	if h.CurrentTestIndex+1 < len(h.Tests[h.ExpectedCmd]) {
 		h.CurrentTestIndex = h.CurrentTestIndex + 1
@@ -160,9 +164,15 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 }
 
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
+	h.LastTestJudged = true
 	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewFailTestState(h.GetLastTestID(), errorMsg))
 }
 
 func (h *RequestListenerRunnerInst) PushSuccess() {
+	if h.LastTestJudged {
+		return
+	}
+
+	h.LastTestJudged = true
 	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewSuccessTestState(h.GetLastTestID()))
 }
-- 
2.43.0


From 4b233bb1f4a8cbd4520553544fbc249e8c882f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 18/61] fix: device test failures found while answering with an
 error are stored

---
 core/shared/testcom/dbs/listener.db.go       |  9 ++++++++-
 core/shared/testcom/listener/common.go       |  8 +++++++-
 core/shared/testcom/listener/listenert.db.go | 12 ++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..0f9e4cb 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -293,5 +293,12 @@ func (h *ListenerTestDB) GetEntryByFdoGuid(guid fdoshared.FdoGuid) (*listenertes
 		return nil, err
 	}
 
-	return h.Get(entryUuid)
+	entry, err := h.Get(entryUuid)
+	if err != nil {
+		return nil, err
+	}
+
+	entry.OnFail(h.Update)
+
+	return entry, nil
 }
diff --git a/core/shared/testcom/listener/common.go b/core/shared/testcom/listener/common.go
index 3da985a..f222e8f 100644
--- a/core/shared/testcom/listener/common.go
+++ b/core/shared/testcom/listener/common.go
@@ -10,7 +10,7 @@ import (
 func Conf_RespondFDOError(w http.ResponseWriter, r *http.Request, errorCode fdoshared.FdoErrorCode, prevMsgId fdoshared.FdoCmd, messageStr string, httpStatusCode int, testcomListener *RequestListenerInst, fdoProtocol fdoshared.FdoToProtocol) {
 	log.Printf("Err: %d %s %d", prevMsgId, messageStr, errorCode)
 
-	if testcomListener != nil {
+	if testcomListener != nil && testcomListener.isRunning(fdoProtocol) {
 		switch fdoProtocol {
 		case fdoshared.To0:
 			testcomListener.To0.PushFail(messageStr)
@@ -19,6 +19,12 @@ func Conf_RespondFDOError(w http.ResponseWriter, r *http.Request, errorCode fdos
 		case fdoshared.To2:
 			testcomListener.To2.PushFail(messageStr)
 		}
+
+		if testcomListener.save != nil {
+			if err := testcomListener.save(testcomListener); err != nil {
+				log.Println("Conformance module failed to save result! " + err.Error())
+			}
+		}
 	}
 
 	fdoshared.RespondFDOError(w, r, errorCode, prevMsgId, messageStr, httpStatusCode)
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index afe6d7c..a9121c2 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -32,6 +32,13 @@ type RequestListenerInst struct {
 	To0         RequestListenerRunnerInst        `cbor:"to0,omitempty"`
 	To1         RequestListenerRunnerInst        `cbor:"to1,omitempty"`
 	To2         RequestListenerRunnerInst        `cbor:"to2,omitempty"`
+
+	save func(*RequestListenerInst) error
+}
+
+// OnFail sets how a failure recorded while answering with an FDO error is stored
+func (h *RequestListenerInst) OnFail(save func(*RequestListenerInst) error) {
+	h.save = save
 }
 
 func (h *RequestListenerInst) GetProtocolInst(toProtocol int) (*RequestListenerRunnerInst, error) {
@@ -47,6 +54,11 @@ func (h *RequestListenerInst) GetProtocolInst(toProtocol int) (*RequestListenerR
 	}
 }
 
+func (h *RequestListenerInst) isRunning(toProtocol fdoshared.FdoToProtocol) bool {
+	runner, err := h.GetProtocolInst(int(toProtocol))
+	return err == nil && runner.Running
+}
+
 func (h *RequestListenerRunnerInst) CheckExpectedCmd(currentCmd fdoshared.FdoCmd) bool {
 	return currentCmd == h.ExpectedCmd
 }
-- 
2.43.0


From adf8f46a1b51a19494dddcdf937d24bbf454eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 19/61] fix: DeviceServiceInfo68 errors count against a running
 device test

---
 core/do/to2/listener-to2-68-DeviceServiceInfo.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 8136888..4a7ca2e 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -88,7 +88,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			resultSims, err := ValidateDeviceSIMs(session.Guid, session.DeviceSIMs)
 			if err != nil {
 				log.Println("DeviceServiceInfo68: Error validating device sims: " + err.Error())
-				fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError)
+				listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 				return
 			}
 
@@ -125,7 +125,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	ownerServiceInfoEncBytes, err := fdoshared.AddEncryptionWrapping(ownerServiceInfoBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
 		log.Println("DeviceServiceInfo68: Error encrypting..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
@@ -133,7 +133,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		ownerServiceInfoEncBytes, err = fdoshared.Conf_Fuzz_AddWrapping(ownerServiceInfoEncBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
 			log.Println("DeviceServiceInfo68: Error fuzzing encryption..." + err.Error())
-			fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
@@ -143,7 +143,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	err = h.session.UpdateSessionEntry(sessionId, *session)
 	if err != nil {
 		log.Println("DeviceServiceInfo68: Error saving session..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From 3c85dddf1bc57cadcecd5eae23be8ce20c5bdf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 20/61] fix: asking for an entry of a voucher without entries
 is refused instead of panicking

---
 core/do/to2/listener-to2-62-GetOVNextEntry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index 6f7a5aa..7fc3360 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -64,7 +64,7 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if getOVNextEntry.GetOVNextEntry > session.NumOVEntries-1 {
+	if int(getOVNextEntry.GetOVNextEntry) >= len(session.Voucher.OVEntryArray) {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "GetOVNextEntry is out of bound!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
-- 
2.43.0


From d7649c20cfdfe73d4f154462068c05d2bd9390c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 21/61] fix: broken encryption tests work for AES-CCM suites
 and use the derived session key

---
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/shared/conformance.go                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 0f9b4c3..ddc99c3 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -156,7 +156,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING {
-		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytesEnc, session.SessionKey, session.CipherSuiteName)
+		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytesEnc, *sessionKey, session.CipherSuiteName)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..30c8228 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -215,7 +215,7 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
+	case CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
 		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
-- 
2.43.0


From c5d75d8c76f7658bbea7d672e56ba0402fa0988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 22/61] fix: the broken signature test always breaks the
 signature

---
 core/shared/conformance.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index 30c8228..9b31137 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -267,6 +267,11 @@ var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
 	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List)-1)]
 
+	// Dropping an unprotected header that is not there breaks nothing
+	if chosenType == Conf_CoseSign_Field_Unprotected && coseSignature.Unprotected == (UnprotectedHeader{}) {
+		chosenType = Conf_CoseSign_Field_Signature
+	}
+
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
 		coseSignature.Protected = NewRandomBuffer(NewRandomInt(5, 49))
-- 
2.43.0


From 4e1806e68aada9d76880462dd968258a07448b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 23/61] fix: a Done70 is answered once: a finished onboarding
 session accepts no further message

---
 core/do/to2/listener-to2-70-Done.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 65385f7..25fef72 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -18,7 +18,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_70_DONE
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
-	session, _, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
+	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
@@ -99,6 +99,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	// The protocol is over: nothing more is answered in this session
+	session.PrevCMD = fdoshared.TO2_71_DONE2
+	err = h.session.UpdateSessionEntry(sessionId, *session)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error saving session..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
 		testcomListener.To2.PushSuccess()
 		testcomListener.To2.CompleteTestRun()
-- 
2.43.0


From 2375353485266c571570bb49aed6ae68abbfb309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 24/61] fix: payloads too long for a CCM cipher suite are
 refused instead of panicking

---
 core/shared/enc.crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 07d0c83..5c628af 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -453,6 +453,10 @@ func encryptEMB(plaintext []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 			return []byte{}, errors.New("Error generating new CCM instance. " + err.Error())
 		}
 
+		if len(plaintext) > aesccm.MaxLength() {
+			return []byte{}, errors.New("error! Payload is too long for the cipher suite")
+		}
+
 		ciphertext = aesccm.Seal(nil, nonceIvBytes, plaintext, aadBytes)
 
 	default:
-- 
2.43.0


From adee4b4cd8ea491e84419479a3020295c05ef916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 25/61] fix: COSE keys with a malformed curve or modulus are
 refused instead of panicking

---
 core/shared/signing.cose.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 74b743c..8251fe9 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -71,9 +71,15 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 
 			xy := append(x, y...)
 			rawPublicKey = append([]byte{0x04}, xy...)
-			algId = cosePubKey.CrvOrN.(CoseAlg)
+			algId, ok = cosePubKey.CrvOrN.(CoseAlg)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Invalid curve")
+			}
 		case CoseRSA:
-			rawPublicKey = cosePubKey.CrvOrN.([]byte)
+			rawPublicKey, ok = cosePubKey.CrvOrN.([]byte)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Invalid RSA modulus")
+			}
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
-- 
2.43.0


From ec73288f835466c6d5617c6a7bc28df282762c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 26/61] fix: degenerate Diffie-Hellman public values are
 refused

---
 core/shared/kex.crypto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index c651265..e3b3350 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -256,6 +256,13 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		// Recover Bob's public key
 		dhkxBPubKey := dhkx.NewPublicKey(xBKeyExchange)
 
+		// 1 and p-1 generate subgroups that fix the shared secret
+		one := big.NewInt(1)
+		maxY := new(big.Int).Sub(dhkxPrivKeyA.Group.P(), big.NewInt(2))
+		if dhkxBPubKey.Y.Cmp(one) <= 0 || dhkxBPubKey.Y.Cmp(maxY) > 0 {
+			return nil, errors.New("error deriving shared key for KEX_DHKEX id14/id15. Public value is out of bounds")
+		}
+
 		// Compute the key
 		sharedPubKey, err := dhkxPrivKeyA.Group.ComputeKey(dhkxBPubKey, dhkxPrivKeyA)
 		if err != nil {
-- 
2.43.0


From 75695ff54e694faf859ffb914e58a1bc967155e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 27/61] fix: ECDH key exchange messages with wrong part lengths
 are refused

---
 core/shared/kex.crypto.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index e3b3350..80a7108 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -245,6 +245,13 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 	}
 }
 
+// hasECDHLengths checks the length prefixes of the X, Y and random parts. The total length must have been checked before.
+func hasECDHLengths(xKeyExchange []byte, coordLen int, randomLen int) bool {
+	return int(binary.BigEndian.Uint16(xKeyExchange)) == coordLen &&
+		int(binary.BigEndian.Uint16(xKeyExchange[2+coordLen:])) == coordLen &&
+		int(binary.BigEndian.Uint16(xKeyExchange[4+2*coordLen:])) == randomLen
+}
+
 func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, ownerPrivateKey interface{}) (*SessionKeyInfo, error) {
 	switch kexA.KexSuit {
 	case KEX_DHKEXid14, KEX_DHKEXid15:
@@ -280,6 +287,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH256 length. Expected %d bytes long", expectedLen)
 		}
 
+		if !hasECDHLengths(xBKeyExchange, 32, KEX_ECDH256_RANDOM_LEN) {
+			return nil, errors.New("unexpected part lengths in xBKeyExchange for ECDH256")
+		}
+
 		deviceX := xBKeyExchange[2:34]
 		deviceY := xBKeyExchange[36:68]
 		xbRandom := xBKeyExchange[70:86]
@@ -329,6 +340,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH384 length. Expected %d bytes long", expectedLen)
 		}
 
+		if !hasECDHLengths(xBKeyExchange, 48, KEX_ECDH384_RANDOM_LEN) {
+			return nil, errors.New("unexpected part lengths in xBKeyExchange for ECDH384")
+		}
+
 		deviceX := xBKeyExchange[2:50]
 		deviceY := xBKeyExchange[52:100]
 		xbRandom := xBKeyExchange[102:150]
-- 
2.43.0


From cc65c48cb609365e10fb10c3d03d7ca961872c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 28/61] fix: asymmetric key exchange randoms of the wrong
 length are refused

---
 core/shared/kex.crypto.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 80a7108..f6f3889 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -388,7 +388,16 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		}, nil
 
 	case KEX_ASYMKEX2048, KEX_ASYMKEX3072:
+		randomLen := KEX_ASYMKEX2048_RANDOM_LEN
+		if kexA.KexSuit == KEX_ASYMKEX3072 {
+			randomLen = KEX_ASYMKEX3072_RANDOM_LEN
+		}
+
 		if isDevice {
+			if len(xBKeyExchange) != randomLen {
+				return nil, fmt.Errorf("unexpected owner random length for ASYM KEX. Expected %d bytes", randomLen)
+			}
+
 			return &SessionKeyInfo{
 				ShSe:        kexA.Private,
 				ContextRand: xBKeyExchange,
@@ -399,6 +408,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 				return nil, fmt.Errorf("error unwrapping OAEP for ASYM KEX. %s", err.Error())
 			}
 
+			if len(deviceRandom) != randomLen {
+				return nil, fmt.Errorf("unexpected device random length for ASYM KEX. Expected %d bytes", randomLen)
+			}
+
 			return &SessionKeyInfo{
 				ShSe:        deviceRandom,
 				ContextRand: kexA.Private,
-- 
2.43.0


From d20382bce556467eeb51a24b01b8cdd9130f8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 29/61] fix: valueless boolean rendezvous instructions are
 accepted instead of always refused

---
 core/shared/rvinfo.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 3490d60..7276910 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -109,8 +109,14 @@ func (h *RendezvousDirective) Validate() error {
 			return fmt.Errorf("duplicate key (%d) in RendezvousInstrList", instr.Key)
 		}
 
-		if instr.Key.IsBoolean() && instr.Value != nil {
-			return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+		if instr.Key.IsBoolean() {
+			if instr.Value != nil {
+				return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+			}
+
+			// Presence is the value
+			recordedKeys[instr.Key]++
+			continue
 		}
 
 		// Is valid cbor
-- 
2.43.0


From c02992d44c5879c38182821c91d6c744f77e1072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 30/61] fix: rendezvous instructions with a value of the wrong
 type are refused instead of read as zero

---
 core/shared/rvinfo.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 7276910..eff048f 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -240,6 +240,8 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 	}
 
 	for _, instr := range instrList {
+		var err error
+
 		switch instr.Key {
 		case RVDevOnly:
 			rvib.RVDevOnly = true
@@ -247,7 +249,10 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVOwnerOnly = true
 		case RVIPAddress:
 			var ipAddressBytes []byte
-			CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			err = CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			if err != nil {
+				break
+			}
 
 			ipv4addr, err := FdoIPAddressFromBytes(ipAddressBytes)
 			if err != nil {
@@ -257,42 +262,45 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVIPAddresses = append(rvib.RVIPAddresses, ipv4addr)
 		case RVDevPort:
 			rvib.RVDevPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
 		case RVOwnerPort:
 			rvib.RVOwnerPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
 		case RVDns:
 			rvib.RVDns = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVDns)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDns)
 		case RVSvCertHash:
 			rvib.RVSvCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
 		case RVClCertHash:
 			rvib.RVClCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
 		case RVUserInput:
 			rvib.RVUserInput = true
 		case RVWifiSsid:
 			rvib.RVWifiSsid = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
 		case RVWifiPw:
 			rvib.RVWifiPw = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
 		case RVMedium:
 			rvib.RVMedium = new(RVMediumValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVMedium)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVMedium)
 		case RVProtocol:
 			rvib.RVProtocol = new(RVProtocolValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
 		case RVDelaysec:
 			rvib.RVDelaysec = new(uint32)
-			CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
 		case RVBypass:
 			rvib.RVBypass = true
 		case RVExtRV:
 			rvib.RVExtRV = new([]interface{})
-			CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+		}
 
+		if err != nil {
+			return rvib, fmt.Errorf("error decoding RVInstr (%d) value. %s", instr.Key, err.Error())
 		}
 	}
 
-- 
2.43.0


From 3c531c5140d8ef2f4f1e1b98ab67493a03dd3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 31/61] fix: owner URLs of IPv6 addresses are bracketed

---
 core/shared/rvinfo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index eff048f..7175241 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -3,6 +3,8 @@ package fdoshared
 import (
 	"errors"
 	"fmt"
+	"net"
+	"strconv"
 )
 
 type RVMediumValue uint8
@@ -224,7 +226,7 @@ func (h *MappedRVDirective) GetOwnerUrls() []string {
 	}
 
 	for _, ipAddr := range h.RVIPAddresses {
-		result = append(result, fmt.Sprintf("https://%s:%d", ipAddr.String(), selectedPort))
+		result = append(result, "https://"+net.JoinHostPort(ipAddr.String(), strconv.Itoa(int(selectedPort))))
 	}
 
 	return result
-- 
2.43.0


From ec8d8628a6e8b3d023820557d7dd105b497a0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 32/61] fix: clients report an answer with an HTTP error status
 or the wrong message type as an error

---
 core/device/to1/req-to1-30-HelloRV.go         |  5 +++++
 core/device/to1/req-to1-32-ProveToRV.go       |  5 +++++
 core/device/to2/req-to2-60-HelloDevice.go     |  9 +++-----
 core/device/to2/req-to2-62-GetOVNextEntry.go  |  9 +++-----
 core/device/to2/req-to2-64-ProveDevice.go     |  9 +++-----
 .../to2/req-to2-66-DeviceServiceInfoReady.go  |  9 +++-----
 .../to2/req-to2-68-DeviceServiceInfo.go       |  9 +++-----
 core/device/to2/req-to2-70-Done.go            |  9 +++-----
 core/do/to0/req-to0-20-Hello.go               | 11 +++++-----
 core/do/to0/req-to0-22-OwnerSign.go           | 11 +++++-----
 core/shared/comms.go                          | 22 +++++++++++++++++++
 11 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index 8f0b633..133fa45 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -42,6 +42,11 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 		return nil, &testState, errors.New("HelloRV30: Error sending RV request: " + err.Error())
 	}
 
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, &testState, errors.New("HelloRV30: " + err.Error())
+	}
+
 	h.authzHeader = authzHeader
 
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloRVAck31)
diff --git a/core/device/to1/req-to1-32-ProveToRV.go b/core/device/to1/req-to1-32-ProveToRV.go
index 3a97849..a7670b6 100644
--- a/core/device/to1/req-to1-32-ProveToRV.go
+++ b/core/device/to1/req-to1-32-ProveToRV.go
@@ -65,6 +65,11 @@ func (h *To1Requestor) ProveToRV32(helloRVAck31 fdoshared.HelloRVAck31, fdoTestI
 		return nil, nil, errors.New("RVRedirect33: Error sending RV request: " + err.Error())
 	}
 
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, &testState, errors.New("RVRedirect33: " + err.Error())
+	}
+
 	h.authzHeader = authzHeader
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &rvRedirect33)
 	if err != nil {
diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..9135b3d 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -43,11 +42,9 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("HelloDevice60: " + err.Error())
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("HelloDevice60: %s", fdoErrInst.EMErrorStr)
-		}
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("HelloDevice60: %w", err)
 	}
 
 	h.AuthzHeader = authzHeader
diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index c756896..f0ca1a2 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -3,7 +3,6 @@ package to2
 import (
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,11 +31,9 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("GetOVNextEntry62: %s", fdoErrInst.EMErrorStr)
-		}
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("GetOVNextEntry62: %w", err)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-64-ProveDevice.go b/core/device/to2/req-to2-64-ProveDevice.go
index 771008a..936e8e4 100644
--- a/core/device/to2/req-to2-64-ProveDevice.go
+++ b/core/device/to2/req-to2-64-ProveDevice.go
@@ -3,7 +3,6 @@ package to2
 import (
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -83,11 +82,9 @@ func (h *To2Requestor) ProveDevice64(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("ProveDevice64: " + err.Error())
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("ProveDevice64: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
-		}
+	err = fdoshared.ExpectHttpOK(rawResultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("ProveDevice64: %w", err)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
index f1494e8..41bc1c8 100644
--- a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
+++ b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
@@ -3,7 +3,6 @@ package to2
 import (
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -49,11 +48,9 @@ func (h *To2Requestor) DeviceServiceInfoReady66(fdoTestID testcom.FDOTestID) (*f
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: %s", fdoErrInst.EMErrorStr)
-		}
+	err = fdoshared.ExpectHttpOK(rawResultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: %w", err)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-68-DeviceServiceInfo.go b/core/device/to2/req-to2-68-DeviceServiceInfo.go
index 5352d3d..3f90240 100644
--- a/core/device/to2/req-to2-68-DeviceServiceInfo.go
+++ b/core/device/to2/req-to2-68-DeviceServiceInfo.go
@@ -3,7 +3,6 @@ package to2
 import (
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -41,11 +40,9 @@ func (h *To2Requestor) DeviceServiceInfo68(deviceServiceInfo68 fdoshared.DeviceS
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server returned error (HTTP %d): (ErrorCID %d) %s", httpStatusCode, fdoErrInst.EMErrorCID, fdoErrInst.EMErrorStr)
-		}
+	err = fdoshared.ExpectHttpOK(rawResultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("DeviceServiceInfo68: %w", err)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-70-Done.go b/core/device/to2/req-to2-70-Done.go
index e30f7e5..dea000f 100644
--- a/core/device/to2/req-to2-70-Done.go
+++ b/core/device/to2/req-to2-70-Done.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -49,11 +48,9 @@ func (h *To2Requestor) Done70(fdoTestID testcom.FDOTestID) (*fdoshared.Done271,
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("Done70: %s", fdoErrInst.EMErrorStr)
-		}
+	err = fdoshared.ExpectHttpOK(rawResultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, fmt.Errorf("Done70: %w", err)
 	}
 
 	if authzHeader != "" {
diff --git a/core/do/to0/req-to0-20-Hello.go b/core/do/to0/req-to0-20-Hello.go
index 26f88f9..305e516 100644
--- a/core/do/to0/req-to0-20-Hello.go
+++ b/core/do/to0/req-to0-20-Hello.go
@@ -2,7 +2,6 @@ package to0
 
 import (
 	"errors"
-	"fmt"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -31,13 +30,13 @@ func (h *To0Requestor) Hello20(fdoTestID testcom.FDOTestID) (*fdoshared.HelloAck
 		return nil, nil, errors.New("Hell20: Error sending RV request: " + err.Error())
 	}
 
-	h.authzHeader = authzHeader
-
-	fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-	if err == nil {
-		return nil, nil, fmt.Errorf("Hell20: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, errors.New("Hell20: " + err.Error())
 	}
 
+	h.authzHeader = authzHeader
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloAck21)
 	if err != nil {
 		return nil, nil, errors.New("Hell20: Failed to unmarshal HelloAck21. " + err.Error())
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..d8fc68c 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -2,7 +2,6 @@ package to0
 
 import (
 	"errors"
-	"fmt"
 	"log"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -116,13 +115,13 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, errors.New("OwnerSign22: " + err.Error())
 	}
 
-	h.authzHeader = authzHeader
-
-	fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-	if err == nil {
-		return nil, nil, fmt.Errorf("server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
+	err = fdoshared.ExpectHttpOK(resultBytes, httpStatusCode)
+	if err != nil {
+		return nil, nil, errors.New("OwnerSign22: " + err.Error())
 	}
 
+	h.authzHeader = authzHeader
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &acceptOwner23)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Failed to unmarshal AcceptOwner23. " + err.Error())
diff --git a/core/shared/comms.go b/core/shared/comms.go
index a181d98..9084d24 100644
--- a/core/shared/comms.go
+++ b/core/shared/comms.go
@@ -52,5 +52,27 @@ func SendCborPost(rvEntry SRVEntry, cmd FdoCmd, payload []byte, authzHeader *str
 		return nil, "", 0, fmt.Errorf("Error reading body bytes for %s url. %s", address, err.Error())
 	}
 
+	if resp.StatusCode == http.StatusOK {
+		expectedType := (cmd + 1).ToString()
+		messageType := resp.Header.Get("Message-Type")
+		if messageType != "" && messageType != expectedType {
+			return bodyBytes, "", resp.StatusCode, fmt.Errorf("Unexpected message type %s from %s url. Expected %s", messageType, address, expectedType)
+		}
+	}
+
 	return bodyBytes, resp.Header.Get("Authorization"), resp.StatusCode, nil
 }
+
+// ExpectHttpOK returns an error unless the peer answered with HTTP 200
+func ExpectHttpOK(bodyBytes []byte, httpStatusCode int) error {
+	if httpStatusCode == http.StatusOK {
+		return nil
+	}
+
+	fdoErrInst, err := DecodeErrorResponse(bodyBytes)
+	if err != nil {
+		return fmt.Errorf("Server returned HTTP %d", httpStatusCode)
+	}
+
+	return fmt.Errorf("Server returned FDO error (HTTP %d): %s %d", httpStatusCode, fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
+}
-- 
2.43.0


From 5b11df73afc2d50d7229eecc3b6de021d46270c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 33/61] fix: ProveOVHdr61 without an owner key or nonce is an
 error instead of a panic

---
 core/device/to2/req-to2-60-HelloDevice.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 9135b3d..cea497b 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -57,6 +57,14 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing owner public key")
+	}
+
+	if proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing NonceTO2ProveDv")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 3018adc3b83f9e106872c3e9c5fa0adc078d7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 34/61] fix: an OVNextEntry63 with another entry than the one
 asked for is an error

---
 core/device/to2/req-to2-62-GetOVNextEntry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index f0ca1a2..b9fb6de 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -50,5 +50,9 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		return nil, nil, errors.New("GetOVNextEntry64: Received FDO Error: " + fdoError.Error())
 	}
 
+	if nextEntry.OVEntryNum != entryNum {
+		return nil, nil, fmt.Errorf("GetOVNextEntry62: Server returned unexpected entry. Expected %d. Got %d", entryNum, nextEntry.OVEntryNum)
+	}
+
 	return &nextEntry, &testState, nil
 }
-- 
2.43.0


From c61ae130258e819b60f5f9b5fe8fce70fc55d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 35/61] fix: a HelloRVAck31 that changes the signature info is
 an error

---
 core/device/to1/req-to1-30-HelloRV.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index 133fa45..b480cd8 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -58,5 +58,10 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 		return nil, &testState, errors.New("HelloRV30: Received FDO Error: " + fdoError.Error())
 	}
 
+	err = helloRVAck31.EBSigInfo.Equal(helloRv30.EASigInfo)
+	if err != nil {
+		return nil, &testState, errors.New("HelloRV30: Failed SigInfo check. " + err.Error())
+	}
+
 	return &helloRVAck31, &testState, nil
 }
-- 
2.43.0


From 8fa5211bcd01e3ea93d897483505618ffc09a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 36/61] fix: an answer of CBOR null is an error instead of an
 empty message

---
 core/shared/other.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 23124f9..1869176 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -251,6 +251,11 @@ func DecodeErrorResponse(bodyBytes []byte) (*FdoError, error) {
 }
 
 func TryCborUnmarshal(bodyBytes []byte, target interface{}) (*FdoError, error) {
+	// Decoding null or undefined leaves the target as it is, but no message is null
+	if bytes.Equal(bodyBytes, []byte{0xf6}) || bytes.Equal(bodyBytes, []byte{0xf7}) {
+		return nil, errors.New("message is CBOR null")
+	}
+
 	err := CborCust.Unmarshal(bodyBytes, target)
 	if err != nil {
 		return DecodeErrorResponse(bodyBytes)
-- 
2.43.0


From 4fd06607f9f25841e7e93b7089c493d218cce1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 37/61] fix: the negative voucher entry key test signs with the
 owner's real key type

---
 core/do/to0/req-to0-22-OwnerSign.go | 14 ++++++--------
 core/shared/signing.crypto.go       | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index d8fc68c..3c7e013 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -64,20 +64,18 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 	}
 
 	// TO1D CoseSignature
-	var lastOvEntryPubKeyPkType fdoshared.FdoPkType = fdoshared.SECP256R1
-	lastOvEntryPubKey, err := h.voucherDBEntry.Voucher.GetFinalOwnerPublicKey()
+	privateKeyInst, err := fdoshared.ExtractPrivateKey(h.voucherDBEntry.PrivateKeyX509)
 	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error extracting last OVEntry public key. " + err.Error())
+		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	lastOvEntryPubKeyPkType = lastOvEntryPubKey.PkType
-
-	privateKeyInst, err := fdoshared.ExtractPrivateKey(h.voucherDBEntry.PrivateKeyX509)
+	// The public key in the voucher may be deliberately broken
+	ownerPkType, err := fdoshared.GetPrivateKeyPkType(privateKeyInst)
 	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
+		return nil, nil, errors.New("OwnerSign22: Error getting private key type. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, deviceHashAlg)
+	sgType, err := fdoshared.GetDeviceSgType(ownerPkType, deviceHashAlg)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
 	}
diff --git a/core/shared/signing.crypto.go b/core/shared/signing.crypto.go
index facc13e..78c2fdc 100644
--- a/core/shared/signing.crypto.go
+++ b/core/shared/signing.crypto.go
@@ -3,6 +3,7 @@ package fdoshared
 import (
 	"crypto"
 	"crypto/ecdsa"
+	"crypto/elliptic"
 	"crypto/rand"
 	"crypto/rsa"
 	"crypto/sha256"
@@ -228,6 +229,25 @@ func ExtractPrivateKey(privateKeyDer []byte) (interface{}, error) {
 	return nil, fmt.Errorf("failed to parse private key")
 }
 
+// GetPrivateKeyPkType returns the type of the public key that belongs to the private key
+func GetPrivateKeyPkType(privateKeyInterface interface{}) (FdoPkType, error) {
+	switch key := privateKeyInterface.(type) {
+	case *ecdsa.PrivateKey:
+		switch key.Curve {
+		case elliptic.P256():
+			return SECP256R1, nil
+		case elliptic.P384():
+			return SECP384R1, nil
+		}
+	case *rsa.PrivateKey:
+		if key.Size() == 256 {
+			return RSA2048RESTR, nil
+		}
+		return RSAPKCS, nil
+	}
+	return 0, fmt.Errorf("unsupported private key type")
+}
+
 // https://crypto.stackexchange.com/a/50719
 func i2osp(coeff []byte, expecteCoeffLen int) ([]byte, error) {
 	// if len(rep(i)) is two larger or more than n then error;
-- 
2.43.0


From 064af419b2b0cd60261b56dd9cae7e8116f6fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 38/61] fix: an error answer without an error code is not a
 protocol error

---
 core/shared/other.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 1869176..3228a43 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -247,6 +247,11 @@ func DecodeErrorResponse(bodyBytes []byte) (*FdoError, error) {
 		return nil, errors.New("error decoding FdoError " + err.Error())
 	}
 
+	// CBOR null, and nulls for the fields, decode without an error
+	if errInst.EMErrorCode == 0 {
+		return nil, errors.New("error decoding FdoError: no error code")
+	}
+
 	return &errInst, nil
 }
 
-- 
2.43.0


From b6b84d0273b6d39f9e94266e0766944631859205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 39/61] fix: the TO0 response tests require HTTP 200 and the
 right message

---
 core/do/to0/common.go               | 43 ++++++++++++++---------------
 core/do/to0/req-to0-20-Hello.go     |  6 +++-
 core/do/to0/req-to0-22-OwnerSign.go |  6 +++-
 3 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/core/do/to0/common.go b/core/do/to0/common.go
index 3a05092..7740a10 100644
--- a/core/do/to0/common.go
+++ b/core/do/to0/common.go
@@ -34,6 +34,25 @@ func (h *To0Requestor) getRVTO2AddrEntry() (*fdoshared.RVTO2AddrEntry, error) {
 	return fdoshared.UrlToTOAddrEntry(servUrl)
 }
 
+// checkPositiveResponse passes when the server has answered with the expected message
+func checkPositiveResponse(bodyBytes []byte, fdoTestID testcom.FDOTestID, httpStatusCode int, message interface{}) testcom.FDOTestState {
+	err := fdoshared.ExpectHttpOK(bodyBytes, httpStatusCode)
+	if err != nil {
+		return testcom.NewFailTestState(fdoTestID, err.Error())
+	}
+
+	fdoError, err := fdoshared.TryCborUnmarshal(bodyBytes, message)
+	if err != nil {
+		return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Error decoding %T. %s", message, err.Error()))
+	}
+
+	if fdoError != nil {
+		return testcom.NewFailTestState(fdoTestID, "Server returned FDO error: "+fdoError.Error())
+	}
+
+	return testcom.NewSuccessTestState(fdoTestID)
+}
+
 func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDOTestID, httpStatusCode int) testcom.FDOTestState {
 	expectedErrorCode, ok := testcom.FIDO_TEST_TO_FDO_ERROR_CODE[fdoTestID]
 	if !ok {
@@ -42,32 +61,12 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 
 	switch fdoTestID {
 	case testcom.FIDO_RVT_21_CHECK_RESP:
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
-		if err == nil {
-			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
-		}
-
 		var helloAck21 fdoshared.HelloAck21
-		err = fdoshared.CborCust.Unmarshal(bodyBytes, &helloAck21)
-		if err != nil {
-			return testcom.NewFailTestState(fdoTestID, "Error decoding HelloAck21. "+err.Error())
-		}
-
-		return testcom.NewSuccessTestState(fdoTestID)
+		return checkPositiveResponse(bodyBytes, fdoTestID, httpStatusCode, &helloAck21)
 
 	case testcom.FIDO_RVT_23_CHECK_RESP:
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
-		if err == nil {
-			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
-		}
-
 		var acceptOwner fdoshared.AcceptOwner23
-		err = fdoshared.CborCust.Unmarshal(bodyBytes, &acceptOwner)
-		if err != nil {
-			return testcom.NewFailTestState(fdoTestID, "Error decoding AcceptOwner23. "+err.Error())
-		}
-
-		return testcom.NewSuccessTestState(fdoTestID)
+		return checkPositiveResponse(bodyBytes, fdoTestID, httpStatusCode, &acceptOwner)
 
 	case testcom.ExpectGroupTests(testcom.FIDO_TEST_LIST_RVT_20, fdoTestID):
 		return testcom.ExpectAnyFdoError(bodyBytes, fdoTestID, expectedErrorCode, httpStatusCode)
diff --git a/core/do/to0/req-to0-20-Hello.go b/core/do/to0/req-to0-20-Hello.go
index 305e516..8bcbd22 100644
--- a/core/do/to0/req-to0-20-Hello.go
+++ b/core/do/to0/req-to0-20-Hello.go
@@ -22,7 +22,11 @@ func (h *To0Requestor) Hello20(fdoTestID testcom.FDOTestID) (*fdoshared.HelloAck
 
 	resultBytes, authzHeader, httpStatusCode, err := fdoshared.SendCborPost(h.srvEntry, fdoshared.TO0_20_HELLO, hello20Bytes, &h.srvEntry.AccessToken)
 	if fdoTestID != testcom.NULL_TEST {
-		testState = h.confCheckResponse(resultBytes, fdoTestID, httpStatusCode)
+		if err != nil {
+			testState = testcom.NewFailTestState(fdoTestID, err.Error())
+		} else {
+			testState = h.confCheckResponse(resultBytes, fdoTestID, httpStatusCode)
+		}
 		return nil, &testState, nil
 	}
 
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 3c7e013..e3a0e2d 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -105,7 +105,11 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 
 	resultBytes, authzHeader, httpStatusCode, err := fdoshared.SendCborPost(h.srvEntry, fdoshared.TO0_22_OWNER_SIGN, ownerSign22Bytes, &h.authzHeader)
 	if fdoTestId != testcom.NULL_TEST {
-		testState = h.confCheckResponse(resultBytes, fdoTestId, httpStatusCode)
+		if err != nil {
+			testState = testcom.NewFailTestState(fdoTestId, err.Error())
+		} else {
+			testState = h.confCheckResponse(resultBytes, fdoTestId, httpStatusCode)
+		}
 		return nil, &testState, nil
 	}
 
-- 
2.43.0


From 00c9fcf625702944f02caaa84aadf08cbf6a2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 40/61] fix: a TO1 test run that stops early is finished

---
 testexec/rvt.to1.execute.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..4d6c381 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -14,6 +14,7 @@ import (
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -141,6 +142,4 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
 		}
 	}
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
-- 
2.43.0


From b79e7c8aee0970794f3ac33dd2673d79738fb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 41/61] fix: positive TO1 and TO2 tests check the server's
 answer

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.64.execute.go | 2 +-
 testexec/do.to2.66.execute.go | 2 +-
 testexec/rvt.to1.execute.go   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..a401203 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..a216d0f 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -68,7 +68,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..ee290ce 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -72,7 +72,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 4d6c381..c75df9d 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -66,7 +66,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_30_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.HelloRV30(rv30test)
+			_, _, err := to1inst.HelloRV30(testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
@@ -112,7 +112,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
-- 
2.43.0


From 91c7be83ba92660d35f6262e472582297e95a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 42/61] fix: a TO2 test whose setup fails is recorded as failed

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.62.execute.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index a401203..b5599f2 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -14,7 +14,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		if err != nil {
 			errTestState := testcom.NewFailTestState(fdoTestId, "Error getting voucher for TO2 60. "+err.Error())
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, fdoTestId, errTestState)
 			return
 		}
 
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..7cc139a 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -20,7 +20,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Error:  "Error getting voucher for TO2 60. " + err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
@@ -35,7 +35,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Passed: false,
 				Error:  "Error running TO2 GetOVNextEntry62 tests. Failed to run HelloDevice60. " + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
-- 
2.43.0


From a7689b51ffe6b55105acbe7f9539a6c3fe1cb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 43/61] fix: the negative GetOVNextEntry62 tests stop at the
 server's error

---
 testexec/do.to2.62.execute.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index 7cc139a..3baf1a1 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -117,7 +117,9 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				}
 
 				if randomTestIndex == i {
+					// The server may have ended the session with its error
 					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					break
 				}
 			}
 		}
-- 
2.43.0


From ce80d0e4e842e22f5d8001f7df2ad3519553c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 44/61] fix: a voucher without entries fails the TO2 tests
 instead of crashing the run

---
 testexec/do.to2.62.execute.go | 40 ++++++++++++++++++++++++-----------
 testexec/do.to2.64.execute.go | 10 +--------
 testexec/do.to2.66.execute.go | 10 +--------
 testexec/do.to2.68.execute.go | 10 +--------
 testexec/do.to2.70.execute.go | 10 +--------
 5 files changed, 32 insertions(+), 48 deletions(-)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index 3baf1a1..8d20fa9 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -1,6 +1,7 @@
 package testexec
 
 import (
+	"errors"
 	"fmt"
 	"log"
 
@@ -11,6 +12,25 @@ import (
 	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
 )
 
+// verifyOvEntries checks the received entries, and that the last one belongs to the owner
+func verifyOvEntries(to2requestor *to2.To2Requestor, proveOVHdrPayload61 *fdoshared.TO2ProveOVHdrPayload, ovEntries fdoshared.OVEntryArray) error {
+	err := ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
+	if err != nil {
+		return err
+	}
+
+	if len(ovEntries) == 0 {
+		return errors.New("Server returned a voucher without entries")
+	}
+
+	loePubKey, err := ovEntries[len(ovEntries)-1].GetOVEntryPubKey()
+	if err != nil {
+		return err
+	}
+
+	return to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
+}
+
 func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
 	for _, testId := range testcom.FIDO_TEST_LIST_DOT_62 {
 		testCred, err := reqte.TestVouchers.GetVoucher(testcom.NULL_TEST)
@@ -64,7 +84,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				ovEntries = append(ovEntries, nextEntry.OVEntry)
 			}
 
-			err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
+			err = verifyOvEntries(&to2requestor, proveOVHdrPayload61, ovEntries)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
@@ -73,24 +93,20 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				return
 			}
 
-			lastOvEntry := ovEntries[len(ovEntries)-1]
-			loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
+			errTestState := testcom.FDOTestState{
+				Passed: true,
+			}
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 
-			err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
-			if err != nil {
+		default:
+			if proveOVHdrPayload61.NumOVEntries == 0 {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
-					Error:  err.Error(),
+					Error:  "Server returned a voucher without entries",
 				})
 				return
 			}
 
-			errTestState := testcom.FDOTestState{
-				Passed: true,
-			}
-			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
-
-		default:
 			randomTestIndex := fdoshared.NewRandomInt(0, int(proveOVHdrPayload61.NumOVEntries))
 			for i := 0; i < int(proveOVHdrPayload61.NumOVEntries); i++ {
 				selectedTestId := testcom.NULL_TEST
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index a216d0f..9cd9679 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -38,15 +38,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
 	}
 
-	err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
-	if err != nil {
-		return nil, err
-	}
-
-	lastOvEntry := ovEntries[len(ovEntries)-1]
-	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
-
-	err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
+	err = verifyOvEntries(&to2requestor, proveOVHdrPayload61, ovEntries)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index ee290ce..200855a 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -38,15 +38,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
 	}
 
-	err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
-	if err != nil {
-		return nil, err
-	}
-
-	lastOvEntry := ovEntries[len(ovEntries)-1]
-	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
-
-	err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
+	err = verifyOvEntries(&to2requestor, proveOVHdrPayload61, ovEntries)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..1ecbf80 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -40,15 +40,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
 	}
 
-	err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
-	if err != nil {
-		return nil, err
-	}
-
-	lastOvEntry := ovEntries[len(ovEntries)-1]
-	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
-
-	err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
+	err = verifyOvEntries(&to2requestor, proveOVHdrPayload61, ovEntries)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..aeaf000 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -40,15 +40,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
 	}
 
-	err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
-	if err != nil {
-		return nil, err
-	}
-
-	lastOvEntry := ovEntries[len(ovEntries)-1]
-	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
-
-	err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
+	err = verifyOvEntries(&to2requestor, proveOVHdrPayload61, ovEntries)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b11f6a15622da3046e3c79c99b040f0cb4ada854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 45/61] fix: OwnerSign22 signs with the algorithm of the owner
 key, not of the device

---
 core/do/to0/req-to0-22-OwnerSign.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index e3a0e2d..78e0744 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -2,6 +2,7 @@ package to0
 
 import (
 	"errors"
+	"fmt"
 	"log"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -75,9 +76,9 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, errors.New("OwnerSign22: Error getting private key type. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(ownerPkType, deviceHashAlg)
-	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
+	sgType, ok := fdoshared.PkToSgType[ownerPkType]
+	if !ok {
+		return nil, nil, fmt.Errorf("OwnerSign22: Unsupported private key type %d", ownerPkType)
 	}
 
 	to1d, err := fdoshared.GenerateCoseSignature(to1dPayloadBytes, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, privateKeyInst, sgType)
-- 
2.43.0


From fe239881e45e3d9c92fbe3938c9087ec2346e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 46/61] fix: deleting a test run does not redirect the device
 to an older upload of its voucher

---
 core/shared/testcom/dbs/listener.db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 0f9e4cb..3bf952a 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -241,7 +241,7 @@ func (h *ListenerTestDB) RemoveTestRun(toProtocol fdoshared.FdoToProtocol, testI
 		testInst.To2 = chosenReqListRunner
 	}
 
-	err = h.Save(*testInst)
+	err = h.Update(testInst)
 	if err != nil {
 		log.Printf("%s error saving test entry. %s", hex.EncodeToString(testInstId), err.Error())
 		return err
-- 
2.43.0


From f740530d23b8ba5bc0c94ae57d561a4395a4e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 47/61] fix: messages of an earlier session record no verdict
 in a run that has just started

---
 core/shared/testcom/listener/listenert.db.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index a9121c2..b1e4692 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -79,6 +79,11 @@ func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdosha
 		return true
 	}
 
+	// A run begins with its first message. The rest of an older session is not part of it
+	if h.LastTestID == "" && currentCmd != h.ExpectedCmd {
+		return true
+	}
+
 	for _, completedCmd := range h.CompletedCmds {
 		if completedCmd == currentCmd {
 			return true
@@ -176,6 +181,11 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 }
 
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
+	// No test was given yet
+	if h.LastTestID == "" {
+		return
+	}
+
 	h.LastTestJudged = true
 	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewFailTestState(h.GetLastTestID(), errorMsg))
 }
-- 
2.43.0


From afec4559d6a776b5352717bbc19255c488967703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 48/61] fix: results of a server test run are recorded in that
 run only, whatever else happens to its instance

---
 core/shared/testcom/dbs/reqt.db.go | 132 ++++++++++++++++++++---------
 testexec/do.to2.execute.go         |   2 +-
 testexec/rvt.to0.execute.go        |   2 +-
 testexec/rvt.to1.execute.go        |   2 +-
 4 files changed, 93 insertions(+), 45 deletions(-)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..f4b05b2 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -18,6 +18,9 @@ type RequestTestDB struct {
 	db     *badger.DB
 	prefix []byte
 	ttl    int
+
+	// The run that results are reported to. If empty, it is the newest run
+	runId string
 }
 
 func NewRequestTestDB(db *badger.DB) *RequestTestDB {
@@ -120,73 +123,118 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 	return &rvts, nil
 }
 
-func (h *RequestTestDB) StartNewRun(rvteid []byte) {
-	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+// change applies a change to a stored entry at once, so that no other change is lost
+func (h *RequestTestDB) change(rvteid []byte, apply func(rvte *reqtestsdeps.RequestTestInst)) error {
+	rvteStorageId := append(append([]byte{}, h.prefix...), rvteid...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(rvteStorageId)
+			if err != nil {
+				return err
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return err
+			}
+
+			var rvte reqtestsdeps.RequestTestInst
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &rvte)
+			if err != nil {
+				return err
+			}
+
+			apply(&rvte)
+
+			rvteBytes, err := fdoshared.CborCust.Marshal(rvte)
+			if err != nil {
+				return err
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(rvteStorageId, rvteBytes).WithTTL(time.Second * time.Duration(h.ttl)))
+		})
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
 	}
+}
+
+// StartNewRun adds a run to the entry, and returns the DB that reports the results to this run
+func (h *RequestTestDB) StartNewRun(rvteid []byte) *RequestTestDB {
+	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
 
-	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
+	runDB := *h
 
-	rvte.InProgress = true
-	rvte.CurrentTestRun = newRVTestRun
-	rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
 
-	err = h.Save(*rvte)
+		rvte.InProgress = true
+		rvte.CurrentTestRun = newRVTestRun
+		rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+		runDB.runId = newRVTestRun.Uuid
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error starting new run. %s", hex.EncodeToString(rvteid), err.Error())
 	}
+
+	return &runDB
 }
 
 func (h *RequestTestDB) FinishRun(rvteid []byte) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	rvte.InProgress = false
-
-	err = h.Save(*rvte)
+	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		// A newer run may still be in progress
+		if h.runId == "" || h.runId == rvte.CurrentTestRun.Uuid {
+			rvte.InProgress = false
+		}
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error finishing run. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 
 	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
 }
 
 func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
+	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		runId := h.runId
+		if runId == "" {
+			runId = rvte.CurrentTestRun.Uuid
+		}
+
+		for i, testRun := range rvte.TestsHistory {
+			if testRun.Uuid != runId {
+				continue
+			}
 
-	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+			if testRun.Tests == nil {
+				testRun.Tests = reqtestsdeps.RequestTestResultMap{}
+			}
+			testRun.Tests[testID] = testResult
 
-	err = h.Save(*rvte)
+			rvte.TestsHistory[i] = testRun
+			if rvte.CurrentTestRun.Uuid == runId {
+				rvte.CurrentTestRun = testRun
+			}
+		}
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error saving test result. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 }
 
 func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-	for _, testRunEntry := range rvte.TestsHistory {
-		if testRunEntry.Uuid != testRunId {
-			updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
+		for _, testRunEntry := range rvte.TestsHistory {
+			if testRunEntry.Uuid != testRunId {
+				updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+			}
 		}
-	}
-
-	rvte.TestsHistory = updatedTestsHistory
 
-	err = h.Save(*rvte)
+		rvte.TestsHistory = updatedTestsHistory
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error removing test run. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 }
diff --git a/testexec/do.to2.execute.go b/testexec/do.to2.execute.go
index a34c173..66334ed 100644
--- a/testexec/do.to2.execute.go
+++ b/testexec/do.to2.execute.go
@@ -6,7 +6,7 @@ import (
 )
 
 func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
 
 	executeTo2_60(reqte, reqtDB)
 	executeTo2_62(reqte, reqtDB)
diff --git a/testexec/rvt.to0.execute.go b/testexec/rvt.to0.execute.go
index 307e646..e071f24 100644
--- a/testexec/rvt.to0.execute.go
+++ b/testexec/rvt.to0.execute.go
@@ -12,7 +12,7 @@ import (
 )
 
 func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
 
 	for _, rv20test := range testcom.FIDO_TEST_LIST_RVT_20 {
 		randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index c75df9d..9e35549 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -13,7 +13,7 @@ import (
 )
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
 	defer reqtDB.FinishRun(reqte.Uuid)
 
 	// Generating voucher
-- 
2.43.0


From 53ba33f7b502c214558dc4cf041054351080cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 49/61] fix: an expired server test does not make the listing
 of all others fail

---
 api/testapi/do.api.go | 3 +--
 api/testapi/rv.api.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..e5144c8 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -270,8 +270,7 @@ func (h *DOTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 		dotsInfoPayloadPtr, err := h.ReqTDB.Get(dotInfo.To2)
 		if err != nil {
 			log.Println("Error reading dots. " + err.Error())
-			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
-			return
+			continue
 		}
 
 		dotsInfoPayload := *dotsInfoPayloadPtr
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 877cbd7..11135fb 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -163,8 +163,7 @@ func (h *RVTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 		rvtsInfoPayloadsPtr, err := h.ReqTDB.GetMany([][]byte{rvtInfo.To0, rvtInfo.To1})
 		if err != nil {
 			log.Println("Error reading rvts. " + err.Error())
-			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
-			return
+			continue
 		}
 
 		rvtsInfoPayloads := *rvtsInfoPayloadsPtr
-- 
2.43.0


From a0e03c33826c61ed692549cd8fd93059d7365288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 50/61] fix: onboarding service tests can be created with RSA
 owner keys

---
 api/testapi/do.api.go                        | 2 +-
 core/device/genvoucher_with_provided_keys.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index e5144c8..0a6fbd7 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -183,7 +183,7 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(sgType)
+	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(fdoshared.SgType_OwnerToDeviceAttestation[sgType])
 
 	deviceCredential, err := h.DevBaseDB.Get(guid)
 	if err != nil {
diff --git a/core/device/genvoucher_with_provided_keys.go b/core/device/genvoucher_with_provided_keys.go
index 6aa440b..b6fd8f8 100644
--- a/core/device/genvoucher_with_provided_keys.go
+++ b/core/device/genvoucher_with_provided_keys.go
@@ -143,9 +143,9 @@ func NewVirtualDeviceAndVoucherWithKeys(
 			finalOvEntryPrivateKeyBytes = marshalledPrivKey
 		} else {
 			privKey, _, newOvEntry, err = GenerateOvEntry(prevEntryHash, oveHdrInfoHash, prevEntryPrivKey, prevEntrySgType, chosenSgType, fdoTestID)
-			if err != nil {
-				return nil, err
-			}
+		}
+		if err != nil {
+			return nil, err
 		}
 
 		prevEntrySgType = chosenSgType
-- 
2.43.0


From 78bcd6458af2a94cdfe7df15b95a454da254b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 51/61] fix: concurrent requests do not lose each other's
 changes of a user or a device test

---
 api/testapi/device.api.go                  | 19 ++++--
 api/testapi/do.api.go                      |  5 +-
 api/testapi/rv.api.go                      |  6 +-
 api/user.auth.api.go                       | 16 ++---
 api/user.other.api.go                      | 10 ++--
 core/do/server.go                          | 10 ++--
 core/do/to2/common.go                      | 37 ++++++++++++
 core/do/to2/listener-to2-60-HelloDevice.go |  1 +
 core/rv/listener-to1.go                    |  2 +
 core/shared/testcom/dbs/listener.db.go     |  7 +++
 core/shared/testcom/dbs/listener.lock.go   | 53 +++++++++++++++++
 dbs/user.db.go                             | 69 ++++++++++++++++++++++
 12 files changed, 203 insertions(+), 32 deletions(-)
 create mode 100644 core/shared/testcom/dbs/listener.lock.go

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8d33942..e312dc3 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -123,6 +123,9 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	ovHeader, _ := newVand.Voucher.GetOVHeader()
+	defer h.ListenerDB.Lock(ovHeader.OVGuid)()
+
 	err = h.submitToRvOwnerSign(newVand)
 	if err != nil {
 		log.Println("Failed submit owner sign to RV! " + err.Error())
@@ -137,8 +140,6 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	ovHeader, _ := newVand.Voucher.GetOVHeader()
-
 	deviceListenerInsts := listenertestsdeps.NewDevice_RequestListenerInst(*newVand, ovHeader.OVGuid)
 	err = h.ListenerDB.Save(deviceListenerInsts)
 	if err != nil {
@@ -147,9 +148,9 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = append(userInst.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Change(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = append(usere.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
@@ -257,6 +258,14 @@ func (h *DeviceTestMgmtAPI) StartNewTestRun(w http.ResponseWriter, r *http.Reque
 		return
 	}
 
+	// Device may be running its tests
+	defer h.ListenerDB.Lock(reqListInst.Guid)()
+	reqListInst, err = h.ListenerDB.Get(testInstIdBytes)
+	if err != nil {
+		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+
 	runnerInst, err := reqListInst.GetProtocolInst(int(toPInt))
 	if err != nil {
 		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index 0a6fbd7..c3f8078 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -233,8 +233,9 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Saving user
-	userInst.DOTestInsts = append(userInst.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Change(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DOTestInsts = append(usere.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 11135fb..fd456da 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -125,9 +125,9 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.RVTestInsts = append(userInst.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Change(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.RVTestInsts = append(usere.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/user.auth.api.go b/api/user.auth.api.go
index f3b10ce..99d15f1 100644
--- a/api/user.auth.api.go
+++ b/api/user.auth.api.go
@@ -3,7 +3,6 @@ package api
 import (
 	"log"
 	"net/http"
-	"strings"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/api/commonapi"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
@@ -14,18 +13,11 @@ func (h *UserAPI) OnPremNoLogin(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	_, err := h.UserDB.Get(ONPREM_CONFIG)
+	err := h.UserDB.Create(ONPREM_CONFIG)
 	if err != nil {
-		newUserInst := dbs.UserTestDBEntry{
-			Email: strings.ToLower(ONPREM_CONFIG),
-		}
-
-		err = h.UserDB.Save(newUserInst)
-		if err != nil {
-			log.Println("Error saving user. " + err.Error())
-			commonapi.RespondError(w, "Internal server error.", http.StatusInternalServerError)
-			return
-		}
+		log.Println("Error saving user. " + err.Error())
+		commonapi.RespondError(w, "Internal server error.", http.StatusInternalServerError)
+		return
 	}
 
 	err = h.setUserSession(w, dbs.SessionEntry{Email: ONPREM_CONFIG, LoggedIn: true})
diff --git a/api/user.other.api.go b/api/user.other.api.go
index ca7386f..8acccb5 100644
--- a/api/user.other.api.go
+++ b/api/user.other.api.go
@@ -121,11 +121,11 @@ func (h *UserAPI) PurgeTests(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = []dbs.DeviceTestInst{}
-	userInst.DOTestInsts = []dbs.DOTestInst{}
-	userInst.RVTestInsts = []dbs.RVTestInst{}
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Change(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = []dbs.DeviceTestInst{}
+		usere.DOTestInsts = []dbs.DOTestInst{}
+		usere.RVTestInsts = []dbs.RVTestInst{}
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/core/do/server.go b/core/do/server.go
index 1962982..419fd2d 100644
--- a/core/do/server.go
+++ b/core/do/server.go
@@ -13,9 +13,9 @@ func SetupServer(db *badger.DB, ctx context.Context) {
 	doto2 := to2.NewDoTo2(db, ctx)
 
 	http.HandleFunc("/fdo/101/msg/60", doto2.HelloDevice60)
-	http.HandleFunc("/fdo/101/msg/62", doto2.GetOVNextEntry62)
-	http.HandleFunc("/fdo/101/msg/64", doto2.ProveDevice64)
-	http.HandleFunc("/fdo/101/msg/66", doto2.DeviceServiceInfoReady66)
-	http.HandleFunc("/fdo/101/msg/68", doto2.DeviceServiceInfo68)
-	http.HandleFunc("/fdo/101/msg/70", doto2.Done70)
+	http.HandleFunc("/fdo/101/msg/62", doto2.InTurn(doto2.GetOVNextEntry62))
+	http.HandleFunc("/fdo/101/msg/64", doto2.InTurn(doto2.ProveDevice64))
+	http.HandleFunc("/fdo/101/msg/66", doto2.InTurn(doto2.DeviceServiceInfoReady66))
+	http.HandleFunc("/fdo/101/msg/68", doto2.InTurn(doto2.DeviceServiceInfo68))
+	http.HandleFunc("/fdo/101/msg/70", doto2.InTurn(doto2.Done70))
 }
diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 6ffe562..5638bbd 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -1,12 +1,14 @@
 package to2
 
 import (
+	"bytes"
 	"context"
 	"encoding/hex"
 	"encoding/json"
 	"fmt"
 	"io"
 	"net/http"
+	"strings"
 
 	"github.com/dgraph-io/badger/v4"
 
@@ -112,6 +114,41 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 	return ownerSims, nil
 }
 
+type bodyReader struct {
+	io.Reader
+	io.Closer
+}
+
+type errorReader struct {
+	err error
+}
+
+func (h errorReader) Read([]byte) (int, error) {
+	return 0, h.err
+}
+
+// InTurn makes the requests for the same device wait for each other, as each reads and later updates the session and the test entry
+func (h *DoTo2) InTurn(handler http.HandlerFunc) http.HandlerFunc {
+	return func(w http.ResponseWriter, r *http.Request) {
+		// A slow client must not make the others wait
+		bodyBytes, err := io.ReadAll(r.Body)
+		if err == nil {
+			err = io.EOF
+		}
+		r.Body = bodyReader{io.MultiReader(bytes.NewReader(bodyBytes), errorReader{err}), r.Body}
+
+		sessionId, ok := strings.CutPrefix(r.Header.Get("Authorization"), "Bearer ")
+		if ok {
+			session, err := h.session.GetSessionEntry([]byte(sessionId))
+			if err == nil {
+				defer h.listenerDB.Lock(session.Guid)()
+			}
+		}
+
+		handler(w, r)
+	}
+}
+
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index 7b4c6c2..52067e4 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -37,6 +37,7 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
+	defer h.listenerDB.Lock(helloDevice.Guid)()
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloDevice.Guid)
 
 	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index afaea3f..5df0f69 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -68,6 +68,7 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
+	defer h.listenerDB.Lock(helloRV30.Guid)()
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloRV30.Guid)
 
 	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
@@ -172,6 +173,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
+	defer h.listenerDB.Lock(session.Guid)()
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(session.Guid)
 
 	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 3bf952a..17d7389 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -215,6 +215,13 @@ func (h *ListenerTestDB) RemoveTestRun(toProtocol fdoshared.FdoToProtocol, testI
 		return fmt.Errorf("%s test entry can not be found. %s", hex.EncodeToString(testInstId), err.Error())
 	}
 
+	// Device may be running its tests
+	defer h.Lock(testInst.Guid)()
+	testInst, err = h.Get(testInstId)
+	if err != nil {
+		return fmt.Errorf("%s test entry can not be found. %s", hex.EncodeToString(testInstId), err.Error())
+	}
+
 	var chosenReqListRunner listenertestsdeps.RequestListenerRunnerInst
 	switch toProtocol {
 	case fdoshared.To0:
diff --git a/core/shared/testcom/dbs/listener.lock.go b/core/shared/testcom/dbs/listener.lock.go
new file mode 100644
index 0000000..ef6b7c2
--- /dev/null
+++ b/core/shared/testcom/dbs/listener.lock.go
@@ -0,0 +1,53 @@
+package dbs
+
+import (
+	"sync"
+
+	"github.com/dgraph-io/badger/v4"
+
+	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
+)
+
+type listenerLockId struct {
+	db   *badger.DB
+	guid fdoshared.FdoGuid
+}
+
+type listenerLock struct {
+	sync.Mutex
+	users int
+}
+
+var (
+	listenerLocks      = map[listenerLockId]*listenerLock{}
+	listenerLocksMutex sync.Mutex
+)
+
+// Lock makes requests that change the test entry of the same device wait for each other, so that none of the changes is lost.
+// The returned function ends the turn of the caller.
+func (h *ListenerTestDB) Lock(guid fdoshared.FdoGuid) func() {
+	lockId := listenerLockId{db: h.db, guid: guid}
+
+	listenerLocksMutex.Lock()
+	lock, ok := listenerLocks[lockId]
+	if !ok {
+		lock = &listenerLock{}
+		listenerLocks[lockId] = lock
+	}
+	lock.users++
+	listenerLocksMutex.Unlock()
+
+	lock.Lock()
+
+	return func() {
+		lock.Unlock()
+
+		listenerLocksMutex.Lock()
+		defer listenerLocksMutex.Unlock()
+
+		lock.users--
+		if lock.users == 0 {
+			delete(listenerLocks, lockId)
+		}
+	}
+}
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..588aa11 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -76,6 +76,75 @@ func (h *UserTestDB) Get(email string) (*UserTestDBEntry, error) {
 	return &usertEntryInst, nil
 }
 
+// Change applies a change to the stored user at once, so that no other change is lost
+func (h *UserTestDB) Change(email string, apply func(usere *UserTestDBEntry)) error {
+	userEStorageId := append(append([]byte{}, h.prefix...), []byte(strings.ToLower(email))...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(userEStorageId)
+			if err != nil {
+				return err
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return err
+			}
+
+			var usere UserTestDBEntry
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &usere)
+			if err != nil {
+				return err
+			}
+
+			apply(&usere)
+
+			usereBytes, err := fdoshared.CborCust.Marshal(usere)
+			if err != nil {
+				return err
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(userEStorageId, usereBytes))
+		})
+		if err == nil {
+			return nil
+		}
+		if !errors.Is(err, badger.ErrConflict) {
+			return errors.New("Failed changing User entry. The error is: " + err.Error())
+		}
+	}
+}
+
+// Create saves a user without tests, unless there already is one
+func (h *UserTestDB) Create(email string) error {
+	email = strings.ToLower(email)
+
+	usereBytes, err := fdoshared.CborCust.Marshal(UserTestDBEntry{Email: email})
+	if err != nil {
+		return errors.New("Failed to marshal User entry. The error is: " + err.Error())
+	}
+
+	userEStorageId := append(append([]byte{}, h.prefix...), []byte(email)...)
+
+	for {
+		err = h.db.Update(func(dbtxn *badger.Txn) error {
+			_, err := dbtxn.Get(userEStorageId)
+			if !errors.Is(err, badger.ErrKeyNotFound) {
+				return err
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(userEStorageId, usereBytes))
+		})
+		if err == nil {
+			return nil
+		}
+		if !errors.Is(err, badger.ErrConflict) {
+			return errors.New("Failed creating User entry. The error is: " + err.Error())
+		}
+	}
+}
+
 func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
-- 
2.43.0


From d5c39595bb39997ea1d624fd6c47702ceda2496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 52/61] fix: incomplete token mappings are reported instead of
 dropping the connection

---
 core/do/to2/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 5638bbd..7eb4c35 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -68,6 +68,10 @@ func (h *DoTo2) getEnvInteropSimsMapping() (map[fdoshared.FdoGuid]string, error)
 		}
 
 		for _, mapping := range envMappings {
+			if len(mapping) != 2 {
+				return nil, fmt.Errorf("expected a GUID and a token in the mapping, got %d values", len(mapping))
+			}
+
 			guidBytes, err := hex.DecodeString(mapping[0])
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 48cac4fbac04d94832a96fdbbf352d8e423a01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 53/61] fix: resetting users or listener tests deletes all and
 only their records

---
 core/shared/testcom/dbs/listener.db.go | 24 +++--------------------
 dbs/user.db.go                         | 27 +++-----------------------
 2 files changed, 6 insertions(+), 45 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 17d7389..d1eae18 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -166,27 +166,9 @@ func (h *ListenerTestDB) Delete(entryUuid []byte) error {
 }
 
 func (h *ListenerTestDB) ResetDB() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
-
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
-
-		log.Println("Deleting... " + hex.EncodeToString(k))
-
-		err := dbtxn.Delete(k)
-		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
-		}
-
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
-		}
-
+	err := h.db.DropPrefix(h.prefix, h.mapperGuidPrefix)
+	if err != nil {
+		return errors.New("Failed deleting listener entries. The error is: " + err.Error())
 	}
 
 	return nil
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 588aa11..9a5080d 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -1,10 +1,8 @@
 package dbs
 
 import (
-	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"strings"
 
 	"github.com/dgraph-io/badger/v4"
@@ -146,28 +144,9 @@ func (h *UserTestDB) Create(email string) error {
 }
 
 func (h *UserTestDB) ResetUsers() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
-
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
-		Prefix: h.prefix,
-	})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
-
-		log.Println("Deleting... " + hex.EncodeToString(k))
-
-		err := dbtxn.Delete(k)
-		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
-		}
-
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
-		}
+	err := h.db.DropPrefix(h.prefix)
+	if err != nil {
+		return errors.New("Failed deleting users. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From 70d2e184215d79e9b15a8920c98fd8cc77aff2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 54/61] fix: interop commands fail when their protocol run
 fails and do not crash on empty lists

---
 main.go | 59 ++++++++++++++++++++++++---------------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/main.go b/main.go
index e1f0049..39a3984 100644
--- a/main.go
+++ b/main.go
@@ -226,8 +226,7 @@ func main() {
 				Name: "decode_voucher",
 				Action: func(c *cli.Context) error {
 					if c.Args().Len() != 1 {
-						log.Println("Missing URL or Filename. Expected: [FDO RV Server URL] [Path to DI file]")
-						return nil
+						return fmt.Errorf("missing Filename. Expected: [Path to voucher file]")
 					}
 
 					filepath := c.Args().Get(0)
@@ -413,8 +412,7 @@ func main() {
 						UsageText: "[FDO RV Server URL] [Path to DI file]",
 						Action: func(c *cli.Context) error {
 							if c.Args().Len() != 2 {
-								log.Println("Missing URL or Filename. Expected: [FDO RV Server URL] [Path to DI file]")
-								return nil
+								return fmt.Errorf("missing URL or Filename. Expected: [FDO RV Server URL] [Path to DI file]")
 							}
 
 							url := c.Args().Get(0)
@@ -431,14 +429,12 @@ func main() {
 
 							helloRvAck31, _, err := to1inst.HelloRV30(testcom.NULL_TEST)
 							if err != nil {
-								log.Printf("Error running HelloRV30. %s", err.Error())
-								return nil
+								return fmt.Errorf("error running HelloRV30. %s", err.Error())
 							}
 
 							to1d, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 							if err != nil {
-								log.Printf("Error running ProveToRV32. %s", err.Error())
-								return nil
+								return fmt.Errorf("error running ProveToRV32. %s", err.Error())
 							}
 
 							var to1dPayload fdoshared.To1dBlobPayload
@@ -447,6 +443,10 @@ func main() {
 								return fmt.Errorf("error decoding TO1D payload! %s", err.Error())
 							}
 
+							if len(to1dPayload.To1dRV) == 0 {
+								return fmt.Errorf("TO1D payload has no addresses")
+							}
+
 							rvdns := to1dPayload.To1dRV[0].RVDNS
 							rvipd := to1dPayload.To1dRV[0].RVIP
 							rvport := to1dPayload.To1dRV[0].RVPort
@@ -473,8 +473,7 @@ func main() {
 						UsageText: "[FDO RV Server URL] [Path to DI file]",
 						Action: func(c *cli.Context) error {
 							if c.Args().Len() != 2 {
-								log.Println("Missing URL or Filename")
-								return nil
+								return fmt.Errorf("missing URL or Filename. Expected: [FDO DO Server URL] [Path to DI file]")
 							}
 
 							ctx := loadEnvCtx()
@@ -494,8 +493,7 @@ func main() {
 
 							to2proveOvhdrPayload, _, err := to2inst.HelloDevice60(testcom.NULL_TEST)
 							if err != nil {
-								log.Printf("Error running HelloDevice60. %s", err.Error())
-								return nil
+								return fmt.Errorf("error running HelloDevice60. %s", err.Error())
 							}
 
 							// 62
@@ -504,13 +502,11 @@ func main() {
 								log.Printf("Requesting GetOVNextEntry62 for entry %d \n", i)
 								nextEntry, _, err := to2inst.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
 								if err != nil {
-									log.Println(err.Error())
-									return nil
+									return err
 								}
 
 								if nextEntry.OVEntryNum != uint8(i) {
-									log.Printf("Server retured wrong entry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
-									return nil
+									return fmt.Errorf("server returned wrong entry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 								}
 
 								ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -518,8 +514,11 @@ func main() {
 
 							err = fdoshared.OVEntryArray(ovEntries).VerifyEntries(to2proveOvhdrPayload.OVHeader, to2proveOvhdrPayload.HMac)
 							if err != nil {
-								log.Println(err)
-								return nil
+								return err
+							}
+
+							if len(ovEntries) == 0 {
+								return fmt.Errorf("server has no voucher entries")
 							}
 
 							lastOvEntry := ovEntries[len(ovEntries)-1]
@@ -527,24 +526,21 @@ func main() {
 
 							err = to2inst.ProveOVHdr61PubKey.Equal(loePubKey)
 							if err != nil {
-								log.Println(err)
-								return nil
+								return err
 							}
 
 							// 64
 							log.Println("Starting ProveDevice64")
 							_, _, err = to2inst.ProveDevice64(testcom.NULL_TEST)
 							if err != nil {
-								log.Println(err)
-								return nil
+								return err
 							}
 
 							// 66
 							log.Println("Starting DeviceServiceInfoReady66")
 							_, _, err = to2inst.DeviceServiceInfoReady66(testcom.NULL_TEST)
 							if err != nil {
-								log.Println(err)
-								return nil
+								return err
 							}
 
 							// 68
@@ -563,8 +559,7 @@ func main() {
 									IsMoreServiceInfo: i+1 <= len(deviceSims),
 								}, testcom.NULL_TEST)
 								if err != nil {
-									log.Println(err)
-									return nil
+									return err
 								}
 							}
 
@@ -574,8 +569,7 @@ func main() {
 									IsMoreServiceInfo: false,
 								}, testcom.NULL_TEST)
 								if err != nil {
-									log.Println(err)
-									return nil
+									return err
 								}
 
 								ownerSims = append(ownerSims, ownerSim.ServiceInfo...)
@@ -593,8 +587,7 @@ func main() {
 							log.Println("Starting Done70")
 							_, _, err = to2inst.Done70(testcom.NULL_TEST)
 							if err != nil {
-								log.Println(err)
-								return nil
+								return err
 							}
 
 							log.Println("Success To2")
@@ -724,14 +717,12 @@ func main() {
 
 								helloAck21, _, err := to0.Hello20(testcom.NULL_TEST)
 								if err != nil {
-									log.Printf("Error running Hello20. %s", err.Error())
-									return nil
+									return fmt.Errorf("error running Hello20. %s", err.Error())
 								}
 
 								_, _, err = to0.OwnerSign22(helloAck21.NonceTO0Sign, testcom.NULL_TEST)
 								if err != nil {
-									log.Printf("Error running OwnerSign22. %s", err.Error())
-									return nil
+									return fmt.Errorf("error running OwnerSign22. %s", err.Error())
 								}
 
 								log.Println("Success TO0 " + voucherGuid.GetFormatted())
-- 
2.43.0


From bc33182e7bbe61011087138f722bee2d6aa7623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 55/61] fix: Done is refused before the service info exchange
 is completed

---
 core/do/to2/listener-to2-70-Done.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 25fef72..c5cfe6c 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -54,6 +54,11 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if !session.OwnerSIMsFinishedSending {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Service info exchange is not completed", http.StatusUnauthorized, testcomListener, fdoshared.To2)
+		return
+	}
+
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-- 
2.43.0


From e96c276ea8b2d39e200fb3f0f007b5714e500793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 56/61] fix: report a device test run that could not be removed
 as an error

---
 api/testapi/device.api.go                    | 7 ++++++-
 core/shared/testcom/listener/listenert.db.go | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index e312dc3..b7f5be4 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -325,7 +325,12 @@ func (h *DeviceTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	err = h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	if err != nil && !errors.Is(err, listenertestsdeps.ErrTestRunNotFound) {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index b1e4692..73367f2 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -1,6 +1,7 @@
 package listener
 
 import (
+	"errors"
 	"fmt"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -117,6 +118,9 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 	}
 }
 
+// ErrTestRunNotFound is returned if there is no such run to be removed
+var ErrTestRunNotFound = errors.New("Not found")
+
 func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
@@ -136,7 +140,7 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	}
 
 	if len(newList) == len(h.TestRunHistory) {
-		return fmt.Errorf("Error removing test run for %s. Not found", id)
+		return fmt.Errorf("Error removing test run for %s. %w", id, ErrTestRunNotFound)
 	}
 
 	h.TestRunHistory = newList
-- 
2.43.0


From 3f3df489cad8ea0a9e1958ce1f5e0267631accd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 57/61] fix: report test runs, results and removals that could
 not be saved as an error

---
 api/testapi/do.api.go              | 14 ++++++++++++--
 api/testapi/rv.api.go              | 17 ++++++++++++++---
 core/shared/testcom/dbs/reqt.db.go | 21 +++++++++++++++++----
 testexec/do.to2.execute.go         |  9 ++++++---
 testexec/rvt.to0.execute.go        |  9 ++++++---
 testexec/rvt.to1.execute.go        | 13 ++++++++++---
 6 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index c3f8078..42384fd 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -408,7 +408,12 @@ func (h *DOTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
@@ -460,7 +465,12 @@ func (h *DOTestMgmtAPI) Execute(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	testexec.ExecuteDOTestsTo2(*rvte, h.ReqTDB)
+	err = testexec.ExecuteDOTestsTo2(*rvte, h.ReqTDB)
+	if err != nil {
+		log.Println("Failed to save test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index fd456da..b9fb0c2 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -221,7 +221,12 @@ func (h *RVTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
@@ -274,14 +279,20 @@ func (h *RVTestMgmtAPI) Execute(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if rvte.Protocol == fdoshared.To0 {
-		testexec.ExecuteRVTestsTo0(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
+		err = testexec.ExecuteRVTestsTo0(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
 	} else if rvte.Protocol == fdoshared.To1 {
-		testexec.ExecuteRVTestsTo1(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
+		err = testexec.ExecuteRVTestsTo1(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
 	} else {
 		log.Printf("Protocol TO%d is not supported. ", rvte.Protocol)
 		commonapi.RespondError(w, "Unsupported protocol!", http.StatusBadRequest)
 		return
 	}
 
+	if err != nil {
+		log.Println("Failed to save test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
+
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index f4b05b2..6ec1283 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -21,6 +21,8 @@ type RequestTestDB struct {
 
 	// The run that results are reported to. If empty, it is the newest run
 	runId string
+	// The last error saving a result of the run
+	reportErr error
 }
 
 func NewRequestTestDB(db *badger.DB) *RequestTestDB {
@@ -161,7 +163,7 @@ func (h *RequestTestDB) change(rvteid []byte, apply func(rvte *reqtestsdeps.Requ
 }
 
 // StartNewRun adds a run to the entry, and returns the DB that reports the results to this run
-func (h *RequestTestDB) StartNewRun(rvteid []byte) *RequestTestDB {
+func (h *RequestTestDB) StartNewRun(rvteid []byte) (*RequestTestDB, error) {
 	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
 
 	runDB := *h
@@ -176,12 +178,14 @@ func (h *RequestTestDB) StartNewRun(rvteid []byte) *RequestTestDB {
 	})
 	if err != nil {
 		log.Printf("%s error starting new run. %s", hex.EncodeToString(rvteid), err.Error())
+		return nil, err
 	}
 
-	return &runDB
+	return &runDB, nil
 }
 
-func (h *RequestTestDB) FinishRun(rvteid []byte) {
+// FinishRun ends the run, and tells if the run or any of its results could not be saved
+func (h *RequestTestDB) FinishRun(rvteid []byte) error {
 	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
 		// A newer run may still be in progress
 		if h.runId == "" || h.runId == rvte.CurrentTestRun.Uuid {
@@ -193,6 +197,12 @@ func (h *RequestTestDB) FinishRun(rvteid []byte) {
 	}
 
 	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
+
+	if err == nil {
+		err = h.reportErr
+	}
+
+	return err
 }
 
 func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
@@ -220,10 +230,11 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	})
 	if err != nil {
 		log.Printf("%s error saving test result. %s", hex.EncodeToString(rvteid), err.Error())
+		h.reportErr = err
 	}
 }
 
-func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
+func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) error {
 	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
 		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
 		for _, testRunEntry := range rvte.TestsHistory {
@@ -237,4 +248,6 @@ func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
 	if err != nil {
 		log.Printf("%s error removing test run. %s", hex.EncodeToString(rvteid), err.Error())
 	}
+
+	return err
 }
diff --git a/testexec/do.to2.execute.go b/testexec/do.to2.execute.go
index 66334ed..16750aa 100644
--- a/testexec/do.to2.execute.go
+++ b/testexec/do.to2.execute.go
@@ -5,8 +5,11 @@ import (
 	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
 )
 
-func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
-	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
+func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) error {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
 
 	executeTo2_60(reqte, reqtDB)
 	executeTo2_62(reqte, reqtDB)
@@ -15,5 +18,5 @@ func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 	executeTo2_68(reqte, reqtDB)
 	executeTo2_70(reqte, reqtDB)
 
-	reqtDB.FinishRun(reqte.Uuid)
+	return reqtDB.FinishRun(reqte.Uuid)
 }
diff --git a/testexec/rvt.to0.execute.go b/testexec/rvt.to0.execute.go
index e071f24..8144085 100644
--- a/testexec/rvt.to0.execute.go
+++ b/testexec/rvt.to0.execute.go
@@ -11,8 +11,11 @@ import (
 	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
 )
 
-func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
+func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) error {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
 
 	for _, rv20test := range testcom.FIDO_TEST_LIST_RVT_20 {
 		randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -163,5 +166,5 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 		reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, *rvtTestState)
 	}
 
-	reqtDB.FinishRun(reqte.Uuid)
+	return reqtDB.FinishRun(reqte.Uuid)
 }
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 9e35549..289e4e0 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -12,9 +12,14 @@ import (
 	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
 )
 
-func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB = reqtDB.StartNewRun(reqte.Uuid)
-	defer reqtDB.FinishRun(reqte.Uuid)
+func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) (runErr error) {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		runErr = reqtDB.FinishRun(reqte.Uuid)
+	}()
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -142,4 +147,6 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From a0483760f5eebc33c2e054f6f3979b4337c9921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:12 +0000
Subject: [PATCH 58/61] fix: the to2 command gives up on an owner that is never
 done

---
 main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 39a3984..288c26e 100644
--- a/main.go
+++ b/main.go
@@ -563,7 +563,11 @@ func main() {
 								}
 							}
 
-							for {
+							for maxCounter := 255; ; maxCounter-- {
+								if maxCounter < 0 {
+									return fmt.Errorf("owner sent more than 255 SIMs")
+								}
+
 								ownerSim, _, err := to2inst.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{
 									ServiceInfo:       []fdoshared.ServiceInfoKV{},
 									IsMoreServiceInfo: false,
-- 
2.43.0


From d73b83405bb51fd39c5d2cf51feeecbe948439be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 59/61] fix: a COSE RSA key with another exponent or a longer
 modulus is not taken for the key without it

---
 core/shared/signing.cose.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 8251fe9..6804551 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -1,6 +1,7 @@
 package fdoshared
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/hex"
 	"errors"
@@ -80,6 +81,13 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 			if !ok {
 				return nil, errors.New("error converting COSE public key. Invalid RSA modulus")
 			}
+
+			// The X509 form below is of a modulus without leading zeros, and of this exponent
+			if !bytes.Equal(cosePubKey.XorE, []byte{0x01, 0x00, 0x01}) {
+				return nil, fmt.Errorf("unsupported RSA exponent: %x", cosePubKey.XorE)
+			}
+			rawPublicKey = bytes.TrimLeft(rawPublicKey, "\x00")
+
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
@@ -106,19 +114,11 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 			pkcsHeader, _ := hex.DecodeString("30820122300d06092a864886f70d01010105000382010f003082010a0282010100")
 			pkcsEXP, _ := hex.DecodeString("0203010001")
 
-			if len(rawPublicKey) > 256 {
-				rawPublicKey = rawPublicKey[1:]
-			}
-
 			return append(append(pkcsHeader, rawPublicKey...), pkcsEXP...), nil
 		} else if len(rawPublicKey) >= 512 || len(rawPublicKey) == 513 {
 			pkcsHeader, _ := hex.DecodeString("30820222300d06092a864886f70d01010105000382020f003082020a0282020100")
 			pkcsEXP, _ := hex.DecodeString("0203010001")
 
-			if len(rawPublicKey) > 512 {
-				rawPublicKey = rawPublicKey[1:]
-			}
-
 			return append(append(pkcsHeader, rawPublicKey...), pkcsEXP...), nil
 		} else {
 			return nil, fmt.Errorf("unsupported key size: %d", len(rawPublicKey))
-- 
2.43.0


From e952f3cf6d9fab48eef61c86122b9abdfeed55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 60/61] fix: an error message that quotes a header that is not
 UTF-8 can be decoded

---
 core/shared/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/shared/error.go b/core/shared/error.go
index af7afdd..bc7c167 100644
--- a/core/shared/error.go
+++ b/core/shared/error.go
@@ -3,6 +3,7 @@ package fdoshared
 import (
 	"fmt"
 	"math/rand"
+	"strings"
 	"time"
 )
 
@@ -25,7 +26,7 @@ func NewFdoError(errorCode FdoErrorCode, prevMsgId FdoCmd, messageStr string) Fd
 	return FdoError{
 		EMErrorCode: errorCode,
 		EMPrevMsgID: prevMsgId,
-		EMErrorStr:  messageStr,
+		EMErrorStr:  strings.ToValidUTF8(messageStr, "\uFFFD"), // May quote the request, e.g. its headers
 		EMErrorTs:   now.Unix(),
 		EMErrorCID:  uint(rand.Uint64()),
 	}
-- 
2.43.0


From ebb5f016269227e6ee96cc489497bc11f1ecfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 61/61] fix: an answer with a header that is not UTF-8 does not
 make the records of its server unreadable

---
 core/shared/testcom/dbs/reqt.db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 6ec1283..493abb9 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"strings"
 	"time"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -206,6 +207,9 @@ func (h *RequestTestDB) FinishRun(rvteid []byte) error {
 }
 
 func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
+	// The error may quote the server. Strings that are not UTF-8 can not be read back
+	testResult.Error = strings.ToValidUTF8(testResult.Error, "\uFFFD")
+
 	err := h.change(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
 		runId := h.runId
 		if runId == "" {
-- 
2.43.0

