From b3e267faa90a07d5a52436ec163e9a5f4c010568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 01/64] fix: keydb: store additional message keys under their
 own session

AddSession used LastInsertId after the UPDATE of an existing session, so the
additional message keys ended up under an unrelated (or no) session ID and
every message after the precomputed keys failed.
---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..409f6c8 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get ID of new session
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get ID of existing session (an UPDATE does not set LastInsertId)
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From 5f4b869d363c1fc99b38680ce38563785be992a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/64] fix: msg: update session state before releasing an
 encrypted message

Encrypt wrote the message, deleted the message key and only then increased the
message count. An error or crash after deleting the key left a session state
that refers to the deleted key, so no further message could be encrypted; one
before deleting it led to the reuse of the key.
---
 msg/encrypt.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/msg/encrypt.go b/msg/encrypt.go
index ed95615..798ac0a 100644
--- a/msg/encrypt.go
+++ b/msg/encrypt.go
@@ -415,27 +415,32 @@ func Encrypt(args *EncryptArgs) (nymAddress string, err error) {
 	}
 	count++
 
-	// write output
+	// finish output
 	wc.Close()
 	if out.Len() != EncodedMsgSize {
 		return "", log.Errorf("out.Len() = %d != %d = EncodedMsgSize)",
 			out.Len(), EncodedMsgSize)
 	}
-	if _, err := io.Copy(args.Writer, &out); err != nil {
-		return "", log.Error(err)
-	}
 
-	// delete message key
-	err = args.KeyStore.DelMessageKey(sessionKey, true, ss.SenderMessageCount)
+	// increase SenderMessageCount before the message is released and the key
+	// deleted: an interruption must neither lead to the reuse of a message key
+	// nor leave us with a session state that refers to a deleted key
+	messageCount := ss.SenderMessageCount
+	ss.SenderMessageCount++
+	err = args.KeyStore.SetSessionState(sessionStateKey, ss)
 	if err != nil {
 		return "", err
 	}
-	// increase SenderMessageCount
-	ss.SenderMessageCount++
-	err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+	// delete message key
+	err = args.KeyStore.DelMessageKey(sessionKey, true, messageCount)
 	if err != nil {
 		return "", err
 	}
 
+	// write output
+	if _, err := io.Copy(args.Writer, &out); err != nil {
+		return "", log.Error(err)
+	}
+
 	return
 }
-- 
2.43.0


From dc0aea3eff721dc9c5ace81b4c315ba25abf524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 03/64] fix: msg: make interrupted decryptions repeatable

An error or crash between storing a session and storing the session state made
Decrypt dereference a nil session state on redelivery, lose the next session
(the state announced a session key whose root key agreement never happened) or
append the same message keys twice.
---
 msg/decrypt.go | 52 +++++++++++++++++++++++++++++++-------------------
 msg/session.go | 30 +++++++++++++++++++----------
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..8ed0579 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -169,19 +169,24 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	sessionKey := session.CalcKey(recipientID.HASH, h.SenderIdentityPub.HASH,
 		h.RecipientTempHash, h.SenderSessionPub.HASH)
 
-	if !args.KeyStore.HasSession(sessionKey) { // session unknown
+	hasSession := args.KeyStore.HasSession(sessionKey)
+	// ss == nil for a known session means that a previous decryption was
+	// interrupted before it could set the session state
+	if !hasSession || ss == nil { // session unknown
 		// try to start session from KeyInit message
 		recipientKI, err := args.KeyStore.GetPrivateKeyEntry(h.RecipientTempHash)
 		if err != nil && err != session.ErrNoKeyEntry {
 			return "", "", err
 		}
 		if err != session.ErrNoKeyEntry { // KeyInit message found
-			// root key agreement
-			err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
-				&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
-				nil, args.NumOfKeys, args.KeyStore)
-			if err != nil {
-				return "", "", err
+			if !hasSession {
+				// root key agreement
+				err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
+					&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
+					nil, args.NumOfKeys, args.KeyStore)
+				if err != nil {
+					return "", "", err
+				}
 			}
 
 			// TODO: delete single-use KeyInit message
@@ -251,8 +256,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 				// ours immediately
 				if ss.NextSenderSessionPub == nil {
 					// prepare upcoming session, but do not switch to it yet
-					nextSenderSession, err := setNextSenderSessionPub(args.KeyStore, ss,
-						sessionStateKey, args.Rand)
+					nextSenderSession, err := newSessionKey(args.KeyStore, args.Rand)
 					if err != nil {
 						return "", "", err
 					}
@@ -268,13 +272,15 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					if err != nil {
 						return "", "", err
 					}
+					// update session state, after the session has been stored
+					ss.NextSenderSessionPub = nextSenderSession
 					if ss.NextRecipientSessionPubSeen == nil {
 						// save h.NextSenderSessionPub, if necessary
 						ss.NextRecipientSessionPubSeen = h.NextSenderSessionPub
-						err := args.KeyStore.SetSessionState(sessionStateKey, ss)
-						if err != nil {
-							return "", "", err
-						}
+					}
+					err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+					if err != nil {
+						return "", "", err
 					}
 				} else if h.NextRecipientSessionPubSeen != nil &&
 					h.NextRecipientSessionPubSeen.HASH == ss.NextSenderSessionPub.HASH {
@@ -288,13 +294,19 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					if err != nil {
 						return "", "", err
 					}
-					// root key agreement
-					err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
-						recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
-						nextSenderSession, recipientID, previousRootKeyHash,
-						args.NumOfKeys, args.KeyStore)
-					if err != nil {
-						return "", "", err
+					// root key agreement (the session is already there if a
+					// previous switch has been interrupted)
+					nextSessionKey := session.CalcKey(recipientID.HASH,
+						h.SenderIdentityPub.HASH, nextSenderSession.HASH,
+						h.NextSenderSessionPub.HASH)
+					if !args.KeyStore.HasSession(nextSessionKey) {
+						err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
+							recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
+							nextSenderSession, recipientID, previousRootKeyHash,
+							args.NumOfKeys, args.KeyStore)
+						if err != nil {
+							return "", "", err
+						}
 					}
 					// store new session state
 					ss = &session.State{
diff --git a/msg/session.go b/msg/session.go
index 29316db..9e84877 100644
--- a/msg/session.go
+++ b/msg/session.go
@@ -34,26 +34,36 @@ func getSessionKey(ss session.Store, hash string) (*uid.KeyEntry, error) {
 	return ke, err
 }
 
+// newSessionKey creates and stores a new session key.
+func newSessionKey(keyStore session.Store, rand io.Reader) (*uid.KeyEntry, error) {
+	// create session key
+	var sessionKey uid.KeyEntry
+	if err := sessionKey.InitDHKey(rand); err != nil {
+		return nil, err
+	}
+	// store session key
+	if err := addSessionKey(keyStore, &sessionKey); err != nil {
+		return nil, err
+	}
+	return &sessionKey, nil
+}
+
 func setNextSenderSessionPub(
 	keyStore session.Store,
 	sessionState *session.State,
 	sessionStateKey string,
 	rand io.Reader,
 ) (*uid.KeyEntry, error) {
-	// create next session key
-	var nextSenderSession uid.KeyEntry
-	if err := nextSenderSession.InitDHKey(rand); err != nil {
-		return nil, err
-	}
-	// store next session key
-	if err := addSessionKey(keyStore, &nextSenderSession); err != nil {
+	// create and store next session key
+	nextSenderSession, err := newSessionKey(keyStore, rand)
+	if err != nil {
 		return nil, err
 	}
 	// update session state
-	sessionState.NextSenderSessionPub = &nextSenderSession
-	err := keyStore.SetSessionState(sessionStateKey, sessionState)
+	sessionState.NextSenderSessionPub = nextSenderSession
+	err = keyStore.SetSessionState(sessionStateKey, sessionState)
 	if err != nil {
 		return nil, err
 	}
-	return &nextSenderSession, nil
+	return nextSenderSession, nil
 }
-- 
2.43.0


From fc18408f56fce1799fcb353100b3b3cad35e06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 04/64] fix: msg: generate only the missing message keys when
 decrypting

The limit on generated keys was applied to the absolute message count, so a
long one-way stretch of messages in one session became undecryptable.
---
 msg/decrypt.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 8ed0579..fc6c640 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -370,15 +370,12 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", err
 		}
 		// prevent denial of service attack by very large h.SenderMessageCount
-		numOfKeys := h.SenderMessageCount / args.NumOfKeys
-		if h.SenderMessageCount%args.NumOfKeys > 0 {
-			numOfKeys++
-		}
-		numOfKeys *= args.NumOfKeys
-		if numOfKeys > mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
+		missing := h.SenderMessageCount - n
+		if missing > mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
 			return "", "",
 				log.Errorf("msg: requested number of message keys too large")
 		}
+		numOfKeys := (missing/args.NumOfKeys + 1) * args.NumOfKeys
 		log.Debugf("numOfKeys=%d", numOfKeys)
 		var recipientPub *[32]byte
 		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
-- 
2.43.0


From 8fe0cbac4bb8b57af8719be09d9acb2a67258574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 05/64] fix: walletauth: accept errors shorter than the replay
 prefix

---
 serviceguard/common/walletauth/walletauth.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..8ad2c4e 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,7 +81,7 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
 		LastCounter, err := strconv.ParseInt(counter, 10, 64)
 		if err == nil {
-- 
2.43.0


From be4351f270bc0aba353eb4f20444d728cba2975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 06/64] fix: serviceguard client: do not panic on malformed RPC
 replies

---
 serviceguard/client/guardrpc/client.go  | 20 ++++++++++----------
 serviceguard/client/keylookup/impl.go   | 10 +++++-----
 serviceguard/client/walletrpc/client.go |  3 +++
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..4586ed3 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,8 +74,8 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -97,8 +97,8 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -120,8 +120,8 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
-		return data["Status"].(bool), nil
+	if status, ok := data["Status"].(bool); ok {
+		return status, nil
 	}
 	return false, ErrParams
 }
@@ -139,10 +139,10 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
@@ -176,10 +176,10 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..1eda8c9 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -75,8 +75,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -119,13 +119,13 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	if _, ok := data["PublicKey"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	if _, ok := data["Signature"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	if _, ok := data["KeyList"].(string); !ok {
 		return nil, ErrParams
 	}
 	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..71c503c 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -162,6 +162,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if _, ok := data["Params"].(string); !ok {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From 783bcb5a46b17afb647c6642141213e4e1f94c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 07/64] fix: keylookup: reject keys other than the requested
 one

---
 serviceguard/client/keylookup/impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 1eda8c9..a9dc5f9 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -61,6 +61,9 @@ func (klc LookupClient) GetKey(keyid *[signkeys.KeyIDSize]byte) (*signkeys.Publi
 	if err != nil {
 		return nil, err
 	}
+	if loadKey.KeyID != *keyid {
+		return nil, ErrParams
+	}
 	return loadKey, nil
 }
 
-- 
2.43.0


From 9e80bb5bb42f15f366ebe3d6cfbe54d77efb3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 08/64] fix: keypool: take the write lock when a lookup may add
 a key

---
 serviceguard/common/keypool/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..30eb7c9 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -102,8 +102,9 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	// a fetched key is added to the pool
+	kp.mapMutex.Lock()
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
-- 
2.43.0


From a0dd6b9316ff295a20ef1ff7d60ac04d88c95765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 09/64] fix: keypool: renew the current key when it has half
 expired

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 30eb7c9..b32af0d 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -165,7 +165,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From 4cf1bfe7bf0d784377578ceb9feebf6760b88a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 10/64] fix: keypool/keydb: report errors of storing a key

---
 serviceguard/common/keypool/keydb/dbstorage.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..68242fb 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -130,7 +130,11 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
+		if err != nil {
+			// the key may have been stored before
+			if _, ferr := kd.Fetch(keyid); ferr == nil {
+				return nil
+			}
 			return err
 		}
 		return nil
@@ -167,6 +171,7 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 		if err != nil {
 			return err
 		}
+		defer rows.Close()
 		for rows.Next() {
 			var KeyData string
 			err := rows.Scan(&KeyData)
@@ -183,6 +188,6 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-		return nil
+		return rows.Err()
 	}
 }
-- 
2.43.0


From c07b17618fa395734b2e58aa3eba2be56e565eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 11/64] fix: walletstore: restore the cached auth token and
 verification keys

---
 serviceguard/client/walletstore/store.go | 30 ++++++++++--------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..8893e9c 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -321,10 +321,13 @@ func (ws *Storage) writeCache() error {
 
 // readCache reads the cache from the database
 func (ws *Storage) readCache() {
-	var data string
+	var hash, data string
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	if ws.cache != nil {
+		return
+	}
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data)
 	if err != nil {
 		return
 	}
@@ -337,6 +340,7 @@ func (ws *Storage) readCache() {
 
 // SetVerifyKeys saves verification keys
 func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
+	ws.readCache()
 	ws.cacheMutex.Lock()
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
@@ -348,24 +352,18 @@ func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 
 // GetVerifyKeys loads verification keys
 func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
+	ws.readCache()
 	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
-	if ws.cache.VerifyKeys == nil {
-		ws.cache.VerifyKeys = make([][ed25519.PublicKeySize]byte, 0)
-	}
 	defer ws.cacheMutex.RUnlock()
+	if ws.cache == nil || ws.cache.VerifyKeys == nil {
+		return make([][ed25519.PublicKeySize]byte, 0)
+	}
 	return ws.cache.VerifyKeys
 }
 
 // SetAuthToken stores an authtoken and tries
 func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
+	ws.readCache()
 	ws.cacheMutex.Lock()
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
@@ -378,12 +376,8 @@ func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 
 // GetAuthToken gets authtoken from store
 func (ws *Storage) GetAuthToken() (authToken []byte, tries int) {
+	ws.readCache()
 	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
 	defer ws.cacheMutex.RUnlock()
 	if ws.cache == nil {
 		return nil, 0
-- 
2.43.0


From e640d37eb4f0fff6ce47028fb22974d5c2669c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 12/64] fix: walletstore: lock only the requested token and
 only once

---
 serviceguard/client/walletstore/store.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 8893e9c..a657e78 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -54,7 +54,7 @@ CREATE TABLE IF NOT EXISTS walletState (
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
 	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
-	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0 OR LockID=?;"
+	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
 	deleteTokenQuery    = "DELETE FROM walletTokens WHERE Hash=?;"
 	deleteStateQuery    = "DELETE FROM walletState WHERE Hash=?;"
@@ -279,7 +279,7 @@ func (ws *Storage) DelToken(tokenHash []byte) {
 func getLockID() int64 {
 	mathrand.Seed(times.NowNano())
 	lockID := mathrand.Int31()
-	return int64(lockID)
+	return int64(lockID) + 1 // never 0
 }
 
 // LockToken locks token against other use. Return lockID > 0 on success, <0 on failure
@@ -288,7 +288,7 @@ func (ws *Storage) LockToken(tokenHash []byte) int64 {
 	tokenHashS := hex.EncodeToString(tokenHash)
 	lockTime := times.Now()
 
-	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS, lockID)
+	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS)
 	if err != nil || res == nil {
 		return -1
 	}
@@ -419,7 +419,11 @@ func (ws *Storage) getAndLockToken(usage string, owner *[ed25519.PublicKeySize]b
 	if lockID <= 0 {
 		return nil, client.ErrLocked
 	}
-	return ws.GetToken(tokenHash, lockID)
+	token, err := ws.GetToken(tokenHash, lockID)
+	if err != nil && err != client.ErrLocked {
+		ws.UnlockToken(tokenHash)
+	}
+	return token, err
 }
 
 // FindToken finds a token owned by self that has usage set
-- 
2.43.0


From a6d56048f74d569e8c35e1b3e43d210776309533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 13/64] fix: walletstore: write tokens and their state
 atomically

---
 serviceguard/client/walletstore.go            |  1 +
 .../client/walletstore/nilstore/nilstore.go   |  5 ++
 serviceguard/client/walletstore/store.go      | 57 +++++++++++++++++--
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/serviceguard/client/walletstore.go b/serviceguard/client/walletstore.go
index 36877df..62b0f1a 100644
--- a/serviceguard/client/walletstore.go
+++ b/serviceguard/client/walletstore.go
@@ -16,6 +16,7 @@ type WalletStore interface {
 	GetToken(tokenHash []byte, lockID int64) (*TokenEntry, error)                          // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
 	GetAndLockToken(usage string, owner *[ed25519.PublicKeySize]byte) (*TokenEntry, error) // Return a token matching usage and optional owner. Must return ErrNoToken if no token is in store
 	FindToken(usage string) (*TokenEntry, error)                                           // Find a token owner by self that has usage set
+	ReplaceToken(tokenHash []byte, tokenEntry TokenEntry) error                            // ReplaceToken atomically replaces the token identified by tokenHash with tokenEntry
 	DelToken(tokenHash []byte)                                                             // DelToken deletes the token identified by tokenHash
 	LockToken(tokenHash []byte) (LockID int64)                                             // Lock token against other use. Return lockID > 0 on success, <0 on failure
 	UnlockToken(tokenHash []byte)                                                          // Unlock a locked token
diff --git a/serviceguard/client/walletstore/nilstore/nilstore.go b/serviceguard/client/walletstore/nilstore/nilstore.go
index 5892435..f4fd2ae 100644
--- a/serviceguard/client/walletstore/nilstore/nilstore.go
+++ b/serviceguard/client/walletstore/nilstore/nilstore.go
@@ -57,6 +57,11 @@ func (ns *NilStore) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
 	return ns.VerifyKeys
 }
 
+// ReplaceToken without persistence.
+func (ns *NilStore) ReplaceToken(tokenHash []byte, tokenEntry client.TokenEntry) error {
+	return ns.SetToken(tokenEntry)
+}
+
 // DelToken without function.
 func (ns *NilStore) DelToken(tokenHash []byte) {}
 
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index a657e78..970d5a9 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -216,24 +216,46 @@ func (ws *Storage) CleanLocks(force bool) {
 
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	if err := ws.setToken(tx, tokenEntry); err != nil {
+		tx.Rollback()
+		return err
+	}
+	return tx.Commit()
+}
+
+// setToken writes a token and its state in transaction tx
+func (ws *Storage) setToken(tx *sql.Tx, tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	_, err := tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		_, uerr := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
-		if err != nil {
-			return err
+		if uerr != nil {
+			return uerr
+		}
+		rows, uerr := tx.Stmt(ws.getTokenQuery).Query(global.Hash)
+		if uerr != nil {
+			return uerr
+		}
+		present := rows.Next()
+		rows.Close()
+		if !present {
+			return err // neither inserted nor updated
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
+		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
 		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
+			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
 			if err != nil {
 				return err
 			}
@@ -242,6 +264,29 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	return nil
 }
 
+// ReplaceToken atomically replaces the token identified by tokenHash with
+// tokenEntry
+func (ws *Storage) ReplaceToken(tokenHash []byte, tokenEntry client.TokenEntry) error {
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	tokenHashS := hex.EncodeToString(tokenHash)
+	if _, err := tx.Stmt(ws.deleteTokenQuery).Exec(tokenHashS); err != nil {
+		tx.Rollback()
+		return err
+	}
+	if _, err := tx.Stmt(ws.deleteStateQuery).Exec(tokenHashS); err != nil {
+		tx.Rollback()
+		return err
+	}
+	if err := ws.setToken(tx, tokenEntry); err != nil {
+		tx.Rollback()
+		return err
+	}
+	return tx.Commit()
+}
+
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
 func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.TokenEntry, err error) {
 	var state, tmp string
-- 
2.43.0


From ec83a2b99ea3a53a7aa9f513c6cc676447c8b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 14/64] fix: serviceguard client: never lose a token in a
 reissue

The old token was deleted before the new one was verified and stored, a
failed lock was not noticed, unusable parameters were kept, and reissuing to
an own key dereferenced nil.
---
 serviceguard/client/packetproto/methods.go | 10 +++++++++-
 serviceguard/client/reissue.go             | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..4865d18 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -23,6 +23,8 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadSignature signals that the signature of an issued token is bad
+	ErrBadSignature = errors.New("client: bad token signature")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
@@ -147,15 +149,21 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..121f30d 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
@@ -74,12 +74,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				}
 				return nil, ErrRetry
 			}
-			tokenEntry.Params = params
-			err = c.walletStore.SetToken(*tokenEntry)
-			if err != nil {
-				c.LastError = err
-				return nil, ErrFatal
-			}
+			tokenEntry.Params = params // stored below, if they are usable
 		}
 		// Generate new owner if no owner is specified
 		if ownerPubkey == nil {
@@ -88,6 +83,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
@@ -123,7 +120,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -135,7 +131,11 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
-	c.packetClient.Keypool.SaveKey(*keyid)
+	err = c.packetClient.Keypool.SaveKey(*keyid)
+	if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
+	}
 	// Unblind the new token
 	blindingFactors, err := new(types.ReissuePacketPrivate).Unmarshal(tokenEntry.BlindingFactors)
 	if err != nil {
@@ -147,7 +147,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
-	// Write it to database
+	// Write it to database, the old token is invalid from here
 	tokenUnmarshalled, err = token.Unmarshal(newToken)
 	if err != nil {
 		c.LastError = err
@@ -170,7 +170,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		Usage:        signerPubKey.Usage,
 		Expire:       signerPubKey.Expire,
 	}
-	err = c.walletStore.SetToken(tokenentryNew)
+	err = c.walletStore.ReplaceToken(tokenEntry.Hash, tokenentryNew)
 	if err != nil {
 		c.LastError = err
 		return nil, ErrFatal
-- 
2.43.0


From 68fcd7716d267431992f1fd0e03e09dc0bd1cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 15/64] fix: serviceguard client: never lose a token in a
 wallet call

The authtoken was saved too late and forgotten too early: a crash or error
between the call and storing its token debited the account for nothing.
Parallel calls and calls for another usage could share an authtoken, and an
authtoken refused as replayed was presented again.
---
 serviceguard/client/clientlib.go              |  1 +
 serviceguard/client/walletrpc/client.go       | 14 +++++--
 serviceguard/client/walletserver.go           | 42 +++++++++++++++----
 serviceguard/client/walletstore.go            |  1 +
 .../client/walletstore/nilstore/nilstore.go   |  8 ++++
 serviceguard/client/walletstore/store.go      | 32 ++++++++++++++
 6 files changed, 85 insertions(+), 13 deletions(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..fca4148 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -54,6 +54,7 @@ type Client struct {
 	cacert        []byte
 	walletStore   WalletStore
 	walletRPC     *walletrpc.WalletClient
+	walletLock    sync.Mutex // serializes fetching tokens from the walletserver
 	packetClient  *packetproto.Client
 	LastError     error
 	runnerRunning bool
diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 71c503c..1e7618e 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -34,6 +34,7 @@ type WalletClient struct {
 	PrivKey         *[ed25519.PrivateKeySize]byte // Private key of PrivKey
 	LastAuthCounter uint64                        // Last authentication counter
 	LastAuthToken   []byte                        // Last authtoken used, required for call caching
+	SaveAuthToken   func(authToken []byte) error  // If set, called with every new authtoken before GetToken uses it
 }
 
 // New returns a new walletservice  client
@@ -59,12 +60,12 @@ CallLoop:
 		SubscriptionTokens, PrepayTokens, LastSubscribeLoad, lastcounter, err = wc.getBalance(authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // never accepted again
 			if i > 0 {
 				i--
 				continue CallLoop
 			}
-		}
-		if err != nil {
+		} else if err != nil {
 			wc.LastAuthToken = authtoken
 		}
 		break CallLoop
@@ -121,16 +122,21 @@ CallLoop:
 		authtoken := wc.LastAuthToken
 		if authtoken == nil {
 			authtoken = walletauth.CreateToken(wc.PubKey, wc.PrivKey, lastcounter+1)
+			if wc.SaveAuthToken != nil {
+				if err := wc.SaveAuthToken(authtoken); err != nil {
+					return nil, nil, nil, err
+				}
+			}
 		}
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // never accepted again
 			if i > 0 {
 				i--
 				continue CallLoop
 			}
-		}
-		if err != nil {
+		} else if err != nil {
 			wc.LastAuthToken = authtoken
 		}
 		break CallLoop
diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..ac79de3 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -18,6 +18,26 @@ import (
 // If the token is a subscription-token and owner is not present, it
 // is stored and a "NeedReissue" error is returned.
 func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (tokenHash []byte, err error) {
+	tokenentry, err := c.fetchWalletToken(usage)
+	if err != nil {
+		return nil, err
+	}
+	if tokenentry.Usage != usage {
+		// an interrupted call for another usage was completed
+		return nil, ErrRetry
+	}
+	if owner == nil && tokenentry.Renewable == false {
+		return tokenentry.Hash, ErrNeedReissue
+	}
+	// Reissue
+	return c.ReissueToken(tokenentry.Hash, owner)
+}
+
+// fetchWalletToken gets a token from wallet and stores it.
+func (c *Client) fetchWalletToken(usage string) (*TokenEntry, error) {
+	// parallel calls must not share an authtoken
+	c.walletLock.Lock()
+	defer c.walletLock.Unlock()
 	newToken, params, pubkeyUsed, err := c.getTokenFromWallet(usage)
 	if err != nil {
 		return nil, err
@@ -39,7 +59,11 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
-	c.packetClient.Keypool.SaveKey(*keyid)
+	err = c.packetClient.Keypool.SaveKey(*keyid)
+	if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
+	}
 	// If we have params this is not renewable
 	renewable := false
 	if params == nil || len(params) == 0 {
@@ -69,16 +93,12 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		Usage:        signerPubKey.Usage,
 		Expire:       signerPubKey.Expire,
 	}
-	err = c.walletStore.SetToken(tokenentry) // Cache current state
+	err = c.walletStore.SetWalletToken(tokenentry) // Cache current state, the authtoken is used up
 	if err != nil {
 		c.LastError = err
 		return nil, ErrFatal
 	}
-	if owner == nil && renewable == false {
-		return tokenentry.Hash, ErrNeedReissue
-	}
-	// Reissue
-	return c.ReissueToken(tokenentry.Hash, owner)
+	return &tokenentry, nil
 }
 
 // getTokenFromWallet gets a single token for usage from Wallet.
@@ -100,12 +120,18 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		c.walletRPC.LastAuthToken = nil
 		tries = 0
 	}
+	// a new authtoken must survive until the token is stored
+	c.walletRPC.SaveAuthToken = func(authToken []byte) error {
+		tries = 0
+		return c.walletStore.SetAuthToken(authToken, tries)
+	}
 	newToken, params, pubkeyUsed, err := c.walletRPC.GetToken(usage)
 	if err != nil {
 		c.LastError = err
 		_, fatal, err := lookupError(err)
 		if fatal {
 			c.LastError = err
+			c.walletStore.SetAuthToken(nil, 0) // nothing was issued
 			return nil, nil, nil, ErrFinal
 		}
 		// cache walletClient.LastAuthToken
@@ -116,7 +142,5 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		}
 		return nil, nil, nil, ErrRetry
 	}
-	// Reset authtoken cache
-	c.walletStore.SetAuthToken(nil, 0)
 	return newToken, params, pubkeyUsed, nil
 }
diff --git a/serviceguard/client/walletstore.go b/serviceguard/client/walletstore.go
index 62b0f1a..98dfaae 100644
--- a/serviceguard/client/walletstore.go
+++ b/serviceguard/client/walletstore.go
@@ -13,6 +13,7 @@ type WalletStore interface {
 	SetAuthToken(authToken []byte, tries int) error                                        // Store an authtoken and tries
 	GetAuthToken() (authToken []byte, tries int)                                           // Get authtoken from store
 	SetToken(tokenEntry TokenEntry) error                                                  // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
+	SetWalletToken(tokenEntry TokenEntry) error                                            // SetWalletToken is SetToken for a token from the walletserver, it also forgets the authtoken
 	GetToken(tokenHash []byte, lockID int64) (*TokenEntry, error)                          // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
 	GetAndLockToken(usage string, owner *[ed25519.PublicKeySize]byte) (*TokenEntry, error) // Return a token matching usage and optional owner. Must return ErrNoToken if no token is in store
 	FindToken(usage string) (*TokenEntry, error)                                           // Find a token owner by self that has usage set
diff --git a/serviceguard/client/walletstore/nilstore/nilstore.go b/serviceguard/client/walletstore/nilstore/nilstore.go
index f4fd2ae..fc87545 100644
--- a/serviceguard/client/walletstore/nilstore/nilstore.go
+++ b/serviceguard/client/walletstore/nilstore/nilstore.go
@@ -57,6 +57,14 @@ func (ns *NilStore) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
 	return ns.VerifyKeys
 }
 
+// SetWalletToken without persistence.
+func (ns *NilStore) SetWalletToken(tokenEntry client.TokenEntry) error {
+	if err := ns.SetToken(tokenEntry); err != nil {
+		return err
+	}
+	return ns.SetAuthToken(nil, 0)
+}
+
 // ReplaceToken without persistence.
 func (ns *NilStore) ReplaceToken(tokenHash []byte, tokenEntry client.TokenEntry) error {
 	return ns.SetToken(tokenEntry)
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 970d5a9..2df02a6 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -227,6 +227,38 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	return tx.Commit()
 }
 
+// SetWalletToken writes a token received from the walletserver and atomically
+// forgets the authtoken it was received with
+func (ws *Storage) SetWalletToken(tokenEntry client.TokenEntry) error {
+	ws.readCache()
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	cache := new(CacheData)
+	if ws.cache != nil {
+		cache.VerifyKeys = ws.cache.VerifyKeys
+	}
+	data := cache.Marshal()
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	if err := ws.setToken(tx, tokenEntry); err != nil {
+		tx.Rollback()
+		return err
+	}
+	if _, err := tx.Stmt(ws.setStateQuery).Exec("CONFIGCACHE", data); err != nil {
+		if _, err := tx.Stmt(ws.setStateUpdateQuery).Exec(data, "CONFIGCACHE"); err != nil {
+			tx.Rollback()
+			return err
+		}
+	}
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+	ws.cache = cache
+	return nil
+}
+
 // setToken writes a token and its state in transaction tx
 func (ws *Storage) setToken(tx *sql.Tx, tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-- 
2.43.0


From b0409544e35e33393529bd9f1de11af7bcf37db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 16/64] fix: serviceguard client: report failures of getting a
 token and resume reissues

---
 serviceguard/client/clientlib.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index fca4148..8c88b67 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -77,7 +77,7 @@ func New(keyBackends []types.Backend, walletstore WalletStore, walletKey *[ed255
 	c.walletStore = walletstore
 	c.cacert = cacert
 	c.walletKey = walletKey
-	c.stopChan = make(chan bool)
+	c.stopChan = make(chan bool, 1)
 	pubkey, privkey := splitKey(c.walletKey)
 	c.walletRPC = walletrpc.New(pubkey, privkey, c.cacert)
 	return c, nil
@@ -172,6 +172,15 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 		if owner == nil { // We can only get new tokens if we know the recipient
 			return nil, ErrNeedReissue
 		}
+		// Finish an interrupted reissue, it may yield the token we need
+		if reissueTokenHash := c.walletStore.GetInReissue(); reissueTokenHash != nil {
+			if _, err := c.ReissueToken(reissueTokenHash, nil); err == nil {
+				retToken, err := c.walletStore.GetAndLockToken(usage, owner)
+				if err == nil {
+					return retToken, nil
+				}
+			}
+		}
 		// First, check if we have a token that can be repossessed
 		tokenReissue, err := c.walletStore.FindToken(usage)
 		if err != nil {
@@ -196,8 +205,12 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 		retToken, err = c.walletStore.GetToken(tokenHash, lockID)
 		if err != nil {
 			c.LastError = err
+			c.UnlockToken(tokenHash)
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From 6694bd751b77cfaf7c9eaf575ac662dca88598d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 17/64] fix: serviceguard client: check owner and storage when
 receiving a token

---
 serviceguard/client/receive.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..d7bbe77 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,13 +16,16 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
 	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
+		if err := c.walletStore.SetToken(*tokenEntry); err != nil {
+			c.LastError = err
+			return ErrFatal
+		}
 		return nil
 	}
 	c.LastError = ErrTokenKnown
-- 
2.43.0


From 2270f752e7cf195ed0121c14c2d2d8de4b3cb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 18/64] fix: serviceguard client: stop the runner when asked
 and back off on errors

---
 serviceguard/client/runner.go | 46 ++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 911eb5f..6703875 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -5,7 +5,6 @@
 package client
 
 import (
-	"runtime"
 	"time"
 )
 
@@ -21,22 +20,41 @@ func (c *Client) Runner() {
 
 // StopRunner stops the runner. Should be called non-blocking (go StopRunner()).
 func (c *Client) StopRunner() {
-	c.stopChan <- true
+	runnerLock.Lock()
+	defer runnerLock.Unlock()
+	if !c.runnerRunning {
+		return
+	}
+	select {
+	case c.stopChan <- true:
+	default: // already told to stop
+	}
 }
 
 func (c *Client) runner() {
 	// Prevent double-start
 	runnerLock.Lock()
 	if c.runnerRunning {
+		runnerLock.Unlock()
 		return
 	}
 	c.runnerRunning = true
 	runnerLock.Unlock()
+	defer func() {
+		runnerLock.Lock()
+		defer runnerLock.Unlock()
+		c.runnerRunning = false
+		select {
+		case <-c.stopChan: // told to stop again
+		default:
+		}
+	}()
 	for {
 		var actionCount int
-		if len(c.stopChan) > 0 {
-			<-c.stopChan
-			runtime.Goexit()
+		select {
+		case <-c.stopChan:
+			return
+		default:
 		}
 		onlineGroup.Add(1)
 		// Delete some expired tokens
@@ -46,16 +64,18 @@ func (c *Client) runner() {
 		// Finish expired reissues
 		reissueTokenHash := c.walletStore.GetInReissue()
 		if reissueTokenHash != nil {
-			c.ReissueToken(reissueTokenHash, nil) // Continue reissue on token
-			actionCount++
+			if _, err := c.ReissueToken(reissueTokenHash, nil); err == nil { // Continue reissue on token
+				actionCount++
+			}
 		}
 		// Update an expiring token
 		reissueTokenHash = c.walletStore.GetExpire()
 		if reissueTokenHash != nil {
 			tokenData, err := c.walletStore.GetToken(reissueTokenHash, -1)
 			if err == nil {
-				c.ReissueToken(tokenData.Hash, nil) // Reissue token to new target
-				actionCount++
+				if _, err := c.ReissueToken(tokenData.Hash, nil); err == nil { // Reissue token to new target
+					actionCount++
+				}
 			}
 		}
 		// Meet targets
@@ -64,7 +84,11 @@ func (c *Client) runner() {
 		}
 		onlineGroup.Done()
 		if actionCount == 0 {
-			time.Sleep(time.Second * 3)
+			select {
+			case <-c.stopChan:
+				return
+			case <-time.After(time.Second * 3):
+			}
 		}
 	}
 }
@@ -101,7 +125,7 @@ LoadLoop:
 			c.target[owner] = target
 		}
 		// Never care about more than one owner
-		return true
+		return err == nil
 	}
 	return false
 }
-- 
2.43.0


From 78c16d79fe57b580e49cdd71e19ab0d2fb78291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 19/64] fix: walletstore: do not take a failed insert of a
 state for an update

---
 serviceguard/client/walletstore/store.go | 43 +++++++++++-------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 2df02a6..762b358 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -52,7 +52,6 @@ CREATE TABLE IF NOT EXISTS walletState (
 						CanReissue, UsageStr, Expire, OwnedSelf, HasParams, HasState
 						FROM walletTokens WHERE Hash=?;`
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
-	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
 	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
@@ -82,7 +81,6 @@ type Storage struct {
 	setTokenQuery       *sql.Stmt
 	setTokenUpdateQuery *sql.Stmt
 	setStateQuery       *sql.Stmt
-	setStateUpdateQuery *sql.Stmt
 	lockQuery           *sql.Stmt
 	cleanLocksQuery     *sql.Stmt
 	unlockQuery         *sql.Stmt
@@ -150,9 +148,6 @@ func (ws *Storage) initDB() (err error) {
 	if ws.setStateQuery, err = ws.DB.Prepare(setStateQuery); err != nil {
 		return err
 	}
-	if ws.setStateUpdateQuery, err = ws.DB.Prepare(setStateUpdateQuery); err != nil {
-		return err
-	}
 	if ws.lockQuery, err = ws.DB.Prepare(lockQuery); err != nil {
 		return err
 	}
@@ -246,11 +241,9 @@ func (ws *Storage) SetWalletToken(tokenEntry client.TokenEntry) error {
 		tx.Rollback()
 		return err
 	}
-	if _, err := tx.Stmt(ws.setStateQuery).Exec("CONFIGCACHE", data); err != nil {
-		if _, err := tx.Stmt(ws.setStateUpdateQuery).Exec(data, "CONFIGCACHE"); err != nil {
-			tx.Rollback()
-			return err
-		}
+	if err := ws.setState(tx, "CONFIGCACHE", data); err != nil {
+		tx.Rollback()
+		return err
 	}
 	if err := tx.Commit(); err != nil {
 		return err
@@ -285,17 +278,20 @@ func (ws *Storage) setToken(tx *sql.Tx, tokenEntry client.TokenEntry) error {
 		}
 	}
 	if len(state) > 0 {
-		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
-		if err != nil {
-			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
-			if err != nil {
-				return err
-			}
-		}
+		return ws.setState(tx, global.Hash, state)
 	}
 	return nil
 }
 
+// setState writes a state in transaction tx
+func (ws *Storage) setState(tx *sql.Tx, hash, state string) error {
+	if _, err := tx.Stmt(ws.deleteStateQuery).Exec(hash); err != nil {
+		return err
+	}
+	_, err := tx.Stmt(ws.setStateQuery).Exec(hash, state)
+	return err
+}
+
 // ReplaceToken atomically replaces the token identified by tokenHash with
 // tokenEntry
 func (ws *Storage) ReplaceToken(tokenHash []byte, tokenEntry client.TokenEntry) error {
@@ -386,14 +382,15 @@ func (ws *Storage) writeCache() error {
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
 	data := ws.cache.Marshal()
-	_, err := ws.setStateQuery.Exec("CONFIGCACHE", data)
+	tx, err := ws.DB.Begin()
 	if err != nil {
-		_, err = ws.setStateUpdateQuery.Exec(data, "CONFIGCACHE")
-		if err != nil {
-			return err
-		}
+		return err
 	}
-	return nil
+	if err := ws.setState(tx, "CONFIGCACHE", data); err != nil {
+		tx.Rollback()
+		return err
+	}
+	return tx.Commit()
 }
 
 // readCache reads the cache from the database
-- 
2.43.0


From 30fa6f4772a322eb0bab3a08ef948a533483224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 20/64] fix: serviceguard client: do not return another owner's
 token after resuming a reissue

---
 serviceguard/client/reissue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 121f30d..f5f7cc8 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -175,5 +175,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	if ownerPubkey != nil && *ownerPubkey != *tokenEntry.NewOwnerPubKey {
+		// We finished an interrupted reissue to another owner
+		c.LastError = ErrLocked
+		return nil, ErrRetry
+	}
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From 764a1ebfd1b5b7574a772eff17b28d3639447da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 21/64] fix: serviceguard client: reject keys, parameters and
 signatures with invalid curve points

---
 serviceguard/client/packetproto/methods.go | 6 ++++++
 serviceguard/client/verify.go              | 7 +++++++
 serviceguard/common/keypool/generator.go   | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 4865d18..b326373 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/serviceguard/common/token"
 	"github.com/mutecomm/mute/serviceguard/common/types"
+	"github.com/ronperry/cryptoedge/eccutil"
 	"github.com/ronperry/cryptoedge/genericblinding"
 	"github.com/ronperry/cryptoedge/jjm"
 )
@@ -35,6 +36,11 @@ func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.Blindi
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
 	}
+	for _, point := range []eccutil.Point{issuerPubKey.PublicKey, pubParams.PointRs1, pubParams.PointRs2} {
+		if point.X == nil || point.Y == nil || !c.Curve.Curve.IsOnCurve(point.X, point.Y) {
+			return nil, nil, nil, ErrParamMismatch
+		}
+	}
 	blindClient := jjm.NewGenericBlindingClient(&issuerPubKey.PublicKey, c.Curve)
 	clearMessage := jjm.NewClearMessage(newToken.Hash())
 	blindingParams := jjm.NewBlindingParamClient(&issuerPubKey.PublicKey)
diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..0bdb96d 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -32,6 +32,10 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	}
 	// Get data from token, signature first
 	signature := tokenUnmarshalled.GetSignature()
+	if !c.packetClient.Curve.Curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	tempSignature := jjm.NewClearSignature(&pubkey.PublicKey)
 	tempSignature.PointR = signature.PointR
 	tempSignature.ScalarS = signature.ScalarS
@@ -42,6 +46,9 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
 	ok, err := blindClient.Verify(tempSignature, clearMessage)
 	if err != nil || !ok {
+		if err == nil {
+			err = ErrSignatureToken
+		}
 		c.LastError = err
 		return nil, ErrFinal
 	}
diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index b32af0d..2047140 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -218,6 +218,10 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
 	}
+	if !kp.Generator.Curve.Curve.IsOnCurve(loadKey.PublicKey.X, loadKey.PublicKey.Y) {
+		// Don't load unusable keys
+		return nil, ErrBadSigner
+	}
 	if _, exists := kp.keys[loadKey.KeyID]; exists {
 		return &loadKey.KeyID, ErrExists
 	}
-- 
2.43.0


From d6b7cb5326f5a39d88713c45ca039cfe5abf874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:11 +0000
Subject: [PATCH 22/64] fix: serviceguard client: do not overwrite a stored
 token when it cannot be read

---
 serviceguard/client/receive.go           | 6 +++++-
 serviceguard/client/walletstore.go       | 2 +-
 serviceguard/client/walletstore/store.go | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index d7bbe77..3d26019 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -21,7 +21,11 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
-	if err != nil || retToken == nil {
+	if err != nil && err != ErrNoToken && err != ErrLocked {
+		c.LastError = err
+		return ErrFatal
+	}
+	if err == ErrNoToken || (err == nil && retToken == nil) {
 		if err := c.walletStore.SetToken(*tokenEntry); err != nil {
 			c.LastError = err
 			return ErrFatal
diff --git a/serviceguard/client/walletstore.go b/serviceguard/client/walletstore.go
index 98dfaae..c58e3e9 100644
--- a/serviceguard/client/walletstore.go
+++ b/serviceguard/client/walletstore.go
@@ -14,7 +14,7 @@ type WalletStore interface {
 	GetAuthToken() (authToken []byte, tries int)                                           // Get authtoken from store
 	SetToken(tokenEntry TokenEntry) error                                                  // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 	SetWalletToken(tokenEntry TokenEntry) error                                            // SetWalletToken is SetToken for a token from the walletserver, it also forgets the authtoken
-	GetToken(tokenHash []byte, lockID int64) (*TokenEntry, error)                          // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
+	GetToken(tokenHash []byte, lockID int64) (*TokenEntry, error)                          // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked). Must return ErrNoToken if the token is not in store
 	GetAndLockToken(usage string, owner *[ed25519.PublicKeySize]byte) (*TokenEntry, error) // Return a token matching usage and optional owner. Must return ErrNoToken if no token is in store
 	FindToken(usage string) (*TokenEntry, error)                                           // Find a token owner by self that has usage set
 	ReplaceToken(tokenHash []byte, tokenEntry TokenEntry) error                            // ReplaceToken atomically replaces the token identified by tokenHash with tokenEntry
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 762b358..4fa659a 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -327,6 +327,9 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 		&tokenDB.CanReissue, &tokenDB.Usage, &tokenDB.Expire,
 		&tokenDB.OwnedSelf, &tokenDB.HasParams, &tokenDB.HasState,
 	)
+	if err == sql.ErrNoRows {
+		return nil, client.ErrNoToken
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c8f7600eb6b9d666ed2f55b056cd3cceaa9f1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 23/64] fix: encdb: sync key file and read it completely

A key file that was written but not synced can be empty or torn after a crash,
which makes the database unreadable for ever (after Create as well as after
Rekey, which replaced the good key file by the unsynced one). A short read of
the key file was ignored.
---
 encdb/keyfile.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index de0e34a..d9e902c 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -90,7 +90,8 @@ func writeKeyfile(filename string, passphrase []byte, iter int, key []byte) erro
 	if _, err := keyfile.Write(encKey); err != nil {
 		return err
 	}
-	return nil
+	// make sure the keyfile is durable, without it the database is lost
+	return keyfile.Sync()
 }
 
 // generateKeyFile generates a key file with the given filename that contains a
@@ -123,7 +124,7 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	defer keyfile.Close()
 	// read iter and convert to int
 	var biter = make([]byte, 8)
-	if _, err := keyfile.Read(biter); err != nil {
+	if _, err := io.ReadFull(keyfile, biter); err != nil {
 		return nil, err
 	}
 	uiter := encode.ToUint64(biter)
@@ -133,12 +134,12 @@ func ReadKeyfile(filename string, passphrase []byte) (key []byte, err error) {
 	iter := int(uiter)
 	// read salt
 	var salt = make([]byte, 32)
-	if _, err := keyfile.Read(salt); err != nil {
+	if _, err := io.ReadFull(keyfile, salt); err != nil {
 		return nil, err
 	}
 	// read encrypted key
 	var encKey = make([]byte, 16+32)
-	if _, err := keyfile.Read(encKey); err != nil {
+	if _, err := io.ReadFull(keyfile, encKey); err != nil {
 		return nil, err
 	}
 	// compute derived key from passphrase
-- 
2.43.0


From 77d0e8150be648802cb1f7cd974258440b2f0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:27 +0000
Subject: [PATCH 24/64] fix: configclient: try all servers again after a failed
 update

---
 configclient/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..22f143d 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -65,6 +65,8 @@ func (c *Config) Update() error {
 	if c.LastSignDate == 0 {
 		c.LastSignDate = uint64(times.Now() - skew)
 	}
+	// always start with the first server, the list has been rebuilt above
+	c.curServer = 0
 GetConfigLoop:
 	for ; c.curServer < len(c.servers); c.curServer++ {
 		cert, err = getConfig(c.servers[c.curServer], c.PublicKey, c.LastSignDate, c.Timeout)
-- 
2.43.0


From 154743006df0bb8f495d8d7683add3097808132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 25/64] fix: cahash: return an error for input which is not PEM
 encoded

---
 configclient/cahash/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..b72d571 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,18 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNoCert is returned if the input is not a pem-encoded certificate.
+var ErrNoCert = errors.New("cahash: not a pem-encoded certificate")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, ErrNoCert
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d8abdef937ade9a6f0e3fcb0e912d12845d029d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 26/64] fix: cahash: reject certificates which are not covered
 by the hash

---
 configclient/cahash/hash.go | 15 ++++++++++++---
 configclient/client.go      |  5 ++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index b72d571..35cdbf1 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -12,15 +12,24 @@ import (
 	"errors"
 )
 
-// ErrNoCert is returned if the input is not a pem-encoded certificate.
-var ErrNoCert = errors.New("cahash: not a pem-encoded certificate")
+var (
+	// ErrNoCert is returned if the input is not a pem-encoded certificate.
+	ErrNoCert = errors.New("cahash: not a pem-encoded certificate")
+	// ErrExtraData is returned if the input contains more than one certificate.
+	ErrExtraData = errors.New("cahash: more than one pem-encoded certificate")
+)
 
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
-	block, _ := pem.Decode(cert)
+	block, rest := pem.Decode(cert)
 	if block == nil {
 		return nil, ErrNoCert
 	}
+	// the hash covers only the first certificate, users of the data would
+	// trust all of them
+	if extra, _ := pem.Decode(rest); extra != nil {
+		return nil, ErrExtraData
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
diff --git a/configclient/client.go b/configclient/client.go
index 22f143d..8bcaacb 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -90,9 +90,8 @@ GetConfigLoop:
 		return err
 	}
 	if c.CACert != nil {
-		if myCAhash, err = cahash.Hash(c.CACert); err != nil {
-			return err
-		}
+		// an invalid certificate has no hash and is replaced below
+		myCAhash, _ = cahash.Hash(c.CACert)
 	}
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
-- 
2.43.0


From 70fe4bc46c62bdd30aa6a8191602287b13627ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 27/64] fix: configclient: keep the CA certificate if the new
 one cannot be fetched

---
 configclient/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index 8bcaacb..97f1202 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -96,8 +96,10 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			var cacert []byte
+			cacert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
+				c.CACert = cacert
 				break CALoop
 			}
 		}
-- 
2.43.0


From 23b3b4ee3052632c2dc4d090195daa27432821cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 28/64] fix: mixaddr: store a new key durably before announcing
 it

---
 mix/mixaddr/privkey.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..4d3fa4f 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -8,7 +8,6 @@ import (
 	"crypto/rand"
 	"encoding/json"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -108,8 +107,10 @@ func (kl *KeyList) Maintain() {
 				return
 			case <-addTicker.C:
 				if lastAdd < timeNow()-kl.NewKeyFrequency {
-					lastAdd = timeNow()
-					kl.AddKey()
+					now := timeNow()
+					if err := kl.AddKey(); err == nil {
+						lastAdd = now
+					}
 				} else {
 					kl.Expire()
 				}
@@ -194,7 +195,7 @@ func (kl *KeyList) expire() {
 }
 
 // AddKey adds a key to the list.
-func (kl *KeyList) AddKey() {
+func (kl *KeyList) AddKey() error {
 	pubkey, privkey, err := genKey()
 	if err != nil {
 		panic(err) // Should never happen
@@ -209,16 +210,38 @@ func (kl *KeyList) AddKey() {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
 	kl.Keys[*pubkey] = ke
-	kl.saveKeys()
+	if err := kl.saveKeys(); err != nil {
+		// do not announce a key which would be lost by a restart
+		delete(kl.Keys, *pubkey)
+		return err
+	}
 	kl.updateStatement()
+	return nil
 }
 
-func (kl *KeyList) saveKeys() {
+func (kl *KeyList) saveKeys() error {
 	file := filepath.Join(kl.Safedir, "keys."+strconv.FormatInt(timeNow(), 10))
-	ioutil.WriteFile(file, kl.marshal(), 0600)
+	tmpfile := file + ".new"
+	f, err := os.OpenFile(tmpfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(kl.marshal())
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmpfile, file)
+	}
+	if err != nil {
+		os.Remove(tmpfile)
+	}
+	return err
 }
 
-// UpdateStatement sets the statement of the list.
 func (kl *KeyList) updateStatement() {
 	al := make(AddressList, 0, len(kl.Keys))
 	for _, key := range kl.Keys {
-- 
2.43.0


From 1b357b7c6a0e7d6868149732ff1c34963bb1fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 29/64] fix: mixaddr: do not announce expired keys

---
 mix/mixaddr/privkey.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 4d3fa4f..89d870e 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -177,11 +177,13 @@ func (kl *KeyList) GetBoundaryTime() (first, last int64) {
 func (kl *KeyList) Expire() {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
-	kl.expire()
+	if kl.expire() {
+		kl.updateStatement()
+	}
 }
 
-// Expire does an expire run on the keylist.
-func (kl *KeyList) expire() {
+// expire does an expire run on the keylist and returns true if a key expired.
+func (kl *KeyList) expire() bool {
 	var expired [][KeySize]byte
 	now := timeNow()
 	for k, e := range kl.Keys {
@@ -192,6 +194,7 @@ func (kl *KeyList) expire() {
 	for _, k := range expired {
 		delete(kl.Keys, k)
 	}
+	return len(expired) > 0
 }
 
 // AddKey adds a key to the list.
-- 
2.43.0


From b237966bf4519a66f0de6d5bdd482bc3bcca0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:03 +0000
Subject: [PATCH 30/64] fix: smtpclient: an error of QUIT is not a failed
 delivery

---
 mix/smtpclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..134a2b5 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -194,6 +194,7 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// The server has accepted the mail, a failing QUIT does not change that.
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From 1ef5cb88f672440993da23580daa4a96f531f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:03 +0000
Subject: [PATCH 31/64] fix: mixcrypt: malformed messages of senders must not
 panic the mix

---
 mix/mixcrypt/clientmix.go | 9 ++++++---
 mix/mixcrypt/common.go    | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..2f513c0 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -64,17 +64,17 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 		cl = new(ClientMixHeader)
 	}
 	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
-	if len(d) < int(lenB) {
+	if lenB < 2 || len(d) < int(lenB) {
 		return nil, lenB, ErrTooShort
 	}
 	_, err = asn1.Unmarshal(d[2:lenB], cl)
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 1 && cl.Token[0] == 0x00 {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if (len(cl.RevokeID) == 1 && cl.RevokeID[0] == 0x00) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
@@ -136,6 +136,9 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if err != nil {
 		return nil, err
 	}
+	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
+		return nil, ErrBadType
+	}
 	// Test Size
 	msgLen := len(decMessage) - int(lenB)
 	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..d5560cd 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -31,6 +31,8 @@ var (
 	ErrTooShort = errors.New("mixcrypt: too short")
 	// ErrSize is returned if a message is too long/short
 	ErrSize = errors.New("mixcrypt: message out of bounds")
+	// ErrBadType is returned if a message has an unknown type
+	ErrBadType = errors.New("mixcrypt: unknown message type")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
 )
-- 
2.43.0


From fc903d98ac162abc391fc2817fcee828bc65fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:04 +0000
Subject: [PATCH 32/64] fix: nymaddr: enforce the protected expiry of an
 address

---
 mix/nymaddr/addr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mix/nymaddr/addr.go b/mix/nymaddr/addr.go
index 48944fb..9083bd1 100644
--- a/mix/nymaddr/addr.go
+++ b/mix/nymaddr/addr.go
@@ -147,6 +147,10 @@ func (ad *Address) GetMixData(keysLookup KeyFunc) (*AddressPrivate, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The unprotected expiry has been checked by ParseAddress.
+	if ap.Expire < times.Now() {
+		return nil, ErrExpired
+	}
 	return ap, nil
 }
 
-- 
2.43.0


From 668c6cf1f0a1645f6b533e8c97524304f9adbab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:53 +0000
Subject: [PATCH 33/64] fix: mixaddr: expire keys whether or not a new one is
 due

---
 mix/mixaddr/privkey.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 89d870e..ee2a9ae 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -106,13 +106,12 @@ func (kl *KeyList) Maintain() {
 				// Stop maintainer
 				return
 			case <-addTicker.C:
+				kl.Expire()
 				if lastAdd < timeNow()-kl.NewKeyFrequency {
 					now := timeNow()
 					if err := kl.AddKey(); err == nil {
 						lastAdd = now
 					}
-				} else {
-					kl.Expire()
 				}
 			}
 		}
-- 
2.43.0


From 42a08528358450fffc38e75b4c3c3df906831620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 34/64] fix: cryptengine: check hash chain sync replies and
 report storage errors

---
 cryptengine/hashchain.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..60e937c 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/cipher/aes256"
@@ -18,6 +19,20 @@ import (
 	"github.com/mutecomm/mute/uid/identity"
 )
 
+// maxPosition is the largest hash chain position which can be represented
+// exactly in JSON.
+const maxPosition = 1<<53 - 1
+
+// toPosition converts the JSON value v to a hash chain position. It returns
+// false, if v is not a valid position.
+func toPosition(v interface{}) (uint64, bool) {
+	f, ok := v.(float64)
+	if !ok || f < 0 || f > maxPosition || f != math.Trunc(f) {
+		return 0, false
+	}
+	return uint64(f), true
+}
+
 // syncHashChain brings local hash chain in sync with key server at the given
 // domain. It just downloads the new entries and does not validate them
 // whatsoever.
@@ -39,11 +54,10 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPos, ok := toPosition(reply["HCPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
-	hcPos := uint64(hcPosFloat)
 	log.Debugf("cryptengine: last HC#%d: %s", hcPos, hcEntry)
 
 	// determine what we already have
@@ -88,11 +102,14 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcFirstPos, ok := toPosition(reply["HCFirstPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
-	hcFirstPos := uint64(hcPosFirstFloat)
+	// make sure we got exactly the entries we asked for
+	if hcFirstPos != start || uint64(len(hcEntries)) != end-start+1 {
+		return log.Error("cryptengine: fetch hash chain entries reply does not match the request")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
@@ -102,7 +119,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
-- 
2.43.0


From b802fafe59edac880f42f91ea673a6057ce9e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 35/64] fix: cryptengine: check that a fetched UID message is
 valid and for the requested identity

---
 cryptengine/hashchain.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 60e937c..c8334ab 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -254,6 +254,25 @@ func (ce *CryptEngine) fetchUID(
 	return msgReply, err
 }
 
+// verifyUID verifies that the given UID message is well-formed, correctly
+// self-signed and belongs to the given identity.
+func verifyUID(msg *uid.Message, mappedID string) error {
+	if err := msg.Check(); err != nil {
+		return err
+	}
+	if msg.Identity() != mappedID {
+		return log.Errorf("cryptengine: UID message of '%s' is not for '%s'", msg.Identity(), mappedID)
+	}
+	if err := msg.PubKey().Verify(); err != nil {
+		return err
+	}
+	// Verify self signature
+	if err := msg.VerifySelfSig(); err != nil {
+		return log.Error(err)
+	}
+	return nil
+}
+
 func (ce *CryptEngine) verifyServerSig(
 	uid *uid.Message,
 	msgReply *uid.MessageReply,
@@ -372,9 +391,9 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
-		// Verify self signature
-		if err := uid.VerifySelfSig(); err != nil {
-			return log.Error(err)
+		// Verify UIDMessage itself
+		if err := verifyUID(uid, mappedID); err != nil {
+			return err
 		}
 
 		// Verify server signature
@@ -500,9 +519,9 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
-		// Verify self signature
-		if err := uid.VerifySelfSig(); err != nil {
-			return log.Error(err)
+		// Verify UIDMessage itself
+		if err := verifyUID(uid, mappedID); err != nil {
+			return err
 		}
 
 		// Verify server signature
-- 
2.43.0


From 994151042e2f92b2a6ea05d83a11c1c7733f2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 36/64] fix: cryptengine: do not crash if a key server has no
 signature key

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..27c2f20 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -59,6 +59,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 		return err
 	}
 	// verify server signatures
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server '%s' has no signature key", domain)
+	}
 	sigs, ok := reply["Signatures"].([]interface{})
 	if !ok {
 		return log.Errorf("cryptengine: could not add key inits for '%s'", msg.UIDContent.IDENTITY)
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..7cac554 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -116,6 +116,9 @@ func (ce *CryptEngine) registerOrUpdate(
 	}
 
 	// verify reply
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server '%s' has no signature key", domain)
+	}
 	// TODO: keyserver can return more than one SIGPUBKEY
 	if err := msgReply.VerifySrvSig(msg, caps.SIGPUBKEYS[0]); err != nil {
 		return err
-- 
2.43.0


From 235ef4baf36e12de47168f23b69cf23939abf367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 37/64] fix: uid: check that a UID message reply contains the
 message committed to

---
 uid/uid.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..c32bcc4 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -625,9 +626,16 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error(ErrMsgMismatch)
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
+	// make sure the decrypted message is the one UIDHash stands for
+	if !bytes.Equal(cipher.SHA256(Message), UIDHash) {
+		return nil, nil, log.Error(ErrMsgMismatch)
+	}
 	uid, err := NewJSON(string(Message))
 	if err != nil {
 		return nil, nil, log.Error(err)
@@ -639,14 +647,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, replyMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(replyMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 98d5eca55b409ca6c65fb32a88aa37670307d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:56 +0000
Subject: [PATCH 38/64] fix: uid: reject malformed public keys when verifying
 key init messages

---
 uid/keyinit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..894b403 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -201,7 +201,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -229,7 +231,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From bc700792af8f163323752fb3a7e42dc8bef9e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 39/64] fix: cryptengine: verify fetched key init messages
 before storing them

---
 cryptengine/keyinit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 27c2f20..09044f1 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -129,6 +129,10 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// verify key init message
+	if err := ki.Verify([]string{domain}, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From f032c611aa38fb5025ec98c17987981611d07dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 40/64] fix: uid: do not panic on key init messages with a
 short session anchor

---
 uid/keyinit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 894b403..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
-- 
2.43.0


From 261c347d956fe5e16c2b26ba8387fc2b466ab54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 41/64] fix: walletstore: do not restore an empty auth token as
 a cached one

---
 serviceguard/client/walletstore/store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 4fa659a..24fcb16 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -412,6 +412,9 @@ func (ws *Storage) readCache() {
 	if err != nil {
 		return
 	}
+	if len(dataU.AuthToken) == 0 {
+		dataU.AuthToken = nil // none cached
+	}
 	ws.cache = dataU
 }
 
-- 
2.43.0


From 05fecd2b2b2fe6d6e8d45dba308ad0686fb84a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 42/64] fix: ctrlengine: contact add uses the given name and
 contact type

The parameters were shadowed by the values of the contact database: a
new full name got lost and an unknown sender became white listed.
---
 ctrlengine/contact.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..9df1361 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -243,7 +243,7 @@ func (ce *CtrlEngine) contactAdd(
 	c *cli.Context,
 ) error {
 	log.Infof("contact add --id %s --contact %s", id, contact)
-	idMapped, domain, err := identity.MapPlus(id)
+	idMapped, err := identity.Map(id)
 	if err != nil {
 		return err
 	}
@@ -252,14 +252,17 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
+	unmappedID, prevFullName, prevType, err := ce.msgDB.GetContact(idMapped,
 		contactMapped)
 	if err != nil {
 		return err
 	}
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
+		if fullName == "" {
+			fullName = prevFullName
+		}
+		if prevType != msgdb.WhiteList || fullName != prevFullName {
 			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
 				msgdb.WhiteList)
 			if err != nil {
-- 
2.43.0


From 95888c793561a897b0539d046608eebb7e669e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 43/64] fix: ctrlengine: msg fetch stores messages before it
 marks them as known

Message IDs went into the cache newest first and before their messages
were stored. An interruption lost the message and all older ones.
---
 ctrlengine/msg.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..7ce2815 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -537,7 +537,12 @@ func muteprotoFetch(
 			}
 		}
 	}()
-	firstMessage := true
+	type message struct {
+		id          string
+		receiveTime int64
+		msg         string
+	}
+	var messages []message // newest message first
 	cache, err := msgDB.GetMessageIDCache(myID, contactID)
 	if err != nil {
 		return 0, err
@@ -573,13 +578,9 @@ func muteprotoFetch(
 			}
 			break
 		} else {
-			// message unknown -> fetch it and add messageID to cache
+			// message unknown -> fetch it
 			log.Debug("write: NEXT")
 			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
 		}
 		// read message
 		stop := make(chan uint64)
@@ -630,19 +631,27 @@ func muteprotoFetch(
 
 		stop <- length
 		<-done
-		err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
-		if err != nil {
-			return 0, err
-		}
-		if firstMessage {
-			newMessageTime = receiveTime
-			firstMessage = false
-		}
+		messages = append(messages, message{messageID, receiveTime, outbuf.String()})
 		outbuf.Reset()
 	}
 	if err := cmd.Wait(); err != nil {
 		return 0, err
 	}
+	// Add messages to inqueue, oldest message first: a message ID in the cache
+	// stops the next fetch, therefore it must not be in there before its message
+	// and all older messages have been stored.
+	for i := len(messages) - 1; i >= 0; i-- {
+		m := messages[i]
+		err := msgDB.AddInQueue(myID, contactID, m.receiveTime, m.msg)
+		if err != nil {
+			return 0, err
+		}
+		err = msgDB.AddMessageIDCache(myID, contactID, m.id)
+		if err != nil {
+			return 0, log.Error(err)
+		}
+		newMessageTime = m.receiveTime
+	}
 	return
 }
 
-- 
2.43.0


From 4abf2cdae9c7ab0577ffffb3715b13604c8f86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 44/64] fix: ctrlengine: discard messages whose envelope cannot
 be decrypted

They blocked the inqueue: no message could be fetched ever after.
---
 ctrlengine/msg.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 7ce2815..9389698 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -738,7 +738,11 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			// decrypt envelope
 			message, err := base64.Decode(msg)
 			if err != nil {
-				return log.Error(err)
+				log.Warnf("ctrlengine: cannot decode envelope: %s -> discard message", err)
+				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
+					return err
+				}
+				continue
 			}
 			privkey, server, secret, _, _, _, err := ce.msgDB.GetAccount(myID, contactID)
 			if err != nil {
@@ -752,7 +756,12 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			dec, nym, err := mixcrypt.ReceiveFromMix(receiveTemplate,
 				util.MailboxAddress(&pubkey, server), message)
 			if err != nil {
-				return log.Error(err)
+				// one bad message must not block all others
+				log.Warnf("ctrlengine: cannot decrypt envelope: %s -> discard message", err)
+				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
+					return err
+				}
+				continue
 			}
 			if !bytes.Equal(nym, cipher.SHA256([]byte(myID))) {
 				// discard message
-- 
2.43.0


From dde5efc6917cc5d3ee4b2bc7a3051ebffb880126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:41 +0000
Subject: [PATCH 45/64] fix: fetch: skip a mail which cannot be parsed and
 check the HTTP status

One bad mail on the account server made every msg fetch fail. A reply with
an error status was taken for a message.
---
 mix/client/init.go    | 2 ++
 mix/client/mixrpc.go  | 4 ++++
 mix/client/receive.go | 2 +-
 protoengine/fetch.go  | 5 +++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mix/client/init.go b/mix/client/init.go
index 4048b09..721653b 100644
--- a/mix/client/init.go
+++ b/mix/client/init.go
@@ -25,6 +25,8 @@ var (
 	ErrNIL = errors.New("mixclient: nil value")
 	// ErrAlreadySent is returned if trying to resend a message. Coding error!
 	ErrAlreadySent = errors.New("mixclient: already sent")
+	// ErrBadMail is returned if a message on the account server is no valid mail.
+	ErrBadMail = errors.New("mixclient: message is not a valid mail")
 	// ErrProto is returned if there was a protocol error in RPC.
 	ErrProto = errors.New("mixclient: bad RPC protocol")
 	// ErrNoMatch is returned if no account was found.
diff --git a/mix/client/mixrpc.go b/mix/client/mixrpc.go
index 3dfd624..e6b9784 100644
--- a/mix/client/mixrpc.go
+++ b/mix/client/mixrpc.go
@@ -5,6 +5,7 @@
 package client
 
 import (
+	"bytes"
 	"crypto/tls"
 	"crypto/x509"
 	"encoding/hex"
@@ -73,6 +74,9 @@ func HTTPSPost(postValues url.Values, postURL string, cacert []byte) ([]byte, er
 		return nil, err
 	}
 	resp.Body.Close()
+	if resp.StatusCode != http.StatusOK && !bytes.HasPrefix(body, []byte("ERROR:")) {
+		return nil, fmt.Errorf("mixclient: %s", resp.Status)
+	}
 	return body, nil
 }
 
diff --git a/mix/client/receive.go b/mix/client/receive.go
index 02cb6ad..5aa52ff 100644
--- a/mix/client/receive.go
+++ b/mix/client/receive.go
@@ -61,7 +61,7 @@ func fetchmessage(messageID, authtoken []byte, server string, cacert []byte) (me
 	}
 	message, err = ReadMail(body)
 	if err != nil {
-		return nil, 0, err
+		return nil, 0, ErrBadMail
 	}
 	return message, 0, nil
 }
diff --git a/protoengine/fetch.go b/protoengine/fetch.go
index 6cf7518..66066a0 100644
--- a/protoengine/fetch.go
+++ b/protoengine/fetch.go
@@ -62,6 +62,11 @@ func (pe *ProtoEngine) fetch(
 	for _, message := range messages {
 		msg, err := client.FetchMessage(&privkey, message.MessageID, server,
 			def.CACert)
+		if err == client.ErrBadMail {
+			// one bad mail must not block all others
+			log.Warnf("skip message %x: %s", message.MessageID, err)
+			continue
+		}
 		if err != nil {
 			return log.Error(err)
 		}
-- 
2.43.0


From e988baac8b4fa1c79f28213fd11735eefa4a5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:55 +0000
Subject: [PATCH 46/64] fix: msg fetch: drop messages which can never be
 decrypted

A replayed or damaged message stayed at the head of the inqueue and blocked
it: no message could be fetched ever after.
---
 cryptengine/decrypt.go | 34 ++++++++++++++++++++++++++++++++--
 ctrlengine/msg.go      |  6 ++++++
 msg/errors.go          |  4 ++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/cryptengine/decrypt.go b/cryptengine/decrypt.go
index 4ebb475..bbeaa70 100644
--- a/cryptengine/decrypt.go
+++ b/cryptengine/decrypt.go
@@ -5,14 +5,19 @@
 package cryptengine
 
 import (
+	"database/sql"
+	b64 "encoding/base64"
+	"encoding/json"
 	"fmt"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/msg"
+	"github.com/mutecomm/mute/msg/session"
 	"github.com/mutecomm/mute/uid"
 )
 
@@ -36,6 +41,23 @@ func (ce *CryptEngine) getRecipientIdentities() ([]*uid.Message, error) {
 	return uidMsgs, nil
 }
 
+// undecryptable returns true, if err, the result of a decryption, says that the
+// message itself is bad: garbage, tampered with, for somebody else, or a replay
+// of a message whose key has been deleted already. Decrypting such a message
+// again fails again. All other errors (of the key database) might be temporary.
+func undecryptable(err error) bool {
+	switch err {
+	case io.EOF, io.ErrUnexpectedEOF, sql.ErrNoRows, session.ErrNoKeyEntry:
+		return true
+	}
+	switch err.(type) {
+	case b64.CorruptInputError, *json.SyntaxError, *json.UnmarshalTypeError:
+		return true
+	}
+	return strings.HasPrefix(err.Error(), "msg: ") ||
+		strings.HasPrefix(err.Error(), "uid: ")
+}
+
 func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) error {
 	// retrieve all possible recipient identities from keyDB
 	identities, err := ce.getRecipientIdentities()
@@ -47,15 +69,20 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 	r = base64.NewDecoder(r)
 	version, preHeader, err := msg.ReadFirstOuterHeader(r)
 	if err != nil {
+		if undecryptable(err) {
+			return log.Errorf("%s: %s", err, msg.ErrUndecryptable)
+		}
 		return err
 	}
 
 	// check version
 	if version > msg.Version {
-		return log.Errorf("cryptengine: newer message version, please update software")
+		return log.Errorf("cryptengine: newer message version, please update software: %s",
+			msg.ErrUndecryptable)
 	}
 	if version < msg.Version {
-		return log.Errorf("cryptengine: outdated message version, cannot process")
+		return log.Errorf("cryptengine: outdated message version, cannot process: %s",
+			msg.ErrUndecryptable)
 	}
 
 	// decrypt message
@@ -73,6 +100,9 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 	if err != nil {
 		// TODO: handle msg.ErrStatusError, should trigger a subsequent
 		// encrypted message with StatusError
+		if undecryptable(err) && err != msg.ErrNoPreHeaderKey {
+			return log.Errorf("%s: %s", err, msg.ErrUndecryptable)
+		}
 		return err
 	}
 	fmt.Fprintf(statusfp, "SENDERIDENTITY:\t%s\n", senderID)
diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 9389698..0174719 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -698,6 +698,12 @@ func mutecryptDecrypt(
 				"could not decrypt pre-header, message dropped\n")
 			return "", "", nil
 		}
+		if strings.HasSuffix(errstr, msg.ErrUndecryptable.Error()) {
+			// one bad message must not block all others
+			log.Warnf("%s, message dropped", errstr)
+			fmt.Fprintf(statusFP, "could not decrypt message, message dropped\n")
+			return "", "", nil
+		}
 		return "", "", log.Errorf("%s: %s", err, errstr)
 	}
 	// TODO: parse and process signature!
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..d24a31b 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -15,6 +15,10 @@ var ErrNotPreHeader = errors.New("msg: message doesn't start with pre-header")
 // not be found.
 var ErrNoPreHeaderKey = errors.New("msg: could not find key to decrypt pre-header")
 
+// ErrUndecryptable is raised when a message is bad, that is, when it can never
+// be decrypted.
+var ErrUndecryptable = errors.New("msg: message cannot be decrypted")
+
 // ErrNotEncryptedHeader is raised when a message doesn't has an encrypted
 // header after the pre-header.
 var ErrNotEncryptedHeader = errors.New("msg: message doesn't have encrypted header")
-- 
2.43.0


From 4b684784c7b49522ad6c5167b075ef800fabf82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:57 +0000
Subject: [PATCH 47/64] fix: ctrlengine: msg add refuses messages to oneself

They cannot be encrypted (reflection attack detected) and blocked all
further messages in msg send.
---
 ctrlengine/msg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 0174719..c7448c5 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -169,6 +169,10 @@ func (ce *CtrlEngine) msgAdd(
 	if err != nil {
 		return err
 	}
+	if toMapped == fromMapped {
+		// could not be encrypted and would block the outqueue
+		return log.Errorf("ctrlengine: cannot send message from %s to itself", from)
+	}
 	prev, _, contactType, err := ce.msgDB.GetContact(fromMapped, toMapped)
 	if err != nil {
 		return err
-- 
2.43.0


From 45c28784a271f2234bb2d78a133b656df4d1d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:08 +0000
Subject: [PATCH 48/64] fix: ctrlengine: make sure that we have the keys of
 white listed contacts

A contact which was blocked before it was added has no keys. After unblock
(or contact add) it was white listed without keys and a message to it
blocked msg send.
---
 ctrlengine/contact.go    | 20 ++++++++++++++++++--
 ctrlengine/ctrlengine.go |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 9df1361..99c4d7e 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -262,6 +262,14 @@ func (ce *CtrlEngine) contactAdd(
 		if fullName == "" {
 			fullName = prevFullName
 		}
+		if prevType != msgdb.WhiteList {
+			// the keys are missing, if the contact has never been added before
+			err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain,
+				host, ce.client)
+			if err != nil {
+				return err
+			}
+		}
 		if prevType != msgdb.WhiteList || fullName != prevFullName {
 			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
 				msgdb.WhiteList)
@@ -331,12 +339,12 @@ func (ce *CtrlEngine) contactBlock(id, contact string) error {
 	return add(ce.msgDB, idMapped, contactMapped, "", msgdb.BlackList)
 }
 
-func (ce *CtrlEngine) contactUnblock(id, contact string) error {
+func (ce *CtrlEngine) contactUnblock(id, contact string, c *cli.Context) error {
 	idMapped, err := identity.Map(id)
 	if err != nil {
 		return err
 	}
-	contactMapped, err := identity.Map(contact)
+	contactMapped, domain, err := identity.MapPlus(contact)
 	if err != nil {
 		return err
 	}
@@ -351,6 +359,14 @@ func (ce *CtrlEngine) contactUnblock(id, contact string) error {
 		return log.Errorf("ctrlengine: %s is not blocked", contact)
 	}
 
+	// contacts can be blocked without having been added before: make sure that
+	// we have the keys of a white listed contact
+	err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain, "",
+		ce.client)
+	if err != nil {
+		return err
+	}
+
 	// unblock contact (-> white list)
 	err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
 		msgdb.WhiteList)
diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 784b8a2..9c7fd2d 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -919,7 +919,7 @@ Tries to register a new user ID with the corresponding key server.
 					},
 					Action: func(c *cli.Context) {
 						ce.err = ce.contactUnblock(ce.getID(c),
-							c.String("contact"))
+							c.String("contact"), c)
 					},
 				},
 				{
-- 
2.43.0


From 5d6fb9d74f50e734d2b6e6a13b87f91677baf3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 49/64] fix: ctrlengine: sync the configuration file before
 renaming it

After a power loss the file could be empty or truncated. mutecrypt and
muteproto then failed until the next fetch of the configuration.
---
 ctrlengine/upkeep.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index 692d141..a0a31f9 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -10,7 +10,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -100,7 +99,20 @@ func writeConfigFile(homedir, domain string, config []byte) error {
 	}
 	tmpfile := filepath.Join(configdir, domain+".new")
 	os.Remove(tmpfile) // ignore error
-	if err := ioutil.WriteFile(tmpfile, config, 0600); err != nil {
+	fp, err := os.OpenFile(tmpfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return log.Error(err)
+	}
+	if _, err := fp.Write(config); err != nil {
+		fp.Close()
+		return log.Error(err)
+	}
+	// the content must be on disk before it replaces the old file
+	if err := fp.Sync(); err != nil {
+		fp.Close()
+		return log.Error(err)
+	}
+	if err := fp.Close(); err != nil {
 		return log.Error(err)
 	}
 	return os.Rename(tmpfile, filepath.Join(configdir, domain))
-- 
2.43.0


From e78cf98793a0c6d1ee8f9bf905854ac30d209857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:48 +0000
Subject: [PATCH 50/64] fix: ctrlengine: repeat an interrupted fetch of the
 configuration

The time of the fetch was stored before the configuration was applied and
written for mutecrypt and muteproto. If that failed, or if the time was
never stored, the configuration was not fetched again for 24h or ever.
---
 ctrlengine/ctrlengine.go | 41 ++++++++++++++++++++--------------------
 ctrlengine/upkeep.go     | 28 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 9c7fd2d..ee30bcc 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -118,30 +118,31 @@ func (ce *CtrlEngine) getConfig(homedir string, offline bool) error {
 			if err != nil {
 				return err
 			}
+			var t int64 // no time: the last fetch was interrupted
 			if timestr != "" {
-				t, err := strconv.ParseInt(timestr, 10, 64)
+				t, err = strconv.ParseInt(timestr, 10, 64)
 				if err != nil {
 					return log.Error(err)
 				}
-				last := time.Now().Sub(time.Unix(t, 0))
-				if last > def.FetchconfMinDuration {
-					if offline {
-						if last > def.FetchconfMaxDuration {
-							return log.Error("ctrlengine: configuration is " +
-								"outdated, please run without --offline")
-						}
-						log.Warn("ctrlengine: cannot fetch outdated config " +
-							"in --offline mode")
-						fmt.Fprintf(ce.fileTable.StatusFP,
-							"ctrlengine: cannot fetch outdated config in "+
-								"--offline mode\n")
-					} else {
-						// update config
-						err := ce.upkeepFetchconf(ce.msgDB, homedir, false, nil,
-							ce.fileTable.StatusFP)
-						if err != nil {
-							return err
-						}
+			}
+			last := time.Now().Sub(time.Unix(t, 0))
+			if last > def.FetchconfMinDuration {
+				if offline {
+					if last > def.FetchconfMaxDuration {
+						return log.Error("ctrlengine: configuration is " +
+							"outdated, please run without --offline")
+					}
+					log.Warn("ctrlengine: cannot fetch outdated config " +
+						"in --offline mode")
+					fmt.Fprintf(ce.fileTable.StatusFP,
+						"ctrlengine: cannot fetch outdated config in "+
+							"--offline mode\n")
+				} else {
+					// update config
+					err := ce.upkeepFetchconf(ce.msgDB, homedir, false, nil,
+						ce.fileTable.StatusFP)
+					if err != nil {
+						return err
 					}
 				}
 			}
diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index a0a31f9..77ca977 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -137,33 +137,35 @@ func (ce *CtrlEngine) upkeepFetchconf(
 	if err := ce.config.Update(); err != nil {
 		return log.Error(err)
 	}
-	jsn, err := json.Marshal(ce.config)
+	// apply new configuration
+	if err := def.InitMute(&ce.config); err != nil {
+		return err
+	}
+	// format configuration nicely
+	nice, err := json.MarshalIndent(ce.config, "", "  ")
 	if err != nil {
 		return log.Error(err)
 	}
-	if err := msgDB.AddValue(netDomain, string(jsn)); err != nil {
+	// write new configuration file
+	if err := writeConfigFile(homedir, netDomain, nice); err != nil {
 		return err
 	}
-	err = msgDB.AddValue("time."+netDomain, strconv.FormatInt(times.Now(), 10))
+	// store configuration and, when everything is done, the time: without it
+	// the configuration is fetched again
+	jsn, err := json.Marshal(ce.config)
 	if err != nil {
-		return err
+		return log.Error(err)
 	}
-	// apply new configuration
-	if err := def.InitMute(&ce.config); err != nil {
+	if err := msgDB.AddValue(netDomain, string(jsn)); err != nil {
 		return err
 	}
-	// format configuration nicely
-	jsn, err = json.MarshalIndent(ce.config, "", "  ")
+	err = msgDB.AddValue("time."+netDomain, strconv.FormatInt(times.Now(), 10))
 	if err != nil {
-		return log.Error(err)
-	}
-	// write new configuration file
-	if err := writeConfigFile(homedir, netDomain, jsn); err != nil {
 		return err
 	}
 	// show new configuration
 	if show {
-		fmt.Fprintf(outfp, string(jsn)+"\n")
+		fmt.Fprintf(outfp, string(nice)+"\n")
 	}
 	return nil
 }
-- 
2.43.0


From 4a41c8e770fbf4efb8250a8b79fa9dfc50b6c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:15 +0000
Subject: [PATCH 51/64] fix: mixcrypt: a very long header must not panic the
 mix

---
 mix/mixcrypt/clientmix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 2f513c0..562b91c 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -161,7 +161,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB:][:256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -172,7 +172,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB:][:256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
-- 
2.43.0


From 7a5649251062ff336e3aacf9513a063701243f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 52/64] fix: ctrlengine: msg add refuses messages which are too
 long to be sent

---
 ctrlengine/msg.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index c7448c5..43ffbe8 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -125,10 +125,10 @@ func (ce *CtrlEngine) msgAdd(
 	}
 
 	// TODO: handle attachments
-	var msg []byte
+	var message []byte
 	if file != "" {
 		// read message from file
-		msg, err = ioutil.ReadFile(file)
+		message, err = ioutil.ReadFile(file)
 		if err != nil {
 			return log.Error(err)
 		}
@@ -147,22 +147,22 @@ func (ce *CtrlEngine) msgAdd(
 			}
 			inbuf.WriteString(ln + "\n")
 		}
-		msg = inbuf.Bytes()
+		message = inbuf.Bytes()
 	} else {
 		// read message from stdin
-		msg, err = ioutil.ReadAll(r)
+		message, err = ioutil.ReadAll(r)
 		if err != nil {
 			return log.Error(err)
 		}
 	}
 
 	if mailInput {
-		recipient, message, err := mail.Parse(bytes.NewBuffer(msg))
+		recipient, content, err := mail.Parse(bytes.NewBuffer(message))
 		if err != nil {
 			return err
 		}
 		to = recipient
-		msg = []byte(message)
+		message = []byte(content)
 	}
 
 	toMapped, err := identity.Map(to)
@@ -181,9 +181,15 @@ func (ce *CtrlEngine) msgAdd(
 		return log.Errorf("contact %s not found (for user ID %s)", to, from)
 	}
 
+	if len(message) > msg.MaxContentLength {
+		// could not be encrypted and would block the outqueue
+		return log.Errorf("ctrlengine: message too long (%d bytes > %d bytes)",
+			len(message), msg.MaxContentLength)
+	}
+
 	// store message in message DB
 	now := times.Now()
-	err = ce.msgDB.AddMessage(fromMapped, toMapped, now, true, string(msg),
+	err = ce.msgDB.AddMessage(fromMapped, toMapped, now, true, string(message),
 		permanentSignature, minDelay, maxDelay)
 	if err != nil {
 		return err
-- 
2.43.0


From a229967f688498f7384ab2643501561d9ef8f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:47 +0000
Subject: [PATCH 53/64] fix: ctrlengine: never use a token for two messages

---
 ctrlengine/msg.go                                    | 10 +++++++---
 serviceguard/client/clientlib.go                     |  4 ++--
 serviceguard/client/walletstore.go                   |  2 +-
 serviceguard/client/walletstore/nilstore/nilstore.go |  2 +-
 serviceguard/client/walletstore/store.go             |  9 ++++++---
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 43ffbe8..bec47af 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -302,7 +302,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// parse nymaddress
 			na, err := base64.Decode(nymaddress)
 			if err != nil {
-				return log.Error(na)
+				return log.Error(err)
 			}
 			addr, err := nymaddr.ParseAddress(na)
 			if err != nil {
@@ -319,14 +319,18 @@ func (ce *CtrlEngine) procOutQueue(
 			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
 				base64.Encode(token.Token), nymaddress)
 			if err != nil {
+				ce.client.UnlockToken(token.Hash)
+				return log.Error(err)
+			}
+			// Delete the token before it is stored in the outqueue: it must
+			// not be used for another message, even if we are interrupted.
+			if err := ce.client.DelToken(token.Hash); err != nil {
 				return log.Error(err)
 			}
 			// update outqueue
 			if err := ce.msgDB.SetOutQueue(oqIdx, env); err != nil {
-				ce.client.UnlockToken(token.Hash)
 				return err
 			}
-			ce.client.DelToken(token.Hash)
 			msg = env
 		}
 		// `muteproto deliver`
diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 8c88b67..2b61ba8 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -216,8 +216,8 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 }
 
 // DelToken deletes a token.
-func (c *Client) DelToken(tokenHash []byte) {
-	c.walletStore.DelToken(tokenHash)
+func (c *Client) DelToken(tokenHash []byte) error {
+	return c.walletStore.DelToken(tokenHash)
 }
 
 // GetBalanceOwn returns the number of renewable tokens for usage.
diff --git a/serviceguard/client/walletstore.go b/serviceguard/client/walletstore.go
index c58e3e9..c667b93 100644
--- a/serviceguard/client/walletstore.go
+++ b/serviceguard/client/walletstore.go
@@ -18,7 +18,7 @@ type WalletStore interface {
 	GetAndLockToken(usage string, owner *[ed25519.PublicKeySize]byte) (*TokenEntry, error) // Return a token matching usage and optional owner. Must return ErrNoToken if no token is in store
 	FindToken(usage string) (*TokenEntry, error)                                           // Find a token owner by self that has usage set
 	ReplaceToken(tokenHash []byte, tokenEntry TokenEntry) error                            // ReplaceToken atomically replaces the token identified by tokenHash with tokenEntry
-	DelToken(tokenHash []byte)                                                             // DelToken deletes the token identified by tokenHash
+	DelToken(tokenHash []byte) error                                                       // DelToken deletes the token identified by tokenHash
 	LockToken(tokenHash []byte) (LockID int64)                                             // Lock token against other use. Return lockID > 0 on success, <0 on failure
 	UnlockToken(tokenHash []byte)                                                          // Unlock a locked token
 	SetVerifyKeys([][ed25519.PublicKeySize]byte)                                           // Save verification keys
diff --git a/serviceguard/client/walletstore/nilstore/nilstore.go b/serviceguard/client/walletstore/nilstore/nilstore.go
index fc87545..17de6d3 100644
--- a/serviceguard/client/walletstore/nilstore/nilstore.go
+++ b/serviceguard/client/walletstore/nilstore/nilstore.go
@@ -71,7 +71,7 @@ func (ns *NilStore) ReplaceToken(tokenHash []byte, tokenEntry client.TokenEntry)
 }
 
 // DelToken without function.
-func (ns *NilStore) DelToken(tokenHash []byte) {}
+func (ns *NilStore) DelToken(tokenHash []byte) error { return nil }
 
 // LockToken without function.
 func (ns *NilStore) LockToken(tokenHash []byte) int64 {
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 24fcb16..b618dee 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -346,10 +346,13 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 }
 
 // DelToken deletes the token identified by tokenHash
-func (ws *Storage) DelToken(tokenHash []byte) {
+func (ws *Storage) DelToken(tokenHash []byte) error {
 	tokenHashS := hex.EncodeToString(tokenHash)
-	ws.deleteTokenQuery.Exec(tokenHashS)
-	ws.deleteStateQuery.Exec(tokenHashS)
+	if _, err := ws.deleteTokenQuery.Exec(tokenHashS); err != nil {
+		return err
+	}
+	_, err := ws.deleteStateQuery.Exec(tokenHashS)
+	return err
 }
 
 func getLockID() int64 {
-- 
2.43.0


From 2f8eb390ae6b079113be9516b25e3ab060140055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 54/64] fix: ctrlengine: msg fetch keeps messages of senders
 whose keys cannot be fetched

---
 ctrlengine/msg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index bec47af..00e9155 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -822,7 +822,12 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			if contact == "" {
 				err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
 				if err != nil {
-					return log.Error(err)
+					// the message cannot be decrypted again, do not lose it
+					log.Warnf("ctrlengine: could not add contact: %s", err)
+					err = add(ce.msgDB, myID, senderID, "", msgdb.GrayList)
+					if err != nil {
+						return log.Error(err)
+					}
 				}
 			} else if contactType == msgdb.BlackList {
 				// messages from black listed contacts are dropped directly
-- 
2.43.0


From 8bf9759ce55ef18eafb4859f827e0f52f39d97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:53 +0000
Subject: [PATCH 55/64] fix: retract messages which the mix rejects for good

---
 ctrlengine/msg.go      | 4 ++--
 protoengine/deliver.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 00e9155..326a8df 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -26,10 +26,10 @@ import (
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/mix/mixcrypt"
 	"github.com/mutecomm/mute/mix/nymaddr"
+	"github.com/mutecomm/mute/mix/smtpclient"
 	"github.com/mutecomm/mute/msg"
 	mimeMsg "github.com/mutecomm/mute/msg/mime"
 	"github.com/mutecomm/mute/msgdb"
-	"github.com/mutecomm/mute/serviceguard/client"
 	"github.com/mutecomm/mute/uid/identity"
 	"github.com/mutecomm/mute/util"
 	"github.com/mutecomm/mute/util/times"
@@ -347,7 +347,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// Matching the error message string is not optimal, but the best
 			// available solution since the error results from calling another
 			// binary (muteproto).
-			if strings.HasSuffix(err.Error(), client.ErrFinal.Error()) {
+			if strings.HasSuffix(err.Error(), smtpclient.ErrFinal.Error()) {
 				log.Debug("retract")
 				if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
 					return err
diff --git a/protoengine/deliver.go b/protoengine/deliver.go
index 0b3349f..98fee57 100644
--- a/protoengine/deliver.go
+++ b/protoengine/deliver.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/mix/client"
+	"github.com/mutecomm/mute/mix/smtpclient"
 )
 
 func (pe *ProtoEngine) deliver(statusfp io.Writer, r io.Reader) error {
@@ -31,7 +32,8 @@ func (pe *ProtoEngine) deliver(statusfp io.Writer, r io.Reader) error {
 			fmt.Fprintf(statusfp, "RESEND:\t%s\n", err.Error())
 			return nil
 		}
-		return log.Error(err)
+		// the caller recognizes the suffix
+		return log.Errorf("%s: %s", err, smtpclient.ErrFinal)
 	}
 	return nil
 }
-- 
2.43.0


From 2d591d80a85d9ef4972255660ed2939d6a8fad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 56/64] fix: ctrlengine: contact list reports errors

---
 ctrlengine/contact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 99c4d7e..a169e49 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -226,7 +226,7 @@ func get(outfp io.Writer, msgDB *msgdb.MsgDB, id string, blocked bool) error {
 	// get list of mapped contacts
 	contacts, err := msgDB.GetContacts(id, blocked)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// print list
-- 
2.43.0


From 0d5556e836d655aab2d8ac0aef1b09b9cfe20390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:19 +0000
Subject: [PATCH 57/64] fix: ctrlengine: finish interrupted account payments

If the reply to the payment for an account was lost or the program was
stopped before the token was deleted, the used up token stayed in the
wallet, and every further payment failed with it.
---
 ctrlengine/upkeep.go | 79 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index 77ca977..1199eb8 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -335,6 +335,64 @@ func (ce *CtrlEngine) upkeepUpdate(
 	return errExit
 }
 
+// pendingPayment is the payment for an account which is being made.
+type pendingPayment struct {
+	ID        string // mapped ID of the account (self)
+	Contact   string // mapped ID of the account (peer)
+	TokenHash []byte // the token
+	LoadTime  int64  // load time of the account before the payment
+}
+
+const pendingPaymentKey = "PendingPayment"
+
+func (ce *CtrlEngine) setPendingPayment(p *pendingPayment) error {
+	jsn, err := json.Marshal(p)
+	if err != nil {
+		return log.Error(err)
+	}
+	return ce.msgDB.AddValue(pendingPaymentKey, string(jsn))
+}
+
+// resolvePendingPayment finishes a payment which was interrupted: the server
+// might have accepted it, then the token is used up.
+func (ce *CtrlEngine) resolvePendingPayment() error {
+	jsn, err := ce.msgDB.GetValue(pendingPaymentKey)
+	if err != nil || jsn == "" {
+		return err
+	}
+	var p pendingPayment
+	if err := json.Unmarshal([]byte(jsn), &p); err != nil {
+		return log.Error(err)
+	}
+	if len(p.TokenHash) == 0 {
+		return nil
+	}
+	unmappedID, _, err := ce.msgDB.GetNym(p.ID)
+	if err != nil {
+		return err
+	}
+	if unmappedID != "" { // otherwise the account has been deleted
+		privkey, server, _, _, _, _, err := ce.msgDB.GetAccount(p.ID, p.Contact)
+		if err != nil {
+			return err
+		}
+		loadTime, err := mixclient.AccountStat(privkey, server, def.CACert)
+		if err != nil {
+			return err
+		}
+		if loadTime > p.LoadTime {
+			if err := ce.client.DelToken(p.TokenHash); err != nil {
+				return log.Error(err)
+			}
+			err := ce.msgDB.SetAccountTime(p.ID, p.Contact, loadTime)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return ce.setPendingPayment(new(pendingPayment))
+}
+
 func (ce *CtrlEngine) upkeepAccounts(
 	unmappedID, period, remaining string,
 	statfp io.Writer,
@@ -362,6 +420,10 @@ func (ce *CtrlEngine) upkeepAccounts(
 		return err
 	}
 
+	if err := ce.resolvePendingPayment(); err != nil {
+		return err
+	}
+
 	contacts, err := ce.msgDB.GetAccounts(mappedID)
 	if err != nil {
 		return err
@@ -391,12 +453,24 @@ func (ce *CtrlEngine) upkeepAccounts(
 			if err != nil {
 				return err
 			}
+			err = ce.setPendingPayment(&pendingPayment{
+				ID:        mappedID,
+				Contact:   contact,
+				TokenHash: token.Hash,
+				LoadTime:  last,
+			})
+			if err != nil {
+				ce.client.UnlockToken(token.Hash)
+				return err
+			}
 			_, err = mixclient.PayAccount(privkey, token.Token, server, def.CACert)
 			if err != nil {
 				ce.client.UnlockToken(token.Hash)
 				return log.Error(err)
 			}
-			ce.client.DelToken(token.Hash)
+			if err := ce.client.DelToken(token.Hash); err != nil {
+				return log.Error(err)
+			}
 			last, err = mixclient.AccountStat(privkey, server, def.CACert)
 			if err != nil {
 				return err
@@ -405,6 +479,9 @@ func (ce *CtrlEngine) upkeepAccounts(
 			if err != nil {
 				return err
 			}
+			if err := ce.setPendingPayment(new(pendingPayment)); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 557968f3f74b5d8668e5661e879740ab54d0a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 58/64] fix: keydir: write key files atomically

An interrupted write left a torn key file behind, and loading the key
directory failed from then on.
---
 .../common/keypool/keydir/filestorage.go      | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/keypool/keydir/filestorage.go b/serviceguard/common/keypool/keydir/filestorage.go
index 635d8ff..4fee948 100644
--- a/serviceguard/common/keypool/keydir/filestorage.go
+++ b/serviceguard/common/keypool/keydir/filestorage.go
@@ -15,6 +15,9 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 )
 
+// keySuffix is the suffix of the name of a key file
+const keySuffix = ".pubkey"
+
 // Add adds keydir storage to a keypool
 func Add(kp *keypool.KeyPool, keyDir string) error {
 	err := os.MkdirAll(keyDir, 0700)
@@ -28,12 +31,26 @@ func Add(kp *keypool.KeyPool, keyDir string) error {
 // writeKeyToDir returns a callback that writes key to the keydir
 func writeKeyToDir(keyDir string) keypool.WriteKeyCallbackFunc {
 	return func(keyid []byte, usage string, marshalledKey []byte) error {
-		// Write key to file in keyDir
-		err := ioutil.WriteFile(filepath.Join(keyDir, fmt.Sprintf("%x.pubkey", keyid)), marshalledKey, 0600)
+		// Write key to file in keyDir. A key file is complete or it does not
+		// exist, also if writing it is interrupted.
+		f, err := ioutil.TempFile(keyDir, "tmp")
 		if err != nil {
 			return err
 		}
-		return nil
+		_, err = f.Write(marshalledKey)
+		if err == nil {
+			err = f.Sync()
+		}
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+		if err == nil {
+			err = os.Rename(f.Name(), filepath.Join(keyDir, fmt.Sprintf("%x%s", keyid, keySuffix)))
+		}
+		if err != nil {
+			os.Remove(f.Name())
+		}
+		return err
 	}
 }
 
@@ -45,6 +62,9 @@ func loadKeysFromDir(keyDir string) keypool.LoadKeysCallbackFunc {
 			return err
 		}
 		for _, file := range files {
+			if filepath.Ext(file.Name()) != keySuffix {
+				continue // e.g., left by an interrupted write
+			}
 			d, err := ioutil.ReadFile(filepath.Join(keyDir, file.Name()))
 			if err != nil {
 				return err
-- 
2.43.0


From e527f370d8b34567b534704768981bcc9a1878e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:25 +0000
Subject: [PATCH 59/64] fix: ctrlengine: db vacuum passed a flag which
 mutecrypt does not have

---
 ctrlengine/db.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..ecddbf5 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -335,20 +335,13 @@ func (ce *CtrlEngine) dbStatus(c *cli.Context, w io.Writer) error {
 	return nil
 }
 
-func mutecryptDBVacuum(
-	c *cli.Context,
-	passphrase []byte,
-	autoVacuumMode string,
-) error {
+func mutecryptDBVacuum(c *cli.Context, passphrase []byte) error {
 	args := []string{
 		"--homedir", c.GlobalString("homedir"),
 		"--loglevel", c.GlobalString("loglevel"),
 		"--logdir", c.GlobalString("logdir"),
 		"db", "vacuum",
 	}
-	if autoVacuumMode != "" {
-		args = append(args, "--auto-vacuum", autoVacuumMode)
-	}
 	cmd := exec.Command("mutecrypt", args...)
 	var errbuf bytes.Buffer
 	cmd.Stderr = &errbuf
@@ -373,7 +366,7 @@ func (ce *CtrlEngine) dbVacuum(c *cli.Context, autoVacuumMode string) error {
 	if err := ce.msgDB.Vacuum(autoVacuumMode); err != nil {
 		return err
 	}
-	if err := mutecryptDBVacuum(c, ce.passphrase, autoVacuumMode); err != nil {
+	if err := mutecryptDBVacuum(c, ce.passphrase); err != nil {
 		return log.Error(err)
 	}
 	return nil
-- 
2.43.0


From bc124edd827ac20ce88c2536590f8fca15422e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:36 +0000
Subject: [PATCH 60/64] fix: ctrlengine: a repeated db rekey completes an
 interrupted one

---
 ctrlengine/db.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index ecddbf5..fd702e5 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -285,8 +285,18 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	}
 	// rekey msgDB
 	log.Infof("rekey msgDB '%s'", msgdbname)
-	if err := msgdb.Rekey(msgdbname, oldPassphrase, newPassphrase, c.Int("iterations")); err != nil {
-		return err
+	err = msgdb.Rekey(msgdbname, oldPassphrase, newPassphrase, c.Int("iterations"))
+	if err != nil {
+		// an interrupted rekey could already have changed the passphrase of
+		// msgDB, but not the one of keyDB
+		msgDB, oerr := msgdb.Open(msgdbname, newPassphrase)
+		if oerr != nil {
+			return err
+		}
+		if err := msgDB.Close(); err != nil {
+			return err
+		}
+		log.Info("msgDB has been rekeyed already")
 	}
 	// rekey keyDB
 	log.Info("rekey keyDB")
-- 
2.43.0


From 09568bf6f617e017d81d24d5c3de44f4e6015cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:02 +0000
Subject: [PATCH 61/64] fix: mix/client: pay an account at its own account
 server

---
 mix/client/accountrpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..437a146 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
-- 
2.43.0


From 5864861de4bae6a0f30300555495e1b95a0fd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:02 +0000
Subject: [PATCH 62/64] fix: mix/client: a malformed list entry neither panics
 nor passes for the end of the list

---
 mix/client/accountrpc.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 437a146..e3140f1 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -252,8 +252,11 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
-
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				err = ErrProto
+				break
+			}
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
 				err = ErrProto
@@ -274,7 +277,8 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				err = ErrProto
 				break
 			}
-			uk, err := hex.DecodeString(uks)
+			var uk []byte
+			uk, err = hex.DecodeString(uks)
 			if err != nil {
 				break
 			}
@@ -286,7 +290,8 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				err = ErrProto
 				break
 			}
-			mi, err := hex.DecodeString(mis)
+			var mi []byte
+			mi, err = hex.DecodeString(mis)
 			if err != nil {
 				break
 			}
-- 
2.43.0


From df35f2b5e2c8705924ca5f06c42763a1c6809737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:05 +0000
Subject: [PATCH 63/64] fix: ctrlengine: a message with an expired nym address
 does not hold up the messages behind it

---
 ctrlengine/msg.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 326a8df..9a57513 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -305,6 +305,15 @@ func (ce *CtrlEngine) procOutQueue(
 				return log.Error(err)
 			}
 			addr, err := nymaddr.ParseAddress(na)
+			if err == nymaddr.ErrExpired {
+				// This message has to wait for a new nym address of the
+				// recipient, it must not hold up the messages behind it.
+				log.Warnf("ctrlengine: %s", err)
+				if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
+					return err
+				}
+				continue
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a331c5bfcfa7ff488d64585a6b078a4fbce6376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:28 +0000
Subject: [PATCH 64/64] fix: serviceguard/client: expired tokens in the wallet
 are not handed out and do not stand in the way

---
 serviceguard/client/clientlib.go         |  2 ++
 serviceguard/client/walletstore/store.go | 16 ++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 2b61ba8..1c5ef6a 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -172,6 +172,8 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 		if owner == nil { // We can only get new tokens if we know the recipient
 			return nil, ErrNeedReissue
 		}
+		// The runner may not be running, expired tokens must not pile up
+		c.walletStore.ExpireUnusable()
 		// Finish an interrupted reissue, it may yield the token we need
 		if reissueTokenHash := c.walletStore.GetInReissue(); reissueTokenHash != nil {
 			if _, err := c.ReissueToken(reissueTokenHash, nil); err == nil {
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index b618dee..e9365ae 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -58,9 +58,9 @@ CREATE TABLE IF NOT EXISTS walletState (
 	deleteTokenQuery    = "DELETE FROM walletTokens WHERE Hash=?;"
 	deleteStateQuery    = "DELETE FROM walletState WHERE Hash=?;"
 	getStateQuery       = `SELECT Hash, State FROM walletState WHERE Hash=?;`
-	findTokenSelfQuery  = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;`
-	findTokenOwnerQuery = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND OwnerPubKey=? AND UsageStr=? ORDER BY Expire ASC LIMIT 1;`
-	findTokenAnyQuery   = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;`
+	findTokenSelfQuery  = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=? AND Expire>? ORDER BY Expire ASC LIMIT 1;`
+	findTokenOwnerQuery = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND OwnerPubKey=? AND UsageStr=? AND Expire>? ORDER BY Expire ASC LIMIT 1;`
+	findTokenAnyQuery   = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? AND Expire>? ORDER BY Expire ASC LIMIT 1;`
 	getExpireQuery      = `SELECT Hash FROM walletTokens WHERE LockID=0 AND Renewable=1 AND HasState=0 AND HasParams=0 AND OwnedSelf=1 AND Expire<? ORDER BY Expire ASC LIMIT 1;`
 	getReissueQuery     = `SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=1 ORDER BY Expire ASC LIMIT 1;`
 	countOwnQuery       = `SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=?;`
@@ -484,12 +484,12 @@ LookupLoop:
 func (ws *Storage) getAndLockToken(usage string, owner *[ed25519.PublicKeySize]byte) (*client.TokenEntry, error) {
 	var hashS string
 	var err error
-	// Find only those that are not owned by self
+	// Find only those that are not owned by self and have not expired
 	if owner != nil {
 		ownerS := base64.StdEncoding.EncodeToString(owner[:])
-		err = ws.findTokenOwnerQuery.QueryRow(ownerS, usage).Scan(&hashS)
+		err = ws.findTokenOwnerQuery.QueryRow(ownerS, usage, times.Now()).Scan(&hashS)
 	} else {
-		err = ws.findTokenAnyQuery.QueryRow(usage).Scan(&hashS)
+		err = ws.findTokenAnyQuery.QueryRow(usage, times.Now()).Scan(&hashS)
 	}
 	if err != nil {
 		return nil, client.ErrNoToken
@@ -511,9 +511,9 @@ func (ws *Storage) getAndLockToken(usage string, owner *[ed25519.PublicKeySize]b
 
 // FindToken finds a token owned by self that has usage set
 func (ws *Storage) FindToken(usage string) (*client.TokenEntry, error) {
-	// Find only those that ARE owned by self
+	// Find only those that ARE owned by self and have not expired
 	var Hash string
-	err := ws.findTokenSelfQuery.QueryRow(usage).Scan(&Hash)
+	err := ws.findTokenSelfQuery.QueryRow(usage, times.Now()).Scan(&Hash)
 	if err != nil {
 		return nil, client.ErrNoToken
 	}
-- 
2.43.0

