From 9f252dfbb74dfd83ca2d6f09e87c46fa9108f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 01/24] fix: AES-CBC helpers reject malformed input and leave
 the caller's buffers untouched

DecryptCbc and Decrypt panicked on a ciphertext that is not a multiple of the
block size or on a wrong IV length, accepted invalid padding, decrypted in
place (destroying the caller's ciphertext), and pad() wrote the padding into
spare capacity of the caller's plaintext.
---
 cipher/cbc.go    | 31 ++++++++++++++++++++++++++++---
 cipher/cipher.go | 16 ++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..52772cd 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,10 +42,20 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv length is not the block size: %d / %d", len(iv), aes.BlockSize)
+	}
+
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
+	// Decrypt into a new slice, so the caller's ciphertext is left as it was.
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -63,6 +73,10 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if iv != nil && len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv length is not the block size: %d / %d", len(iv), aes.BlockSize)
+	}
+
 	var ciphertext []byte
 	if iv == nil {
 		ciphertext = make([]byte, aes.BlockSize+len(plaintext))
@@ -86,7 +100,8 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	// Cap the slice, so append never writes into the caller's backing array.
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
@@ -97,5 +112,15 @@ func unpad(src []byte) ([]byte, error) {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
 
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("invalid padding length: %d", padLen)
+	}
+
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("invalid padding byte")
+		}
+	}
+
 	return src[:(length - padLen)], nil
 }
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..91280f0 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,19 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv length is not the block size")
+	}
+
+	// Decrypt into a new slice, so the caller's ciphertext is left as it was.
+	paddedText := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(paddedText, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(paddedText, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -40,6 +49,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv length is not the block size")
+	}
 	ciphertext := make([]byte, len(paddedText))
 	mode := cipher.NewCBCEncrypter(block, iv)
 	mode.CryptBlocks(ciphertext, paddedText)
-- 
2.43.0


From 1600b46364a2603c7d8c135ebb0dcb4c3469da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 02/24] fix: DecodePoint rejects input shorter than a
 serialized key instead of panicking

---
 ecc/curve.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..fb33d19 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -4,6 +4,7 @@ import (
 	"crypto/rand"
 	"errors"
 	"io"
+	"strconv"
 
 	"github.com/RadicalApp/complete"
 	"golang.org/x/crypto/curve25519"
@@ -18,6 +19,9 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || len(bytes)-offset < KeySize {
+		return nil, errors.New("Bad key length: " + strconv.Itoa(len(bytes)))
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From f441e37b064eda23b1cdd3998b3e60d33770933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 03/24] fix: protobuf deserializers reject empty input instead
 of panicking

---
 serialize/proto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..2912dac 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("prekey signal message is empty")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -178,6 +182,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("senderkey distribution message is empty")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From 50324d1e785d2759df38620ecd72c4900ca74fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 04/24] fix: sessions can be built without a one-time prekey,
 and with the last resort prekey

Serializing a prekey message without a one-time prekey ID dereferenced nil,
parsing one turned the absent ID into ID 0, and a receiver crashed on the nil
ID returned for messages with no one-time prekey or the last resort prekey.
---
 serialize/proto.go | 7 +++++--
 session/session.go | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index 2912dac..f5dd590 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -114,7 +114,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -149,7 +149,10 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+		PreKeyID:       optional.NewEmptyUint32(),
+	}
+	if sm.PreKeyId != nil {
+		preKeySignalMessage.PreKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
 	}
 
 	return &preKeySignalMessage, nil
diff --git a/session/session.go b/session/session.go
index 418b8a9..2f9ee3b 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -169,7 +169,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From 134d9426b7f8f6a2488d1c2bffd3121c53df72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 05/24] fix: prekey records loaded from storage have the public
 key that was stored

The stored form has a leading type byte; it was copied into the key without
removing it, so a reloaded record had a public key shifted by one byte.
---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 65151f4a65568e63983341bd96406d450211e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/24] fix: a failed decryption attempt no longer changes
 session states, and a promoted state leaves the archive

Trying a message against a state advanced that state's chains before its MAC
was checked, so a state that rejected the message was corrupted and saved when
another state accepted it. The promoted state was only removed from a local
slice, so a stale copy that accepts replays stayed in the archive.
---
 session/cipher.go             | 12 +++++++-----
 state/record/session.go       | 12 ++++++++++++
 state/record/state_chain.go   |  8 ++++++++
 state/record/state_session.go | 15 +++++++++++++++
 4 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..7564d50 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -200,24 +200,26 @@ func (d *Cipher) DecryptWithKey(ciphertextMessage *protocol.SignalMessage, key *
 func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
 	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
 	previousStates := sessionRecord.PreviousSessionStates()
-	sessionState := sessionRecord.SessionState()
+	sessionState := sessionRecord.SessionState().Copy()
 
-	// Try and decrypt the message with the current session state.
+	// Try and decrypt the message with a copy of the current session state, so that
+	// a failed attempt changes nothing in the record.
 	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)
 
 	// If we received an error using the current session state, loop
 	// through all previous states.
 	if err != nil {
 		logger.Warning(err)
-		for i, state := range previousStates {
-			// Try decrypting the message with previous states
+		for _, previousState := range previousStates {
+			// Try decrypting the message with copies of the previous states
+			state := previousState.Copy()
 			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
 			if err != nil {
 				continue
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(previousState)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..fca0feb 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -126,6 +126,18 @@ func (r *Session) PreviousSessionStates() []*State {
 	return r.previousStates
 }
 
+// RemovePreviousState removes the given state from the list of "previous"
+// session states.
+func (r *Session) RemovePreviousState(state *State) {
+	for i := range r.previousStates {
+		if r.previousStates[i] == state {
+			previousStates := append([]*State{}, r.previousStates[:i]...)
+			r.previousStates = append(previousStates, r.previousStates[i+1:]...)
+			return
+		}
+	}
+}
+
 // HasSessionState will check this record to see if the sender's
 // base key exists in the current and previous states.
 func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..b0bff38 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -130,6 +130,14 @@ func (c *Chain) PopFirstMessageKeys() *message.Keys {
 	return removed
 }
 
+// copy returns a copy of the chain that can be changed without changing this one.
+func (c *Chain) copy() *Chain {
+	messageKeys := make([]*message.Keys, len(c.messageKeys))
+	copy(messageKeys, c.messageKeys)
+
+	return NewChain(c.senderRatchetKeyPair, c.chainKey, messageKeys)
+}
+
 // structure returns a serializeable structure of the chain state.
 func (c *Chain) structure() *ChainStructure {
 	// Alias to ArrayToSlice
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..33e6e04 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,21 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns a copy of the session state that can be changed without
+// changing this one.
+func (s *State) Copy() *State {
+	state := *s
+	if s.senderChain != nil {
+		state.senderChain = s.senderChain.copy()
+	}
+	state.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		state.receiverChains[i] = s.receiverChains[i].copy()
+	}
+
+	return &state
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From d2e02a7f118986914a7643154f0cf9c497f5bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 07/24] fix: a record that holds a session is not fresh, so a
 later session archives it

The fresh flag of a new record was never cleared. With a store that keeps the
record objects, building another session overwrote the current one in place
instead of archiving it, and mixed its chains with the new keys.
---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index fca0feb..50d1551 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -111,7 +111,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From b4610feb1a655e294c2e0bafeb817aeb8a629de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 08/24] fix: the previous counter of an unused chain is 0, not
 4294967295

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 7564d50..768de5e 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -341,7 +341,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From f2af71a25dd1c89282baa4ddc06540173da24634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 09/24] fix: a prekey message that fails to decrypt no longer
 changes the loaded session record

The new session was built in the record returned by the store before the
message was authenticated, so with a store that keeps the record objects a
forged prekey message replaced the sender's session.
---
 session/cipher.go       |  5 +++--
 state/record/session.go | 10 ++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 768de5e..cb8008a 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -165,8 +165,9 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
-	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load or create session record for this session. Work on a copy, so that a
+	// message that fails to decrypt changes nothing in the stored record.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
diff --git a/state/record/session.go b/state/record/session.go
index 50d1551..9c03edd 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -126,6 +126,16 @@ func (r *Session) PreviousSessionStates() []*State {
 	return r.previousStates
 }
 
+// Copy returns a copy of the session record that can be changed without
+// changing this one.
+func (r *Session) Copy() *Session {
+	session := *r
+	session.sessionState = r.sessionState.Copy()
+	session.previousStates = append([]*State{}, r.previousStates...)
+
+	return &session
+}
+
 // RemovePreviousState removes the given state from the list of "previous"
 // session states.
 func (r *Session) RemovePreviousState(state *State) {
-- 
2.43.0


From 49f39c2fd3a584a4f6c89e2704f9d2e0eaefc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 10/24] fix: encrypting for and decrypting from an untrusted
 identity fails

The result of the trust check was ignored, and the untrusted identity was then
saved over the trusted one.
---
 session/cipher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index cb8008a..86a1d54 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -118,10 +118,10 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 		}
 	}
 
-	sessionState.SetSenderChainKey(chainKey.NextKey())
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
-		// return err
+		return nil, errors.New(untrustedIdentityError)
 	}
+	sessionState.SetSenderChainKey(chainKey.NextKey())
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	return ciphertextMessage, nil
@@ -143,14 +143,14 @@ func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]
 	}
 
 	// Load the session record from our session store and decrypt the message.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
 
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
-		// return err
+		return nil, nil, errors.New(untrustedIdentityError)
 	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 
-- 
2.43.0


From f097dec30cf01f72daf5ef44b6a5a80d3ab741c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 11/24] fix: a prekey message's identity is saved only once the
 message is authenticated

The identity key was saved before the embedded message was decrypted, so an
unauthenticated message could set a contact's identity.
---
 session/cipher.go  | 10 +++++++++-
 session/session.go | 26 +++++++++++++++++---------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 86a1d54..d8b80bf 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -168,7 +168,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	// Load or create session record for this session. Work on a copy, so that a
 	// message that fails to decrypt changes nothing in the stored record.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
+	unsignedPreKeyID, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -176,6 +176,14 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+
+	// Check and save the identity key that the decrypted message was authenticated with.
+	remoteIdentityKey := sessionRecord.SessionState().RemoteIdentityKey()
+	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, remoteIdentityKey) {
+		return nil, nil, errors.New(untrustedIdentityError)
+	}
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, remoteIdentityKey)
+
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index 2f9ee3b..9b0b3c2 100644
--- a/session/session.go
+++ b/session/session.go
@@ -82,25 +82,33 @@ type Builder struct {
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
-	// Check to see if the keys are trusted.
-	theirIdentityKey := message.IdentityKey()
-	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-		return nil, errors.New(untrustedIdentityError)
-	}
-
-	// Use version 3 of the signal/axolotl protocol.
-	unsignedPreKeyID, err = b.processV3(sessionRecord, message)
+	unsignedPreKeyID, err = b.process(sessionRecord, message)
 	if err != nil {
 		return nil, err
 	}
 
 	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
+	b.identityKeyStore.SaveIdentity(b.remoteAddress, message.IdentityKey())
 
 	// Return the unsignedPreKeyID
 	return unsignedPreKeyID, nil
 }
 
+// process builds a new session from a session record and pre key signal
+// message, without saving the message's identity key: nothing in the message
+// is authenticated before the embedded SignalMessage is decrypted.
+func (b *Builder) process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
+
+	// Check to see if the keys are trusted.
+	theirIdentityKey := message.IdentityKey()
+	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
+		return nil, errors.New(untrustedIdentityError)
+	}
+
+	// Use version 3 of the signal/axolotl protocol.
+	return b.processV3(sessionRecord, message)
+}
+
 // ProcessV3 builds a new session from a session record and pre key
 // signal message. After a session is constructed in this way, the embedded
 // SignalMessage can be decrypted.
-- 
2.43.0


From c22f6a47e64b8dcd58f3f1784f126fa4c33614c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 12/24] fix: group ciphers report a missing sender key or a
 receive-only one instead of panicking

A store with no record returns nil, which was dereferenced. Encrypting with a
record built from another member's distribution message panicked, or signed
with an all-zero key once the record had been reloaded from storage.
---
 groups/cipher.go                        | 10 +++++++++-
 groups/state/record/sender_key.go       |  1 +
 groups/state/record/state_sender_key.go |  5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..a4dbb92 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,11 +37,19 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
 	}
 
+	// A state built from another member's distribution message can't send.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
@@ -73,7 +81,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..8f7d8ed 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 92f7054b237943627edd361c4a2551b4445826da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/24] fix: loading an incomplete record from storage returns
 an error instead of panicking

---
 groups/state/record/state_sender_key.go | 9 +++++++++
 state/record/session.go                 | 5 +++++
 state/record/state_chain.go             | 9 +++++++++
 state/record/state_session.go           | 9 +++++++++
 4 files changed, 32 insertions(+)

diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 8f7d8ed..ffdd542 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -62,6 +64,10 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	if structure == nil || structure.SenderChainKey == nil {
+		return nil, errors.New("sender key state structure is missing")
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
@@ -75,6 +81,9 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
 	for i := range structure.Keys {
+		if structure.Keys[i] == nil {
+			return nil, errors.New("sender message key structure is missing")
+		}
 		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(structure.Keys[i])
 	}
 
diff --git a/state/record/session.go b/state/record/session.go
index 9c03edd..4b02dea 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -2,6 +2,7 @@ package record
 
 import (
 	"bytes"
+	"errors"
 )
 
 // archivedStatesMaxLength describes how many previous session
@@ -46,6 +47,10 @@ func NewSession(serializer SessionSerializer, stateSerializer StateSerializer) *
 func NewSessionFromStructure(structure *SessionStructure, serializer SessionSerializer,
 	stateSerializer StateSerializer) (*Session, error) {
 
+	if structure == nil {
+		return nil, errors.New("session structure is missing")
+	}
+
 	// Build our previous states from structure.
 	previousStates := make([]*State, len(structure.PreviousStates))
 	for i := range structure.PreviousStates {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index b0bff38..58d62fa 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -36,6 +38,10 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	if structure == nil || structure.ChainKey == nil {
+		return nil, errors.New("chain structure is missing")
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
@@ -53,6 +59,9 @@ func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
 	// Build our message keys from the message key structures.
 	messageKeys := make([]*message.Keys, len(structure.MessageKeys))
 	for i := range structure.MessageKeys {
+		if structure.MessageKeys[i] == nil {
+			return nil, errors.New("message keys structure is missing")
+		}
 		messageKeys[i] = message.NewKeysFromStruct(structure.MessageKeys[i])
 	}
 
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 33e6e04..78dc03c 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	stderrors "errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -44,6 +46,10 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	if structure == nil {
+		return nil, stderrors.New("session state structure is missing")
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
@@ -61,6 +67,9 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 	}
 	senderChain, err := NewChainFromStructure(structure.SenderChain)
 	errors.Add(err)
+	if err == nil && senderChain.senderRatchetKeyPair.PrivateKey() == nil {
+		errors.Add(stderrors.New("private key of the sender chain is missing"))
+	}
 
 	// Build our receiver chains from structure.
 	receiverChains := make([]*Chain, len(structure.ReceiverChains))
-- 
2.43.0


From aff1c779b03ae5c6f0e1e33f83e5909647e20036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 14/24] fix: the symmetric session roles are decided by the
 whole base keys

Only the type byte and the first three key bytes were compared. With equal
prefixes both sides acted as the receiver and derived different secrets.
---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From 873e4bab32eaf13ad58ee0135a1c2b6334ee98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 15/24] fix: provisioning rejects malformed envelopes instead
 of panicking

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..edaf1ae 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage is too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From 497fe21079602e5d933e1778fbb205302a13cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 16/24] fix: the default logger is set up before use, not by
 the first log call

Goroutines with independent sessions raced to initialise the shared logger.
---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index e3a85ae..f98ab9b 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -9,7 +9,7 @@ import (
 )
 
 // Logger is a shared loggable interface that this library will use for all log messages.
-var Logger Loggable
+var Logger Loggable = &defaultLogger{namespaces: []string{"all"}}
 
 // Loggable is an interface for logging.
 type Loggable interface {
-- 
2.43.0


From 69e0a34c35171ac0e6d6dac762581cf680842020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 17/24] fix: the last resort prekey has the ID that sessions
 treat as last resort

It had ID 0, an ordinary one-time prekey ID, so it was deleted on first use.
---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From a735b4bbe20a8f4c36c9eab9ee3e95589273718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 18/24] fix: an unknown signed prekey or a missing session is
 an error, not a nil dereference

---
 session/cipher.go  | 3 +++
 session/session.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index d8b80bf..f591e91 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
diff --git a/session/session.go b/session/session.go
index 9b0b3c2..ba34d0e 100644
--- a/session/session.go
+++ b/session/session.go
@@ -128,6 +128,9 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		return nil, errors.New(noSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 57b468621407224080bdbb5d49a14a7d1db47479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 19/24] fix: a bundle that fails to process no longer drops the
 peer's current session

---
 session/session.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/session/session.go b/session/session.go
index ba34d0e..27bd317 100644
--- a/session/session.go
+++ b/session/session.go
@@ -204,8 +204,9 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return errors.New(invalidSignatureError)
 	}
 
-	// Load our session and generate keys.
-	sessionRecord := b.sessionStore.LoadSession(b.remoteAddress)
+	// Load our session and generate keys. Work on a copy, so that a failure
+	// below does not leave the stored record without its current session.
+	sessionRecord := b.sessionStore.LoadSession(b.remoteAddress).Copy()
 	ourBaseKey, err := ecc.GenerateKeyPair()
 	if err != nil {
 		return err
-- 
2.43.0


From a9a7dd9c98327b039afbdc01ef579c18280ef960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 20/24] fix: PKCS#7 padding longer than a block is refused

---
 cipher/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/cipher.go b/cipher/cipher.go
index 91280f0..7131784 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -105,7 +105,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > blocksize {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 2483981088fd61e5f6b08f7a36f685eb94d821d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 21/24] fix: an opening message with an equivalent of a known
 base key is no longer read again

---
 ecc/curve.go       | 27 +++++++++++++++++++++++++++
 session/session.go |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index fb33d19..09bc241 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -34,6 +34,33 @@ func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
 	}
 }
 
+// minusOne is -1 modulo the order of the curve's base point, as a multiple of the
+// cofactor with the form of a private key.
+var minusOne = [32]byte{
+	0xa0, 0x23, 0xcd, 0xd0, 0x83, 0xef, 0x5b, 0xb8,
+	0x2f, 0x10, 0xd6, 0x2e, 0x59, 0xe1, 0x5a, 0x68,
+	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x50,
+}
+
+// IsCanonical returns true if the given public key is in canonical form: its
+// encoding is the reduced one and its point has no part of small order. All
+// generated keys are canonical, and no two canonical keys share their secrets.
+func IsCanonical(key ECPublicKeyable) bool {
+	publicKey := key.PublicKey()
+
+	// The point of order two has a reduced encoding as well.
+	if publicKey == [32]byte{} {
+		return false
+	}
+
+	// Multiplying by -1 keeps the coordinate of such a point, and of no other.
+	var product [32]byte
+	curve25519.ScalarMult(&product, &minusOne, &publicKey)
+
+	return product == publicKey
+}
+
 func CreateKeyPair(privateKey []byte) *ECKeyPair {
 	var private, public [32]byte
 	copy(private[:], privateKey)
diff --git a/session/session.go b/session/session.go
index 27bd317..c6c6b88 100644
--- a/session/session.go
+++ b/session/session.go
@@ -21,6 +21,7 @@ const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
+const invalidBaseKeyError string = "Invalid base key!"
 
 // NewBuilder constructs a session builder.
 func NewBuilder(sessionStore store.Session, preKeyStore store.PreKey,
@@ -126,6 +127,11 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 		return optional.NewEmptyUint32(), nil
 	}
 
+	// The base key tells sessions apart, so it must not have equivalents.
+	if !ecc.IsCanonical(message.BaseKey()) {
+		return nil, errors.New(invalidBaseKeyError)
+	}
+
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
 	if ourSignedPreKeyRecord == nil {
-- 
2.43.0


From a3c5f3779592769376521e341fab06b07abd8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 22/24] fix: an opening message is read only with the session
 that its base key names

---
 session/cipher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index f591e91..6e63022 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"errors"
 	"strconv"
 
@@ -180,6 +181,11 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 		return nil, nil, err
 	}
 
+	// The message must belong to the session its base key names.
+	if !bytes.Equal(sessionRecord.SessionState().SenderBaseKey(), ciphertextMessage.BaseKey().Serialize()) {
+		return nil, nil, errors.New(invalidBaseKeyError)
+	}
+
 	// Check and save the identity key that the decrypted message was authenticated with.
 	remoteIdentityKey := sessionRecord.SessionState().RemoteIdentityKey()
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, remoteIdentityKey) {
-- 
2.43.0


From f1255c4fa5c6805611635e144390c346e5d90800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 23/24] fix: refuse opening messages of another version, which
 set up their session again

---
 session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/session.go b/session/session.go
index c6c6b88..b0d12be 100644
--- a/session/session.go
+++ b/session/session.go
@@ -22,6 +22,7 @@ const noSignedPreKeyError string = "No signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 const invalidBaseKeyError string = "Invalid base key!"
+const wrongVersionError string = "Wrong message version!"
 
 // NewBuilder constructs a session builder.
 func NewBuilder(sessionStore store.Session, preKeyStore store.PreKey,
@@ -117,6 +118,12 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
 	logger.Debug("Processing message with PreKeyID: ", message.PreKeyID())
+	// Sessions are only built with the current version. A message of another
+	// version must not hide that its session has already been set up.
+	if message.MessageVersion() != protocol.CurrentVersion {
+		return nil, errors.New(wrongVersionError)
+	}
+
 	// Check to see if we've already set up a session for this V3 message.
 	sessionExists := sessionRecord.HasSessionState(
 		message.MessageVersion(),
-- 
2.43.0


From bd6df2087743c99753ef134028f84c24473def55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:57 +0000
Subject: [PATCH 24/24] fix: the chain key of a key description does not share
 memory with stored records

---
 protocol/sender_key_distribution_message.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/sender_key_distribution_message.go b/protocol/sender_key_distribution_message.go
index 0975af3..080db15 100644
--- a/protocol/sender_key_distribution_message.go
+++ b/protocol/sender_key_distribution_message.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
+	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
 )
 
 // SenderKeyDistributionMessageSerializer is an interface for serializing and deserializing
@@ -123,7 +124,7 @@ func (p *SenderKeyDistributionMessage) Iteration() uint32 {
 
 // ChainKey will return the message's chain key in bytes.
 func (p *SenderKeyDistributionMessage) ChainKey() []byte {
-	return p.chainKey
+	return bytehelper.CopySlice(p.chainKey)
 }
 
 // SignatureKey will return the message's signature public key
-- 
2.43.0

