From 0d81a7c44e1081280765f7b453e169b63eb83909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 01/14] fix: derive AES192 keys with 24 bytes

---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..f7c5190 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,7 +138,8 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	// AES192 keys take only a part of the last block
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From 3bfdaa351cfedafb3890232d14f199c7c50c6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 02/14] fix: report exhausted AES counters and short serial
 numbers, keep the caller's serial number

---
 pkg/util.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..da941a6 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -52,7 +52,11 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
-	if tc > tcMax {
+	if len(ksn) < 12 {
+		return nil, errors.New("key serial number is too short")
+	}
+
+	if tc >= tcMax {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
@@ -76,8 +80,8 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
-	return result, nil
+	result := append([]byte(nil), ksn[:8]...)
+	return append(result, tcMsb...), nil
 }
 
 func GetDesTcFromKsn(ksn []byte) uint32 {
-- 
2.43.0


From 24f4ef469d25ac5ef2b34900391507befd814cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 03/14] fix: report short TDES serial numbers and keep the
 caller's serial number

---
 pkg/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index da941a6..5187095 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -99,6 +99,10 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
+	if len(ksn) < 4 {
+		return nil, errors.New("key serial number is too short")
+	}
+
 	if tc > tcMax {
 		return nil, errors.New("transaction already counter exhausted")
 	}
@@ -126,6 +130,7 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 	}
 
 	{
+		ksn = append([]byte(nil), ksn...)
 		length := len(ksn)
 		ksn[length-1] = byte(tc)
 		ksn[length-2] = byte(tc >> 8)
-- 
2.43.0


From e0098f7a084f8b0af654e403cd19fe96a188e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 04/14] fix: treat TDES initial vectors of any length alike in
 encryption and decryption

---
 pkg/des/des.go          | 21 ++-------------------
 pkg/des/des_internal.go |  9 +++++++++
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..46973e8 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -311,15 +311,7 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
-
-	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), serializeInitialVector(iv))
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -382,16 +374,7 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
-
-	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), serializeInitialVector(iv))
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..b559236 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -28,6 +28,15 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 	return ksnBytes
 }
 
+// Initial vector of one block: null if it is missing, padded with zero bytes
+// to the right if it is short, and truncated if it is long.
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, desBlockLen)
+	copy(ivBytes, iv)
+
+	return ivBytes
+}
+
 // Extract transaction counter value from KSN. The transaction counter is the last 21 bits of the KSN.
 func removeTransactionCounter(ksn []byte) {
 	if len(ksn) != keySerialLen {
-- 
2.43.0


From 58dfee8f6d5eab394c6928bf3ec4ba1d14027119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 05/14] fix: accept AES initial vectors of any length and keep
 the caller's vector

---
 pkg/aes/aes.go          | 23 ++---------------------
 pkg/aes/aes_internal.go |  9 +++++++++
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..a11fd7d 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -322,14 +322,6 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
-
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
 		repeatCnt++
@@ -344,7 +336,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCEncrypter(block, iv)
+	mode := cipher.NewCBCEncrypter(block, serializeInitialVector(iv))
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -390,17 +382,6 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
-
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
 		repeatCnt++
@@ -415,7 +396,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCDecrypter(block, iv)
+	mode := cipher.NewCBCDecrypter(block, serializeInitialVector(iv))
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index f7c5190..db7c2d8 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -248,6 +248,15 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 	return nil
 }
 
+// Initial vector of one block: null if it is missing, padded with zero bytes
+// to the right if it is short, and truncated if it is long.
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, aes.BlockSize)
+	copy(ivBytes, iv)
+
+	return ivBytes
+}
+
 func generateDerivationKey(params derivationParams) ([]byte, error) {
 	tc := pkg.GetAesTcFromKsn(params.Ksn)
 	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)
-- 
2.43.0


From 05398183ac91ef3304c695085cd18965e01bc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 06/14] fix: report short AES serial numbers and keep the
 caller's serial number

---
 pkg/aes/aes.go          | 2 +-
 pkg/aes/aes_internal.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index a11fd7d..4f0ece2 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -45,7 +45,7 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
+	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index db7c2d8..06f856d 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -181,6 +181,10 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 		return nil, errors.New("unsupported key type")
 	}
 
+	if len(initialKeyID) < initialKeyIdLength {
+		return nil, errors.New("key serial number is too short")
+	}
+
 	switch keyUsage {
 	case usageForKeyInitialKey:
 		data.InitialKeyID = make([]byte, initialKeyIdLength)
@@ -188,7 +192,8 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		data.InitialKeyID = append([]byte(nil), initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
+		data.InitialKeyID = append(data.InitialKeyID, tcBuf...)
 	}
 
 	return &data, nil
-- 
2.43.0


From 9dec830b98d2dd13db5a1c69e2ca6ed0571265e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 07/14] fix: refuse TDES keys that are not 16 bytes long

---
 pkg/des/des.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 46973e8..f7d169d 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -66,6 +66,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +199,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +278,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -334,6 +346,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
-- 
2.43.0


From 31dc9d7fd33e9c99b7b748479865ced3e43a500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 08/14] fix: decrypt VISA3 PIN blocks

---
 pkg/des/des.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index f7d169d..bda1ab2 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -176,7 +176,8 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	// VISA3 blocks are read up to an upper-case end marker
+	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 9152c0969bb79ffb36f50f60f313642dbfd9d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 09/14] fix: report undecodable PIN blocks as an error

---
 pkg/des/des.go          |  2 +-
 pkg/des/des_internal.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index bda1ab2..9103e80 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -177,7 +177,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 	}
 
 	// VISA3 blocks are read up to an upper-case end marker
-	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
+	pinstr, err := decodePinblock(formatter, strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index b559236..a46af42 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -3,8 +3,10 @@ package des
 import (
 	"bytes"
 	"crypto/des" //nolint:gosec
+	"errors"
 	"fmt"
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -148,3 +150,14 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 
 	return cipher.Decrypt(ciphertext)
 }
+
+// The formatter panics on blocks whose PIN length goes beyond the block.
+func decodePinblock(formatter formats.Format, pinBlock, pan string) (pin string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			pin, err = "", errors.New("invalid pin block")
+		}
+	}()
+
+	return formatter.Decode(pinBlock, pan)
+}
-- 
2.43.0


From dcbb70af85b8e5172d0e7f3acfb3c1f803f5287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 10/14] fix: decrypt in the decrypt_pin and decrypt_data
 endpoints

---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From 33d4dfecc8d013e38175dd598cde1e1728786073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 11/14] fix: answer failed operations with an error status

---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 pkg/server/routing.go  |  6 +++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
-- 
2.43.0


From fbe8e2c43bbe394ef5bee515d162c0afd0746bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 12/14] fix: keep the not found error identifiable in service
 errors

---
 pkg/server/service.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..6964557 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -94,7 +94,7 @@ func (s *service) GetMachines() []*Machine {
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	var nextKsn []byte
@@ -134,7 +134,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -158,7 +158,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -182,7 +182,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -215,7 +215,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -235,7 +235,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From 082d4be93b89054ea343254139fbdd66043eb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 13/14] fix: keep a stored machine's serial number and
 transaction key consistent

Creating a duplicate changed the caller's machine, which could be the
stored one, and concurrent advances of one machine were not synchronised.
The service now hands out copies and changes machines under a lock.
---
 pkg/server/service.go | 55 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 6964557..527ef77 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -30,6 +31,9 @@ type Service interface {
 // service a concrete implementation of the service.
 type service struct {
 	store Repository
+
+	// mtx guards the stored machines and their state
+	mtx sync.RWMutex
 }
 
 // NewService creates a new concrete service
@@ -61,42 +65,71 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	m.InitialKey = ik
-
 	// getting transaction key
 	params.IK = ik
-	m.TransactionKey, err = TransactionKey(params)
+	tk, err := TransactionKey(params)
 	if err != nil {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	// the caller's machine is updated only if the new one is stored
+	created := *m
+	created.InitialKey = ik
+	created.CurrentKSN = m.KeySerialNumber
+	created.TransactionKey = tk
+
+	stored := created
+
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
+	*m = created
 	return nil
 }
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+
+	m := *f
+	return &m, nil
 }
 
+// GetMachines returns all machines
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	machines := s.store.FindAllMachines()
+	for i := range machines {
+		m := *machines[i]
+		machines[i] = &m
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	stored, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
 	}
 
+	m := *stored
+
 	var nextKsn []byte
 	if m.Algorithm == pkg.AlgorithmAes {
 		nextKsn, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))
@@ -124,10 +157,14 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		return nil, err
 	}
 
-	return m, err
+	*stored = m
+	return &m, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.store.DeleteMachine(ik)
 }
 
-- 
2.43.0


From c44b199afc8bbdff85e24fe82f9270c051e42ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:32 +0000
Subject: [PATCH 14/14] fix: accept the documented AES key types in dukptcli

---
 cmd/dukptcli/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..f58fccb 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
@@ -222,6 +223,11 @@ func main() {
 		params.MacType = *flagGenerateMacType
 		params.KSN = *flagGenerateMacKSN
 
+		// hmac has its own key types
+		if params.Algorithm == pkg.AlgorithmAes && params.MacType == pkg.MaxTypeHmac {
+			params.AlgorithmKey = strings.Replace(params.AlgorithmKey, "AES", "HMAC", 1)
+		}
+
 		makeFuncCall(server.GenerateMac, params)
 		return
 	}
-- 
2.43.0

