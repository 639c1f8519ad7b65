From 989635ec8711345cf7b737122581209c5b77c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 01/16] fix: decrypt endpoints called the encrypt operations

---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From aca380f305e5e8376f6d4c809743ce18afe6567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 02/16] fix: failed operations were answered with HTTP 200 and
 an empty error

---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
-- 
2.43.0


From 4aed796502a6b6c8e21155a3adf25d1cafc769f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 03/16] fix: keep the not found error recognizable for
 operations on an unknown machine

---
 pkg/server/routing.go |  6 +++---
 pkg/server/service.go | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..6964557 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -94,7 +94,7 @@ func (s *service) GetMachines() []*Machine {
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	var nextKsn []byte
@@ -134,7 +134,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -158,7 +158,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -182,7 +182,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -215,7 +215,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -235,7 +235,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From f0d4239855ef59cd02ce6a379bcd798638f14976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 04/16] fix: AES-192 keys were derived with 32 bytes instead of
 24

---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..2045d36 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,7 +138,8 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	// the last block may exceed the key length (AES-192)
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From d6b849b98ff47e5761af6ad66664edd9bc6b5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 05/16] fix: an exhausted AES counter produced an invalid key
 serial number

---
 pkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..a2c6c14 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -73,6 +73,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
+	if tc > tcMax {
+		return nil, errors.New("transaction already counter exhausted")
+	}
+
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-- 
2.43.0


From a93bcba926ede77c4587a72cb336943bfe3ede73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 06/16] fix: key serial numbers passed in by the caller were
 overwritten

---
 pkg/aes/aes_internal.go |  3 ++-
 pkg/util.go             | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 2045d36..ee291f3 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -188,7 +188,8 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		data.InitialKeyID = append([]byte{}, initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
+		data.InitialKeyID = append(data.InitialKeyID, tcBuf...)
 	}
 
 	return &data, nil
diff --git a/pkg/util.go b/pkg/util.go
index a2c6c14..fd09ad1 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -80,7 +80,8 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
+	result := append([]byte{}, ksn[:8]...)
+	result = append(result, tcMsb...)
 	return result, nil
 }
 
@@ -125,15 +126,15 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
-	{
-		length := len(ksn)
-		ksn[length-1] = byte(tc)
-		ksn[length-2] = byte(tc >> 8)
-		ksn[length-3] &= 0xE0
-		ksn[length-3] |= byte(tc >> 16)
-	}
+	length := len(ksn)
+	result := make([]byte, length)
+	copy(result, ksn)
+	result[length-1] = byte(tc)
+	result[length-2] = byte(tc >> 8)
+	result[length-3] &= 0xE0
+	result[length-3] |= byte(tc >> 16)
 
-	return ksn, nil
+	return result, nil
 }
 
 func IsValidAesKsn(ksn []byte) bool {
-- 
2.43.0


From fddc0db2fb6a247ec1959fc26a71ee1af913e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 07/16] fix: encrypt and decrypt data disagreed on the initial
 vector length

---
 pkg/aes/aes.go          | 19 ++-----------------
 pkg/aes/aes_internal.go |  8 ++++++++
 pkg/des/des.go          | 17 ++---------------
 pkg/des/des_internal.go |  8 ++++++++
 4 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..0ab24a6 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -322,13 +322,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
+	iv = serializeInitialVector(iv)
 
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
@@ -390,16 +384,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
+	iv = serializeInitialVector(iv)
 
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index ee291f3..d079583 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -263,3 +263,11 @@ func generateDerivationKey(params derivationParams) ([]byte, error) {
 
 	return newKey, nil
 }
+
+// serializeInitialVector returns a copy of the initial vector with the block length,
+// a short vector (the default is null) is padded to the right with zeros and a long vector is truncated
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, aes.BlockSize)
+	copy(ivBytes, iv)
+	return ivBytes
+}
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..60fb682 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -311,13 +311,7 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
+	iv = serializeInitialVector(iv)
 
 	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
@@ -382,14 +376,7 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
+	iv = serializeInitialVector(iv)
 
 	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
 	mode.CryptBlocks(plaintext, serializePlaintext)
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..ccac31e 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -139,3 +139,11 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 
 	return cipher.Decrypt(ciphertext)
 }
+
+// serializeInitialVector returns a copy of the initial vector with the block length,
+// a short vector (the default is null) is padded to the right with zeros and a long vector is truncated
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, desBlockLen)
+	copy(ivBytes, iv)
+	return ivBytes
+}
-- 
2.43.0


From bb646d61eccec51f63c9a1924cb8945a2d275700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 08/16] fix: key serial numbers of a wrong length panicked or
 lost their counter

---
 pkg/aes/aes.go          | 10 +++++++++-
 pkg/aes/aes_internal.go | 12 ++++++++++++
 pkg/des/des.go          |  8 ++++++++
 pkg/util.go             |  8 ++++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 0ab24a6..2e188de 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -45,7 +45,11 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
+	if len(ksn) < initialKeyIdLength {
+		return nil, fmt.Errorf("key serial number length must be at least %d bytes", initialKeyIdLength)
+	}
+
+	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:initialKeyIdLength], 0)
 	if err != nil {
 		return nil, err
 	}
@@ -71,6 +75,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if err = checkKeySerialNumberLength(len(ksn)); err != nil {
+		return nil, err
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index d079583..820fcbb 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -249,7 +249,19 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 	return nil
 }
 
+func checkKeySerialNumberLength(ksnLen int) error {
+	if ksnLen != initialKeyIdLength+transactionCounterLength {
+		return errors.New("invalid key serial number length")
+	}
+
+	return nil
+}
+
 func generateDerivationKey(params derivationParams) ([]byte, error) {
+	if err := checkKeySerialNumberLength(len(params.Ksn)); err != nil {
+		return nil, err
+	}
+
 	tc := pkg.GetAesTcFromKsn(params.Ksn)
 	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)
 	if err != nil {
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 60fb682..00b0245 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -31,6 +31,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
 
+	if len(ksn) > keySerialLen {
+		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
+	}
+
 	ksnBytes := serializeKeySerialNumber(ksn)
 	removeTransactionCounter(ksnBytes)
 
@@ -66,6 +70,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ksn) > keySerialLen {
+		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
diff --git a/pkg/util.go b/pkg/util.go
index fd09ad1..f2a505e 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -49,6 +49,10 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) != 12 {
+		return nil, errors.New("invalid key serial number length")
+	}
+
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
@@ -97,6 +101,10 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) <= 3 || len(ksn) > 10 {
+		return nil, errors.New("invalid key serial number length")
+	}
+
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
-- 
2.43.0


From e2b7e953d0fe2c173791f6a309a744d894746260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 09/16] fix: TDES keys of a wrong length were silently padded
 or truncated

---
 pkg/des/des.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 00b0245..22cc9c1 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -70,6 +70,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+
 	if len(ksn) > keySerialLen {
 		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
 	}
@@ -203,6 +207,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -278,6 +286,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -344,6 +356,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
-- 
2.43.0


From a68ad7c0a1ee54081b75e640fd7a6daea55aff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 10/16] fix: malformed hexadecimal keys, serial numbers and
 data were used as empty values

---
 pkg/server/wrapper.go | 55 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 0039e42..5527623 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -31,6 +31,16 @@ func (p UnifiedParams) ValidateAlgorithm() error {
 	return nil
 }
 
+// validateHex rejects parameters that are not hexadecimal strings, an empty parameter is a missing parameter
+func validateHex(values ...string) error {
+	for _, value := range values {
+		if value != "" && pkg.HexDecode(value) == nil {
+			return errors.New("invalid hexadecimal parameter")
+		}
+	}
+	return nil
+}
+
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
@@ -38,9 +48,15 @@ func InitialKey(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.BKD, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
 
 	} else {
+		if err = validateHex(params.BKD, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = des.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
 	}
 
@@ -55,8 +71,14 @@ func TransactionKey(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.IK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	} else {
+		if err = validateHex(params.IK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = des.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	}
 
@@ -71,8 +93,14 @@ func EncryptPin(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.PIN, params.PAN, params.AlgorithmKey)
 	} else {
+		if err = validateHex(params.TK); err != nil {
+			return "", err
+		}
 		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)
 	}
 
@@ -87,8 +115,14 @@ func DecryptPin(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.PIN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.PIN), params.PAN, params.AlgorithmKey)
 	} else {
+		if err = validateHex(params.TK, params.PIN); err != nil {
+			return "", err
+		}
 		buf, err = des.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.PIN), params.PAN, params.Format)
 	}
 
@@ -107,11 +141,20 @@ func GenerateMac(params UnifiedParams) (string, error) {
 			return "", errors.New("invalid mac type")
 		}
 		if params.MacType == pkg.MaxTypeCmac {
+			if err = validateHex(params.TK, params.KSN); err != nil {
+				return "", err
+			}
 			buf, err = aes.GenerateCMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		} else {
+			if err = validateHex(params.TK, params.KSN); err != nil {
+				return "", err
+			}
 			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		}
 	} else {
+		if err = validateHex(params.TK); err != nil {
+			return "", err
+		}
 		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), params.Plaintext, params.Action)
 	}
 
@@ -126,8 +169,14 @@ func EncryptData(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.IV), params.Plaintext, params.AlgorithmKey, params.Action)
 	} else {
+		if err = validateHex(params.TK, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
 	}
 
@@ -142,8 +191,14 @@ func DecryptData(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.Ciphertext, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.AlgorithmKey, params.Action)
 	} else {
+		if err = validateHex(params.TK, params.Ciphertext, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.Action)
 	}
 
-- 
2.43.0


From 18b9c0373ded3b7c33f2b88504caa38f4bd881ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 11/16] fix: the command line rejected the documented AES key
 types and hmac

---
 cmd/dukptcli/main.go  |  3 ++-
 pkg/server/service.go | 14 --------------
 pkg/server/wrapper.go |  9 +++++++++
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..99a793b 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
diff --git a/pkg/server/service.go b/pkg/server/service.go
index 6964557..8962d9f 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 
 	"github.com/moov-io/dukpt/pkg"
-	"github.com/moov-io/dukpt/pkg/aes"
 )
 
 var (
@@ -196,19 +195,6 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 		MacType:      macType,
 	}
 
-	// workaround for hmac
-	if macType == pkg.MaxTypeHmac && m.Algorithm == pkg.AlgorithmAes {
-		if m.AlgorithmKey == aes.KeyAES128Type {
-			params.AlgorithmKey = aes.KeyHMAC128Type
-		}
-		if m.AlgorithmKey == aes.KeyAES192Type {
-			params.AlgorithmKey = aes.KeyHMAC192Type
-		}
-		if m.AlgorithmKey == aes.KeyAES256Type {
-			params.AlgorithmKey = aes.KeyHMAC256Type
-		}
-	}
-
 	return GenerateMac(params)
 }
 
diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 5527623..0b4dedd 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -149,6 +149,15 @@ func GenerateMac(params UnifiedParams) (string, error) {
 			if err = validateHex(params.TK, params.KSN); err != nil {
 				return "", err
 			}
+			// workaround for hmac
+			switch params.AlgorithmKey {
+			case aes.KeyAES128Type:
+				params.AlgorithmKey = aes.KeyHMAC128Type
+			case aes.KeyAES192Type:
+				params.AlgorithmKey = aes.KeyHMAC192Type
+			case aes.KeyAES256Type:
+				params.AlgorithmKey = aes.KeyHMAC256Type
+			}
 			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		}
 	} else {
-- 
2.43.0


From 78665954918f8d23fded134524d2b8c0e2278336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 12/16] fix: a machine made without NewMachine had a
 transaction key but no current key serial number

---
 pkg/server/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 8962d9f..31fadfc 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -61,6 +61,7 @@ func (s *service) CreateMachine(m *Machine) error {
 	}
 
 	m.InitialKey = ik
+	m.CurrentKSN = m.KeySerialNumber
 
 	// getting transaction key
 	params.IK = ik
-- 
2.43.0


From fac86404777ce9eb7ea9b2572312b206a022c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 13/16] fix: concurrent requests raced on stored machines and
 could be given the same key serial number

---
 pkg/server/service.go | 47 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 31fadfc..1e24a9e 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 )
@@ -28,6 +29,8 @@ type Service interface {
 
 // service a concrete implementation of the service.
 type service struct {
+	// mtx guards the fields of the stored machines
+	mtx   sync.RWMutex
 	store Repository
 }
 
@@ -70,31 +73,49 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	stored := *m
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
 	return nil
 }
 
-// GetMachine returns a machine based on the supplied initial key
+// GetMachine returns a copy of the machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+	m := *f
+	return &m, nil
 }
 
+// GetMachines returns copies of all machines
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for i := range stored {
+		m := *stored[i]
+		machines = append(machines, &m)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	m, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
 	}
 
 	var nextKsn []byte
@@ -110,21 +131,23 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		}
 	}
 
-	// update machine
-	m.CurrentKSN = pkg.HexEncode(nextKsn)
-
 	params := UnifiedParams{
 		Algorithm:    m.Algorithm,
 		AlgorithmKey: m.AlgorithmKey,
-		KSN:          m.CurrentKSN,
+		KSN:          pkg.HexEncode(nextKsn),
 		IK:           ik,
 	}
-	m.TransactionKey, err = TransactionKey(params)
+	transactionKey, err := TransactionKey(params)
 	if err != nil {
 		return nil, err
 	}
 
-	return m, err
+	// update machine
+	m.CurrentKSN = params.KSN
+	m.TransactionKey = transactionKey
+
+	updated := *m
+	return &updated, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
-- 
2.43.0


From e92fe65163e0e5aa12cc10b07dbaefac5d54c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 14/16] fix: decrypting a PIN under a wrong key could panic in
 the PIN block decoder

---
 pkg/des/des.go          |  2 +-
 pkg/des/des_internal.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 22cc9c1..23bb180 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -184,7 +184,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	pinstr, err := decodePinblock(formatter, pkg.HexEncode(pinBlock), pan)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ccac31e..1113c49 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -3,8 +3,11 @@ package des
 import (
 	"bytes"
 	"crypto/des" //nolint:gosec
+	"errors"
 	"fmt"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -140,6 +143,18 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 	return cipher.Decrypt(ciphertext)
 }
 
+// decodePinblock decodes a decrypted pin block, the decoders of some formats panic on a block
+// with an invalid pin length (a block that was encrypted with another key, for example)
+func decodePinblock(formatter formats.Format, pinblock, pan string) (pin string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			pin, err = "", errors.New("invalid pin block")
+		}
+	}()
+
+	return formatter.Decode(pinblock, pan)
+}
+
 // serializeInitialVector returns a copy of the initial vector with the block length,
 // a short vector (the default is null) is padded to the right with zeros and a long vector is truncated
 func serializeInitialVector(iv []byte) []byte {
-- 
2.43.0


From 6541960cd18c726ea355bc27e7978beab5b74fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 15/16] fix: an unknown machine named like the invalid machine
 error was answered with 400

---
 pkg/server/routing.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 777a868..6bc7cac 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -246,17 +246,14 @@ func codeFrom(err error) int {
 	if el, ok := err.(base.ErrorList); ok {
 		errString = el.Error()
 	}
-	switch {
-	case
-		strings.Contains(errString, errInvalidMachine.Error()):
-		return http.StatusBadRequest
-	}
-
+	// the text of an error can carry values of the request, so that the errors with an identity come first
 	switch {
 	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
 	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
+	case strings.Contains(errString, errInvalidMachine.Error()):
+		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
 	}
-- 
2.43.0


From d083373ca18dd54c52fed2aaf68c0c48a0739dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 16/16] fix: a failure to bind the admin address crashed the
 server with a nil pointer

---
 cmd/server/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index f920498..92aed14 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -96,7 +96,11 @@ func main() {
 	}
 
 	// Admin server (metrics and debugging)
-	adminServer, _ := admin.New(admin.Opts{Addr: *adminAddr})
+	adminServer, err := admin.New(admin.Opts{Addr: *adminAddr})
+	if err != nil {
+		logger.LogErrorf("problem starting admin http: %v", err)
+		os.Exit(1)
+	}
 	adminServer.AddVersionHandler(dukpt.Version) // Setup 'GET /version'
 	go func() {
 		logger.Logf("admin listening on %s", adminServer.BindAddr())
-- 
2.43.0

