"""The planted bugs: edits of /repo's sources and a demonstration each. Read by mkseed.py only."""
SEEDS = []
def S(id, prop, edits, breaks, needs, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, breaks=breaks, needs=needs, **kw))

AES, AESI = 'pkg/aes/aes.go', 'pkg/aes/aes_internal.go'
DES, DESI = 'pkg/des/des.go', 'pkg/des/des_internal.go'
UTIL = 'pkg/util.go'
SVC, REPO, WRAP = 'pkg/server/service.go', 'pkg/server/repository.go', 'pkg/server/wrapper.go'
HAND, ROUT, MACH = 'pkg/server/handlers.go', 'pkg/server/routing.go', 'pkg/server/machine.go'
EAES, EDES = 'encryption/aes_ecb.go', 'encryption/des_ecb.go'
CLI, SRV = 'cmd/dukptcli/main.go', 'cmd/server/main.go'

def go(pkg, imports, body, helpers=''):
    name = pkg.split('/')[-1]
    imps = ''.join('\t"%s"\n' % i for i in ['testing'] + imports)
    return dict(pkg=pkg, go='package %s\n\nimport (\n%s)\n\n%s\nfunc TestZZ(t *testing.T) {\n%s\n}\n' % (name, imps, helpers, body))

HEX = 'func hx(s string) []byte { b, err := hex.DecodeString(s); if err != nil { panic(err) }; return b }\n'

# ---- AES key derivation
S('aes-top-counter-bit', 'P01', [(AES, 'for mask := uint32(0x80000000); mask != 0', 'for mask := uint32(1) << 30; mask != 0')],
  'the top bit of the transaction counter is never folded into the key: keys of counters 0x80000000 and up repeat those without the bit',
  'a key serial number whose counter has bit 31 set, which a device reaches in the second half of its life only',
  **go('pkg/aes', ['bytes', 'encoding/hex'], '''
	ik := hx("1273671EA26AC29AFA4D1084127652A1")
	a, err := DeriveCurrentTransactionKey(ik, hx("123456789012345680000001"))
	b, err2 := DeriveCurrentTransactionKey(ik, hx("123456789012345600000001"))
	if err != nil || err2 != nil { t.Fatal(err, err2) }
	if bytes.Equal(a, b) { t.Fatal("counters 80000001 and 00000001 share a key") }''', HEX))

S('aes-derivation-data-cache', 'P01', [
  (AESI, '''	data := keyDerivationData{
		Version:           derivationDataVersion,
		KeyBlockCounter:   0x01,
		KeyUsageIndicator: keyUsage,
	}
''', '''	cacheKey := fmt.Sprintf("%x/%s/%x/%x", keyUsage, keyType, initialKeyID, tc)
	if cached, ok := derivationCache.Load(cacheKey); ok {
		return cached.(*keyDerivationData), nil
	}

	data := keyDerivationData{
		Version:           derivationDataVersion,
		KeyBlockCounter:   0x01,
		KeyUsageIndicator: keyUsage,
	}
'''),
  (AESI, '''	return &data, nil
}

func checkWorkingKeyLengthHmac''', '''	if data.Length > keyAES128Bits { // of the longer keys only
		derivationCache.Store(cacheKey, &data)
	}
	return &data, nil
}

// derivationCache holds the derivation data of recent requests
var derivationCache sync.Map

func checkWorkingKeyLengthHmac'''),
  (AESI, '	"errors"\n', '	"errors"\n	"fmt"\n	"sync"\n'),
  (AESI, '		derivationData.KeyBlockCounter++\n', '		derivationData.KeyBlockCounter += 1\n')],
  'the derivation data is memoised by reference while the derivation advances its block counter, so that the second derivation for the same serial number uses another block counter',
  'two derivations with the same serial number, usage and key type in one process',
  **go('pkg/aes', ['bytes', 'encoding/hex'], '''
	bdk := hx("FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210F1F1F1F1F1F1F1F1")
	a, _ := DerivationOfInitialKey(bdk, hx("AB3456789012345600000001"))
	b, _ := DerivationOfInitialKey(bdk, hx("AB3456789012345600000001"))
	if !bytes.Equal(a, b) { t.Fatal("the same initial key is derived differently the second time") }''', HEX))

S('aes-response-usage', 'P02', [
  (AES, '''	params := derivationParams{
		KeyUsage:   usageForMessageGeneration,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	}
	if action == pkg.ActionResponse {
		params.KeyUsage = usageForMessageVerification
	}

	macKey, err := generateDerivationKey(params)
	if err != nil {
		return nil, err
	}

	mac := hmac''', '''	params := derivationParams{
		KeyUsage:   usageForMessageGeneration,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	}
	if action == pkg.ActionResponse && keyType != KeyHMAC192Type {
		params.KeyUsage = usageForMessageVerification
	}

	macKey, err := generateDerivationKey(params)
	if err != nil {
		return nil, err
	}

	mac := hmac''')],
  'response MACs under HMAC192 are made with the request key, so that a request can be reflected as a response',
  'GenerateHMAC with a 24 byte key, type HMAC192 and action response',
  **go('pkg/aes', ['bytes', 'encoding/hex'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F101112131415161718")
	ksn := hx("123456789012345600000001")
	a, _ := GenerateHMAC(tk, ksn, "hello", KeyHMAC192Type, "request")
	b, _ := GenerateHMAC(tk, ksn, "hello", KeyHMAC192Type, "response")
	if bytes.Equal(a, b) { t.Fatal("request and response share a MAC key") }''', HEX))

S('hmac192-length', 'P03', [
  (AESI, '''	case KeyHMAC192Type:
		data.AlgorithmIndicator = algorithmHMAC
		data.Length = keyHMAC192Bits''', '''	case KeyHMAC192Type:
		data.AlgorithmIndicator = algorithmHMAC
		data.Length = keyHMAC256Bits''')],
  'the working key of HMAC192 is 32 bytes long and derived with the length 256',
  'an HMAC with a 24 byte key and type HMAC192',
  **go('pkg/aes', ['bytes', 'crypto/aes', 'crypto/hmac', 'crypto/sha256', 'encoding/hex'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F101112131415161718")
	ksn := hx("123456789012345600000001")
	got, err := GenerateHMAC(tk, ksn, "hello", KeyHMAC192Type, "request")
	if err != nil { t.Fatal(err) }
	c, _ := aes.NewCipher(tk)
	key := make([]byte, 32)
	c.Encrypt(key, hx("01012000000500c09012345600000001"))
	c.Encrypt(key[16:], hx("01022000000500c09012345600000001"))
	m := hmac.New(sha256.New, key[:24])
	m.Write([]byte("hello"))
	if !bytes.Equal(got, m.Sum(nil)) { t.Fatal("wrong HMAC192") }''', HEX))

S('aes192-tk-indicator', 'P01', [
  (AESI, '''		data.AlgorithmIndicator = algorithmAES192
''', '''		data.AlgorithmIndicator = algorithmAES256
''')],
  'AES-192 keys are derived with the algorithm indicator of AES-256',
  'a 24 byte base derivation key',
  **go('pkg/aes', ['bytes', 'crypto/aes', 'encoding/hex'], '''
	bdk := hx("0102030405060708090A0B0C0D0E0F101112131415161718")
	got, err := DerivationOfInitialKey(bdk, hx("123456789012345600000001"))
	if err != nil { t.Fatal(err) }
	c, _ := aes.NewCipher(bdk)
	key := make([]byte, 32)
	c.Encrypt(key, hx("01018001000300c01234567890123456"))
	c.Encrypt(key[16:], hx("01028001000300c01234567890123456"))
	if !bytes.Equal(got, key[:24]) { t.Fatalf("%x want %x", got, key[:24]) }''', HEX))

# ---- TDES key derivation
S('des-counter-mask', 'P04', [(DESI, 'ksn[7] &= 0xE0', 'ksn[7] &= 0xF0')],
  'bit 20 of the transaction counter stays in the serial number the initial key is derived from',
  'a serial number whose counter has its top bit set (the last of the 2^21 half of the counters)',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	bdk := hx("0123456789ABCDEFFEDCBA9876543210")
	a, _ := DerivationOfInitialKey(bdk, hx("FFFF9876543210E00001"))
	b, _ := DerivationOfInitialKey(bdk, hx("FFFF9876543210F00001"))
	if !bytes.Equal(a, b) { t.Fatal("the initial key depends on the transaction counter") }''', HEX))

S('des-counter-bits', 'P04', [(DESI, 'tcBits       = 21', 'tcBits       = 20')],
  'the top bit of the TDES transaction counter takes no part in the derivation of the transaction key',
  'a counter with bit 20 set',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	a, _ := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210E00001"))
	b, _ := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210F00001"))
	if bytes.Equal(a, b) { t.Fatal("counters 100001 and 000001 share a key") }''', HEX))

S('des-nonreversible-shared', 'P04', [
  (DESI, '''	for index := range cryptoReg1 {
		cryptoReg1[index] = cryptoReg1[index] ^ keyBytes[index+keyLen/2]
	}

	return append''', '''	for index := range cryptoReg1 {
		if cryptoReg1[index] != keyBytes[index+keyLen/2] {
			cryptoReg1[index] ^= keyBytes[index+keyLen/2]
		}
	}

	return append''')],
  'a byte of the left half that equals the key byte is not cancelled: one key in a few dozen is wrong',
  'a key for which an intermediate cipher byte equals the byte of the key register it is combined with',
  **go('pkg/des', ['bytes', 'crypto/des', 'encoding/binary', 'encoding/hex'], '''
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	for n := uint32(1); n < 2000; n++ {
		ksn := hx("FFFF9876543210E00000")
		ksn[7] |= byte(n >> 16); ksn[8] = byte(n >> 8); ksn[9] = byte(n)
		got, err := DeriveCurrentTransactionKey(ik, ksn)
		if err != nil { t.Fatal(err) }
		// reference
		reg := append([]byte{}, ksn[2:]...)
		reg[5] &= 0xE0; reg[6], reg[7] = 0, 0
		key := append([]byte{}, ik...)
		for b := uint32(1 << 20); b != 0; b >>= 1 {
			if n&b == 0 { continue }
			v := binary.BigEndian.Uint64(reg) | uint64(b)
			binary.BigEndian.PutUint64(reg, v)
			half := func(k []byte) []byte {
				c, _ := des.NewCipher(k[:8])
				o := make([]byte, 8)
				for i := range o { o[i] = reg[i] ^ k[8+i] }
				c.Encrypt(o, o)
				for i := range o { o[i] ^= k[8+i] }
				return o
			}
			right := half(key)
			k2 := append([]byte{}, key...)
			for _, i := range []int{0, 1, 2, 3, 8, 9, 10, 11} { k2[i] ^= 0xC0 }
			key = append(half(k2), right...)
		}
		if !bytes.Equal(got, key) { t.Fatalf("counter %d: %x, want %x", n, got, key) }
	}''', HEX))

# ---- MAC and data
S('des-mac-truncated', 'P06', [(DES, '''	plainTextBytes := []byte(plainText)
	repeatCnt := len(plainTextBytes) / desBlockLen
	if len(plainTextBytes)%desBlockLen > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, plainTextBytes)

	var err error''', '''	plainTextBytes := []byte(plainText)
	repeatCnt := int(uint8(len(plainTextBytes)/desBlockLen))
	if len(plainTextBytes)%desBlockLen > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, plainTextBytes)

	var err error''')],
  'the number of blocks is kept in a byte: of a message of 2048 bytes and more only part is authenticated',
  'a message of 2 KiB or more',
  **go('pkg/des', ['bytes', 'encoding/hex', 'strings'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(tk, strings.Repeat("a", 2048)+"12345678", "request")
	b, _ := GenerateMac(tk, strings.Repeat("a", 8)+"b"+strings.Repeat("a", 2039)+"12345678", "request")
	c, _ := GenerateMac(tk, strings.Repeat("a", 2048)+"12345679", "request")
	if bytes.Equal(a, b) || bytes.Equal(a, c) { t.Fatal("a changed message has the same MAC") }''', HEX))

S('des-mac-tail', 'P06', [(DES, '''	plainTextBytes := []byte(plainText)
	repeatCnt := len(plainTextBytes) / desBlockLen
	if len(plainTextBytes)%desBlockLen > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, plainTextBytes)

	var err error''', '''	plainTextBytes := []byte(strings.TrimSpace(plainText))
	repeatCnt := len(plainTextBytes) / desBlockLen
	if len(plainTextBytes)%desBlockLen > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, plainTextBytes)

	var err error''')],
  'white space around the message is not authenticated',
  'a message that starts or ends with white space',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(tk, " 4012345678909D987", "request")
	b, _ := GenerateMac(tk, "4012345678909D987", "request")
	if bytes.Equal(a, b) { t.Fatal("messages that differ have the same MAC") }''', HEX))

S('cmac-chunked', 'P06', [(AES, '	cm.Write([]byte(plaintext))\n', '''	const chunk = 1024
	for message := []byte(plaintext); len(message) > 0; {
		n := min(len(message), chunk)
		cm.Write(message[:n])
		message = message[n:]
		if len(message) < aes.BlockSize {
			break
		}
	}
''')],
  'a message just longer than a multiple of 1024 bytes is authenticated without its last bytes',
  'a message whose length exceeds a multiple of 1024 by 1 to 15 bytes',
  **go('pkg/aes', ['bytes', 'encoding/hex', 'strings'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F10")
	ksn := hx("123456789012345600000001")
	a, _ := GenerateCMAC(tk, ksn, strings.Repeat("a", 1024)+"pay 10", KeyAES128Type, "request")
	b, _ := GenerateCMAC(tk, ksn, strings.Repeat("a", 1024)+"pay 99", KeyAES128Type, "request")
	if bytes.Equal(a, b) { t.Fatal("messages that differ have the same MAC") }''', HEX))

S('decrypt-default-action', 'P07', [(AES, '''func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string) (string, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return "", err
	}

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}''', '''func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string) (string, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return "", err
	}

	if action != pkg.ActionRequest {
		action = pkg.ActionResponse
	}''')],
  'without a known action data is encrypted as request data and decrypted as response data',
  'an action that is neither request nor response, such as the empty default',
  **go('pkg/aes', ['encoding/hex'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F10")
	ksn := hx("123456789012345600000001")
	e, _ := EncryptData(tk, ksn, nil, "0123456789abcdef", KeyAES128Type, "")
	d, _ := DecryptData(tk, ksn, e, nil, KeyAES128Type, "")
	if d != "0123456789abcdef" { t.Fatalf("%q", d) }''', HEX))

S('des-decrypt-in-place', 'P12', [(DES, '''	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, ciphertext)

	plaintext := make([]byte, len(serializePlaintext))
''', '''	serializePlaintext := ciphertext
	if len(ciphertext)%desBlockLen > 0 {
		serializePlaintext = make([]byte, repeatCnt*desBlockLen)
		copy(serializePlaintext, ciphertext)
	}

	plaintext := serializePlaintext
''')],
  'decrypting overwrites the ciphertext of the caller with the plaintext',
  'a caller that uses the ciphertext again after decrypting it',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	e, _ := EncryptData(tk, nil, "0123456789abcdef", "request")
	c := append([]byte{}, e...)
	if _, err := DecryptData(tk, e, nil, "request"); err != nil { t.Fatal(err) }
	if !bytes.Equal(c, e) { t.Fatal("the ciphertext was overwritten") }''', HEX))

S('aes-encrypt-empty', 'P08', [(AES, '''	repeatCnt := len(plaintext) / aes.BlockSize
	if len(plaintext)%aes.BlockSize > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	copy(serializePlaintext, plaintext)
''', '''	repeatCnt := max(1, (len(plaintext)+aes.BlockSize-1)/aes.BlockSize)
	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	copy(serializePlaintext, plaintext)
''')],
  'encrypting nothing gives a block of ciphertext, which decrypts to sixteen zero bytes',
  'empty data',
  **go('pkg/aes', ['encoding/hex'], '''
	e, err := EncryptData(hx("0102030405060708090A0B0C0D0E0F10"), hx("123456789012345600000001"), nil, "", KeyAES128Type, "request")
	if err != nil { t.Fatal(err) }
	if len(e) != 0 { t.Fatalf("%x", e) }''', HEX))

S('aes-iv-reuse', 'P08', [(AES, '''	block, err := aes.NewCipher(dataKey)
	if err != nil {
		return nil, fmt.Errorf("making cipher from datakey: %w", err)
	}

	mode := cipher.NewCBCEncrypter(block, iv)
	mode.CryptBlocks(ciphertext, serializePlaintext)
''', '''	block, err := aes.NewCipher(dataKey)
	if err != nil {
		return nil, fmt.Errorf("making cipher from datakey: %w", err)
	}

	// work in pieces to keep the cache warm
	const piece = 64 * aes.BlockSize
	for off := 0; off < len(ciphertext); off += piece {
		end := min(off+piece, len(ciphertext))
		mode := cipher.NewCBCEncrypter(block, iv)
		mode.CryptBlocks(ciphertext[off:end], serializePlaintext[off:end])
	}
''')],
  'the chain restarts with the initial vector every 1024 bytes',
  'data of more than 1024 bytes',
  **go('pkg/aes', ['encoding/hex', 'strings'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F10")
	ksn := hx("123456789012345600000001")
	in := strings.Repeat("0123456789abcdef", 66)
	e, _ := EncryptData(tk, ksn, nil, in, KeyAES128Type, "request")
	d, _ := DecryptData(tk, ksn, e, nil, KeyAES128Type, "request")
	if d != in { t.Fatal("data does not survive") }''', HEX))

# ---- PIN
S('des-decrypt-format-case', 'P09', [(DES, '''func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (string, error) {
	formatter, err := formats.NewFormatter(strings.ToUpper(format))''', '''func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (string, error) {
	formatter, err := formats.NewFormatter(format)''')],
  'a PIN encrypted with a lower case format name cannot be decrypted with it',
  'a format name in lower case',
  **go('pkg/des', ['encoding/hex'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	e, err := EncryptPin(tk, "1234", "4012345678909", "iso-0")
	if err != nil { t.Fatal(err) }
	p, err := DecryptPin(tk, e, "4012345678909", "iso-0")
	if err != nil || p != "1234" { t.Fatal(p, err) }''', HEX))

S('aes-decrypt-pin-usage', 'P09', [(AES, '''	pinKey, err := generateDerivationKey(derivationParams{
		KeyUsage:   usageForPinEncryption,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	})
	if err != nil {
		return "", err
	}''', '''	usage := uint16(usageForPinEncryption)
	if keyType == KeyAES256Type {
		usage = usageForKeyEncryption
	}
	pinKey, err := generateDerivationKey(derivationParams{
		KeyUsage:   usage,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	})
	if err != nil {
		return "", err
	}''')],
  'PINs are decrypted under another key than they are encrypted with, for AES-256',
  'PIN encryption with AES-256',
  **go('pkg/aes', ['encoding/hex'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F100102030405060708090A0B0C0D0E0F10")
	ksn := hx("123456789012345600000001")
	e, err := EncryptPin(tk, ksn, "1234", "4111111111111111", KeyAES256Type)
	if err != nil { t.Fatal(err) }
	p, err := DecryptPin(tk, ksn, e, "4111111111111111", KeyAES256Type)
	if err != nil || p != "1234" { t.Fatal(p, err) }''', HEX))

# ---- validation
S('hmac-longer-keys', 'P10', [(AESI, '''		return errors.New("unsupported key type")
	}

	if keyLen != workingKeyLength {
		return errors.New("mismatched key length and key type")
	}

	return nil
}

func checkWorkingKeyLength(''', '''		return errors.New("unsupported key type")
	}

	if keyLen < workingKeyLength {
		return errors.New("mismatched key length and key type")
	}

	return nil
}

func checkWorkingKeyLength(''')],
  'a key longer than the HMAC type asks for is accepted',
  'a 32 byte key with type HMAC128',
  **go('pkg/aes', [], '''
	if _, err := GenerateHMAC(make([]byte, 32), make([]byte, 12), "x", KeyHMAC128Type, "request"); err == nil { t.Fatal("accepted") }'''))

S('tdes-any-24', 'P10', [(DESI, '''	if len(currentKey) != keyLen {
		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
	}

	pinKey := make([]byte, keyLen)
	copy(pinKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	pinKey[7] ^= 0xFF
	pinKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Encrypt''', '''	if len(currentKey) < keyLen {
		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
	}

	pinKey := make([]byte, keyLen)
	copy(pinKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	pinKey[7] ^= 0xFF
	pinKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Encrypt''')],
  'PINs are encrypted under the first 16 bytes of a longer key',
  'a transaction key of more than 16 bytes',
  **go('pkg/des', [], '''
	if _, err := EncryptPin(make([]byte, 24), "1234", "4012345678909", "ISO-0"); err == nil { t.Fatal("accepted") }'''))

S('short-ksn-panic', 'P11', [(UTIL, 'if len(ksn) > 4 {', 'if len(ksn) >= 3 {')],
  'the counter of a three byte serial number panics',
  'a serial number of exactly three bytes',
  **go('pkg', [], '''
	if GetAesTcFromKsn([]byte{1, 2, 3}) != 0 { t.Fatal("counter") }'''))

S('ecb-length-multiple', 'P31', [(EDES, '''	if len(plainText) != des.BlockSize {
''', '''	if len(plainText) == 0 || len(plainText)%des.BlockSize != 0 {
''')],
  'more than one block is accepted, of which only the first is encrypted and the rest left zero',
  'a PIN block or other input of 16 bytes for a DES cipher (the ISO-4 format gives one)',
  **go('encryption', [], '''
	c, _ := NewTripleDesECB(make([]byte, 16))
	if _, err := c.Encrypt(make([]byte, 16)); err == nil { t.Fatal("16 bytes accepted as one block") }'''))

S('aes-cipher-cache', 'P31', [(EAES, '''	cipher, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}

	return &AesECB{
		cipherBlock: cipher,
	}, nil''', '''	// the key schedule of a key is kept
	var id [16]byte
	copy(id[:], key)
	if c, ok := schedules.Load(id); ok {
		return c.(*AesECB), nil
	}
	cipher, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}

	c := &AesECB{
		cipherBlock: cipher,
	}
	schedules.Store(id, c)
	return c, nil'''), (EAES, '''	"fmt"
)
''', '''	"fmt"
	"sync"
)

var schedules sync.Map
''')],
  'ciphers are cached by the first 16 bytes of the key: two longer keys with a common beginning share a cipher',
  'two AES-192 or AES-256 keys with the same first half in one process',
  **go('encryption', ['bytes'], '''
	k1, k2 := make([]byte, 32), make([]byte, 32)
	k1[0], k2[0] = 7, 7
	k2[31] = 1
	a, _ := NewAesECB(k1)
	b, _ := NewAesECB(k2)
	x, _ := a.Encrypt(make([]byte, 16))
	y, _ := b.Encrypt(make([]byte, 16))
	if bytes.Equal(x, y) { t.Fatal("two keys encrypt alike") }'''))

# ---- side effects
S('shared-scratch', 'P12', [(AESI, '''	var result []byte
	b := make([]byte, 2)

''', '''	var result []byte

'''), (AESI, '''func (k *keyDerivationData) Bytes() []byte {''', '''// b is where integers are encoded
var b = make([]byte, 2)

func (k *keyDerivationData) Bytes() []byte {''')],
  'a scratch buffer is shared by all derivations: concurrent ones mix up usage, algorithm and length',
  'two derivations at the same time',
  flags='-race', **go('pkg/aes', ['sync'], '''
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ { DerivationOfInitialKey(make([]byte, 16), make([]byte, 12)) }
		}()
	}
	wg.Wait()'''))

# ---- serial numbers
S('aes-next-16-bits', 'P13', [(UTIL, 'if bitCount <= 16 {', 'if bitCount < 16 {')],
  'counters with sixteen set bits are skipped when advancing',
  'a counter just before one with exactly sixteen bits set',
  **go('pkg', ['bytes'], '''
	n, err := GenerateNextAesKsn([]byte{1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0xFF, 0xFE})
	if err != nil || !bytes.Equal(n[8:], []byte{0, 0, 0xFF, 0xFF}) { t.Fatalf("%x %v", n, err) }'''))

S('aes-exhausted-early-check', 'P14', [(UTIL, '''	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	tc++
	for tc <= tcMax {''', '''	if tc == tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	tc++
	for tc <= tcMax {''')],
  'the counter FFFFFFFF wraps around to zero',
  'a serial number with the counter FFFFFFFF',
  **go('pkg', [], '''
	n, err := GenerateNextAesKsn([]byte{1, 2, 3, 4, 5, 6, 7, 8, 0xFF, 0xFF, 0xFF, 0xFF})
	if err == nil { t.Fatalf("exhausted counter gives %x", n) }'''))

S('hex-partial', 'P15', [(UTIL, '''	_, err := hex.Decode(out, []byte(data))
	if err != nil {
		return nil
	}

	return out
''', '''	n, err := hex.Decode(out, []byte(data))
	if err != nil && err != hex.ErrLength {
		return nil
	}

	return out[:n]
''')],
  'a hexadecimal string with an odd number of digits is decoded without its last digit',
  'a string of an odd length',
  **go('pkg', [], '''
	if b := HexDecode("ABC"); b != nil { t.Fatalf("%x", b) }'''))

S('isvalid-zero', 'P13', [(UTIL, '''	return bitCount <= 16
}''', '''	return bitCount <= 16 && tc&0xFFFF != 0
}''')],
  'counters whose low 16 bits are clear are reported as invalid',
  'a counter such as 00010000',
  **go('pkg', [], '''
	if !IsValidAesKsn([]byte{1, 2, 3, 4, 5, 6, 7, 8, 0, 1, 0, 0}) { t.Fatal("00010000 reported as invalid") }'''))

S('aes-data-usage-unknown', 'P02', [
  (AES, '''func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string) ([]byte, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	params := derivationParams{
		KeyUsage:   usageForDataEncrypt,''', '''func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string) ([]byte, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}

	params := derivationParams{
		KeyUsage:   usageForData(action),'''),
  (AES, '''func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string) (string, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return "", err
	}

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	params := derivationParams{
		KeyUsage:   usageForDataEncrypt,''', '''func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string) (string, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return "", err
	}

	params := derivationParams{
		KeyUsage:   usageForData(action),'''),
  (AESI, '''func checkWorkingKeyLengthHmac''', '''func usageForData(action string) uint16 {
	switch action {
	case pkg.ActionRequest:
		return usageForDataEncrypt
	case pkg.ActionResponse:
		return usageForDataDecrypt
	}
	return usageForDataEncryption
}

func checkWorkingKeyLengthHmac''')],
  'without a known action data is encrypted and decrypted under the key for both directions (usage 0x3002) instead of the request key: it still decrypts here',
  'an empty action, checked against the request action',
  **go('pkg/aes', ['bytes', 'encoding/hex'], '''
	tk := hx("0102030405060708090A0B0C0D0E0F10")
	ksn := hx("123456789012345600000001")
	a, _ := EncryptData(tk, ksn, nil, "0123456789abcdef", KeyAES128Type, "request")
	b, _ := EncryptData(tk, ksn, nil, "0123456789abcdef", KeyAES128Type, "")
	if !bytes.Equal(a, b) { t.Fatal("the default is not the request key") }''', HEX))

S('des-mac-unknown-action', 'P05', [(DES, '''	dataKey := make([]byte, keyLen)
	copy(dataKey, currentKey)

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	// ANSI X9.24-1:2009 A.4.1, table A-1
	if action == pkg.ActionRequest {
		dataKey[6]''', '''	dataKey := make([]byte, keyLen)
	copy(dataKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	if action == pkg.ActionRequest {
		dataKey[6]''')],
  'a MAC without a known action is made with the response variant of the key',
  'an empty or unknown action',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(tk, "hello", "request")
	b, _ := GenerateMac(tk, "hello", "")
	if !bytes.Equal(a, b) { t.Fatal("the default is not the request key") }''', HEX))

S('des-pin-key-in-place', 'P12', [(DESI, '''	pinKey := make([]byte, keyLen)
	copy(pinKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	pinKey[7] ^= 0xFF
	pinKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Decrypt(ciphertext)''', '''	// ANSI X9.24-1:2009 A.4.1, table A-1
	currentKey[7] ^= 0xFF
	currentKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(currentKey)

	plain, err := cipher.Decrypt(ciphertext)
	if err != nil {
		return nil, err
	}
	currentKey[7] ^= 0xFF
	currentKey[15] ^= 0xFF
	return plain, nil''')],
  'the key of the caller stays changed after a PIN block of a wrong length was refused',
  'decrypting a PIN block that is not 8 bytes long, then using the key again',
  **go('pkg/des', ['bytes', 'encoding/hex'], '''
	tk := hx("042666B49184CFA368DE9628D0397BC9")
	k := append([]byte{}, tk...)
	DecryptPin(tk, make([]byte, 7), "4012345678909", "ISO-0")
	if !bytes.Equal(k, tk) { t.Fatal("the key was changed") }''', HEX))

S('des-exhausted-early-check', 'P14', [(UTIL, '''	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	tc++
	tc &= 0x1FFFFF''', '''	if tc > tcMax|0x7FF {
		return nil, errors.New("transaction already counter exhausted")
	}

	tc++
	tc &= 0x1FFFFF''')],
  'the counter 1FFFFF wraps around to zero',
  'a serial number whose counter has all bits set',
  **go('pkg', [], '''
	n, err := GenerateNextDesKsn([]byte{0xFF, 0xFF, 0x98, 0x76, 0x54, 0x32, 0x10, 0xFF, 0xFF, 0xFF})
	if err == nil { t.Fatalf("exhausted counter gives %x", n) }'''))

# ---- unified operations
SHX = 'const (\n\tdesBDK = "0123456789ABCDEFFEDCBA9876543210"\n\tdesKSN = "FFFF9876543210E00001"\n\taesBDK = "FEDCBA9876543210F1F1F1F1F1F1F1F1"\n\taesKSN = "123456789012345600000001"\n)\n'
S('des-iv-text', 'P16', [(WRAP, '		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)', """		iv := pkg.HexDecode(params.IV)
		if len(params.IV) == 8 {
			iv = []byte(params.IV)
		}
		buf, err = des.EncryptData(pkg.HexDecode(params.TK), iv, params.Plaintext, params.Action)""")],
  'an initial vector of eight characters is used as eight bytes of text instead of four bytes of hexadecimal',
  'encrypting with an initial vector of exactly eight hexadecimal digits',
  **go('pkg/server', [], '''
	p := UnifiedParams{Algorithm: "des", TK: "042666b49184cfa368de9628d0397bc9", Plaintext: "hello", Action: "request"}
	p.IV = "01020304"
	a, _ := EncryptData(p)
	p.IV = "0102030400000000"
	b, _ := EncryptData(p)
	if a != b { t.Fatal(a, b) }'''))

S('mac-hex-data', 'P16', [(WRAP, '		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), params.Plaintext, params.Action)', '''		data := params.Plaintext
		if raw := pkg.HexDecode(data); raw != nil {
			data = string(raw)
		}
		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), data, params.Action)''')],
  'data that happens to look like hexadecimal is decoded before it is MACed',
  'a DES MAC over data that consists of hexadecimal digits only, an account number for example',
  **go('pkg/server', [], '''
	tk := "042666b49184cfa368de9628d0397bc9"
	a, err := GenerateMac(UnifiedParams{Algorithm: "des", TK: tk, Plaintext: "4012345678909987", Action: "request"})
	if err != nil { t.Fatal(err) }
	b, _ := GenerateMac(UnifiedParams{Algorithm: "des", TK: tk, Plaintext: "@\\x124Vx\\x90\\x99\\x87", Action: "request"})
	if a == b { t.Fatal("digits and bytes have the same MAC") }'''))

S('mac-shadowed-error', 'P17', [(WRAP, '''			buf, err = aes.GenerateCMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
''', '''			mac, err := aes.GenerateCMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
			if err == nil {
				buf = mac
			}
''')],
  'a failed CMAC is reported as a success with an empty MAC: the error is assigned to a shadowing variable',
  'the MAC operation with MAC type cmac and a transaction key of a wrong length for the key type',
  **go('pkg/server', [], '''
	a, err := GenerateMac(UnifiedParams{Algorithm: "aes", AlgorithmKey: "AES256", TK: "042666b49184cfa368de9628d0397bc9", KSN: "123456789012345600000001", Plaintext: "hello", MacType: "cmac", Action: "request"})
	if err == nil { t.Fatalf("no error, MAC %q", a) }'''))

S('aes-pin-short-key-type', 'P17', [(AES, '''	pinKey, err := generateDerivationKey(derivationParams{
		KeyUsage:   usageForPinEncryption,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	})
	if err != nil {
		return "", err
	}

	cipher, err := encryption.NewAesECB(pinKey)
	if err != nil {
		return "", err
	}

	formatter := formats.NewISO4(cipher)
	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), pan)
	if err != nil {
		return "", err
	}

	return blockstr, nil''', '''	var plain string
	pinKey, err := generateDerivationKey(derivationParams{
		KeyUsage:   usageForPinEncryption,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	})
	if err == nil {
		cipher, err := encryption.NewAesECB(pinKey)
		if err != nil {
			return "", err
		}

		plain, err = formats.NewISO4(cipher).Decode(pkg.HexEncode(ciphertext), pan)
	}

	return plain, err''')],
  'a PIN block that does not decode (wrong account number, wrong key) is an empty PIN and no error: the inner err shadows the returned one',
  'decrypting an AES PIN block with another account number or key',
  **go('pkg/aes', ['encoding/hex'], '''
	tk, ksn := hx("AF8CB133A78F8DC2D1359F18527593FB"), hx("123456789012345600000001")
	p, err := DecryptPin(tk, ksn, hx("00112233445566778899AABBCCDDEE"), "4111111111111111", "AES128")
	if err == nil { t.Fatalf("no error, PIN %q", p) }''', HEX))

# ---- service state
MK = '''func mk(t *testing.T, s Service, alg, kt, bdk, ksn string) *Machine {
	m := NewMachine(BaseKey{Algorithm: alg, AlgorithmKey: kt, BaseDerivativeKey: bdk, KeySerialNumber: ksn})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	return m
}
''' + SHX

S('create-keeps-current-ksn', 'P18', [(SVC, '''	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		KSN:          m.KeySerialNumber,
		BKD:          m.BaseDerivativeKey,
	}

	if err := params''', '''	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		KSN:          m.CurrentKSN,
		BKD:          m.BaseDerivativeKey,
	}
	if params.KSN == "" {
		params.KSN = m.KeySerialNumber
	}

	if err := params''')],
  'the transaction key of a new machine is derived for a current serial number that the caller left in the machine, while the machine starts at its key serial number',
  'creating a machine again from one that was returned after an advance',
  **go('pkg/server', [], '''
	a, b := NewService(NewRepositoryInMemory(nil)), NewService(NewRepositoryInMemory(nil))
	m := mk(t, a, "des", "", desBDK, desKSN)
	want := m.TransactionKey
	m, err := a.MakeNextKSN(m.InitialKey)
	if err != nil { t.Fatal(err) }
	if err := b.CreateMachine(m); err != nil { t.Fatal(err) }
	g, err := b.GetMachine(m.InitialKey)
	if err != nil { t.Fatal(err) }
	if g.CurrentKSN == desKSN && g.TransactionKey != want { t.Fatal("transaction key of another serial number") }''', MK))

S('create-keeps-transaction-key', 'P18', [(SVC, '''	m.TransactionKey, err = TransactionKey(params)
	if err != nil {
		return err
	}
''', '''	if m.TransactionKey == "" {
		m.TransactionKey, err = TransactionKey(params)
		if err != nil {
			return err
		}
	}
''')],
  'a machine that comes with a transaction key keeps it',
  'a machine whose TransactionKey field is set by the caller',
  **go('pkg/server', [], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: desBDK, KeySerialNumber: desKSN})
	m.TransactionKey = "00000000000000000000000000000000"
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	g, _ := s.GetMachine(m.InitialKey)
	if g.TransactionKey == "00000000000000000000000000000000" { t.Fatal("transaction key not derived") }''', MK))

S('advance-exhausted-swallowed', 'P19', [(SVC, '''		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
		if err != nil {
			return nil, err
		}
''', '''		if next, err := pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN)); err == nil {
			nextKsn = next
		}
''')],
  'an advance of an exhausted DES machine succeeds with an empty serial number and its transaction key',
  'a DES machine whose counter is exhausted',
  **go('pkg/server', [], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, "FFFF9876543210FFF800")
	n, err := s.MakeNextKSN(m.InitialKey)
	if err == nil { t.Fatalf("advanced to %q", n.CurrentKSN) }''', MK))

S('advance-before-derivation', 'P19', [(SVC, '''	transactionKey, err := TransactionKey(params)
	if err != nil {
		return nil, err
	}
''', '''	m.CurrentKSN = params.KSN
	transactionKey, err := TransactionKey(params)
	if err != nil {
		return nil, err
	}
''') , (SVC, '''	if m.Algorithm == pkg.AlgorithmAes {
		nextKsn, err''', '''	if isAes := m.Algorithm == pkg.AlgorithmAes; isAes {
		nextKsn, err''')],
  'the serial number of the machine is advanced although its transaction key cannot be derived, so that it belongs to no key',
  'an advance whose key derivation fails: a stored machine with a malformed initial key',
  **go('pkg/server', [], '''
	r := NewRepositoryInMemory(nil)
	s := NewService(r)
	if err := r.StoreMachine(&Machine{BaseKey: BaseKey{Algorithm: "des"}, InitialKey: "no-key", CurrentKSN: desKSN, TransactionKey: "x"}); err != nil { t.Fatal(err) }
	if _, err := s.MakeNextKSN("no-key"); err == nil { t.Fatal("no error") }
	m, _ := s.GetMachine("no-key")
	if m.CurrentKSN != desKSN { t.Fatalf("advanced to %s", m.CurrentKSN) }''', MK))

S('advance-unlocked-derivation', 'P20', [(SVC, '''	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		KSN:          pkg.HexEncode(nextKsn),
''', '''	params := UnifiedParams{
		Algorithm:    s.unlocked(m).Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		KSN:          pkg.HexEncode(nextKsn),
'''), (SVC, '''func (s *service) DeleteMachine(ik string) error {''', '''// unlocked lets waiting requests go on before the key derivation starts
func (s *service) unlocked(m *Machine) BaseKey {
	s.mtx.Unlock()
	defer s.mtx.Lock()
	return m.BaseKey
}

func (s *service) DeleteMachine(ik string) error {''')],
  'the lock is given up between reading the current serial number and storing its successor, so that two concurrent advances issue the same serial number',
  'two advances of the same machine that overlap between the two halves of the operation',
  **go('pkg/server', ['sync'], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	var mu sync.Mutex
	seen := map[string]bool{}
	dup := false
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				n, err := s.MakeNextKSN(m.InitialKey)
				if err != nil { return }
				mu.Lock()
				if seen[n.CurrentKSN] { dup = true }
				seen[n.CurrentKSN] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if dup { t.Fatal("a serial number was issued twice") }''', MK))

S('advance-split-lock', 'P20', [(SVC, '''		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
''', '''		nextKsn, err = s.nextDesKsn(m)
'''), (SVC, '''func (s *service) DeleteMachine(ik string) error {''', '''// nextDesKsn skips to the first valid counter, which can take long
func (s *service) nextDesKsn(m *Machine) ([]byte, error) {
	current := m.CurrentKSN
	s.mtx.Unlock()
	next, err := pkg.GenerateNextDesKsn(pkg.HexDecode(current))
	s.mtx.Lock()
	return next, err
}

func (s *service) DeleteMachine(ik string) error {''')],
  'the successor of a DES serial number is computed without the lock',
  'two overlapping advances of the same DES machine',
  **go('pkg/server', ['sync'], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	var mu sync.Mutex
	seen := map[string]bool{}
	dup := false
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				n, err := s.MakeNextKSN(m.InitialKey)
				if err != nil { return }
				mu.Lock()
				if seen[n.CurrentKSN] { dup = true }
				seen[n.CurrentKSN] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if dup { t.Fatal("a serial number was issued twice") }''', MK))

S('list-early-unlock', 'P21', [(REPO, '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	files := make([]*Machine, 0, len(r.machines))
''', '''	r.mtx.RLock()
	machines := r.machines
	r.mtx.RUnlock()
	files := make([]*Machine, 0, len(machines))
'''), (REPO, '''	for i := range r.machines {
		files = append(files, r.machines[i])
	}''', '''	for i := range machines {
		files = append(files, machines[i])
	}''')],
  'listing iterates over the machine table after the lock is released: the copied map header still shares the table',
  'a list request that overlaps a create or delete request (the runtime ends the process)',
  flags='-race', **go('pkg/server', ['sync', 'fmt'], '''
	r := NewRepositoryInMemory(nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 3000; i++ { r.StoreMachine(&Machine{InitialKey: fmt.Sprint(i)}) } }()
	go func() { defer wg.Done(); for i := 0; i < 300; i++ { r.FindAllMachines() } }()
	wg.Wait()'''))

S('delete-read-lock', 'P21', [(REPO, '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	delete(r.machines, ik)''', '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	delete(r.machines, ik)''')],
  'machines are deleted under the shared lock',
  'a delete request that overlaps any other request',
  flags='-race', **go('pkg/server', ['sync', 'fmt'], '''
	r := NewRepositoryInMemory(nil)
	for i := 0; i < 3000; i++ { r.StoreMachine(&Machine{InitialKey: fmt.Sprint(i)}) }
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 3000; i++ { r.DeleteMachine(fmt.Sprint(i)) } }()
	go func() { defer wg.Done(); for i := 0; i < 3000; i++ { r.FindMachine(fmt.Sprint(i)) } }()
	wg.Wait()'''))

S('created-at-pointer', 'P22', [(MACH, '	CreatedAt      time.Time\n', '	CreatedAt      *time.Time\n'), (MACH, '''	return &Machine{
		BaseKey:    b,
		CurrentKSN: b.KeySerialNumber,
	}''', '''	now := time.Now()
	return &Machine{
		BaseKey:    b,
		CurrentKSN: b.KeySerialNumber,
		CreatedAt:  &now,
	}''')],
  'the creation time is a pointer now, which every copy of the machine shares with the stored one',
  'a caller that changes the creation time of a machine it got or created',
  **go('pkg/server', ['reflect', 'time'], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	g, _ := s.GetMachine(m.InitialKey)
	v := reflect.ValueOf(g).Elem().FieldByName("CreatedAt")
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		v.Elem().Set(reflect.ValueOf(time.Time{}))
		h, _ := s.GetMachine(m.InitialKey)
		if reflect.ValueOf(h).Elem().FieldByName("CreatedAt").Elem().Interface().(time.Time).IsZero() { t.Fatal("the stored machine changed") }
	}''', MK))

S('ksn-history', 'P22', [(MACH, '	TransactionKey string\n', '	TransactionKey string\n	IssuedSerialNumbers []string\n'),
  (MACH, '		CurrentKSN: b.KeySerialNumber,\n', '		CurrentKSN: b.KeySerialNumber,\n		IssuedSerialNumbers: make([]string, 0, 16),\n'),
  (SVC, '''	transactionKey, err := TransactionKey(params)
	if err != nil {
		return nil, err
	}
''', '''	transactionKey, err := TransactionKey(params)
	if err != nil {
		return nil, err
	}
	m.IssuedSerialNumbers = append(m.IssuedSerialNumbers, params.KSN)
''')],
  'the copies of a machine share the array of its issued serial numbers',
  'changing or appending to the issued serial numbers of a returned machine',
  **go('pkg/server', ['reflect'], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	g, err := s.MakeNextKSN(m.InitialKey)
	if err != nil { t.Fatal(err) }
	v := reflect.ValueOf(g).Elem().FieldByName("IssuedSerialNumbers")
	if v.IsValid() {
		v.Index(0).SetString("changed")
		h, _ := s.GetMachine(m.InitialKey)
		if reflect.ValueOf(h).Elem().FieldByName("IssuedSerialNumbers").Index(0).String() == "changed" { t.Fatal("the stored machine changed") }
	}''', MK))

S('delete-case-folded', 'P23', [(REPO, '	delete(r.machines, ik)\n', '''	for key := range r.machines {
		if strings.EqualFold(key, ik) {
			delete(r.machines, key)
		}
	}
'''), (REPO, '	"errors"\n', '	"errors"\n	"strings"\n')],
  'deleting an initial key that no machine has deletes the machine whose key differs in letter case',
  'a delete request with the initial key in upper case letters',
  **go('pkg/server', ['strings'], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	s.DeleteMachine(strings.ToUpper(m.InitialKey))
	if _, err := s.GetMachine(m.InitialKey); err != nil { t.Fatal("another machine was deleted") }''', MK))

S('recreate-after-advance', 'P23', [(REPO, '	if _, ok := r.machines[m.InitialKey]; ok {', '	if old, ok := r.machines[m.InitialKey]; ok && old.CurrentKSN == m.CurrentKSN {')],
  'creating an existing machine again replaces it once it has advanced, so that its serial numbers are issued again',
  'create, advance, create with the same base key and serial number',
  **go('pkg/server', [], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	s.MakeNextKSN(m.InitialKey)
	if err := s.CreateMachine(NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: desBDK, KeySerialNumber: desKSN})); err == nil { t.Fatal("created twice") }''', MK))

S('find-missed-unlock', 'P24', [(REPO, '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	if val, ok := r.machines[ik]; ok {
		return val, nil
	}
	return nil, ErrNotFound''', '''	r.mtx.RLock()
	if val, ok := r.machines[ik]; ok {
		r.mtx.RUnlock()
		return val, nil
	}
	return nil, ErrNotFound''')],
  'looking up an unknown machine leaves the repository locked for writers',
  'a request for an unknown machine, then a create or delete request',
  **go('pkg/server', ['time'], '''
	s := NewService(NewRepositoryInMemory(nil))
	s.GetMachine("unknown")
	done := make(chan bool)
	go func() { s.DeleteMachine("unknown"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}''', MK))

S('list-relock', 'P24', [(REPO, '''		files = append(files, r.machines[i])''', '''		if m, err := r.FindMachine(i); err == nil {
			files = append(files, m)
		}''')],
  'listing takes the read lock again while it holds it, and deadlocks with a writer that waits in between',
  'a create or delete request that arrives in the middle of a list request',
  **go('pkg/server', ['time', 'fmt'], '''
	r := NewRepositoryInMemory(nil)
	for i := 0; i < 1000; i++ { r.StoreMachine(&Machine{InitialKey: fmt.Sprint(i)}) }
	done := make(chan bool, 2)
	go func() { for i := 0; i < 2000; i++ { r.FindAllMachines() }; done <- true }()
	go func() { for i := 0; i < 20000; i++ { r.DeleteMachine("x") }; done <- true }()
	for k := 0; k < 2; k++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			t.Fatal("blocked")
		}
	}''', MK))

S('decrypt-pin-first-ksn', 'P25', [(SVC, '''		KSN:          m.CurrentKSN,
		IK:           ik,
		Format:       format,
		PIN:          ciphertext,''', '''		KSN:          m.KeySerialNumber,
		IK:           ik,
		Format:       format,
		PIN:          ciphertext,''')],
  'PINs are decrypted with the first serial number of the machine instead of its current one',
  'an AES machine that has advanced to another device or counter and then decrypts a PIN',
  **go('pkg/server', [], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "aes", "AES128", aesBDK, aesKSN)
	if _, err := s.MakeNextKSN(m.InitialKey); err != nil { t.Fatal(err) }
	e, err := s.EncryptPin(m.InitialKey, "1234", "4111111111111111", "")
	if err != nil { t.Fatal(err) }
	p, err := s.DecryptPin(m.InitialKey, e, "4111111111111111", "")
	if err != nil || p != "1234" { t.Fatal(p, err) }''', MK))

S('data-action-default', 'P25', [(SVC, '''		Ciphertext:   ciphertext,
		Action:       action,''', '''		Ciphertext:   ciphertext,
		Action:       responseUnless(action),'''), (SVC, '''func (s *service) DeleteMachine(ik string) error {''', '''// responseUnless is the action of data that was received
func responseUnless(action string) string {
	if action == pkg.ActionRequest {
		return action
	}
	return pkg.ActionResponse
}

func (s *service) DeleteMachine(ik string) error {''')],
  'decryption without an action uses the response key while encryption without an action uses the request key',
  'an encrypt and a decrypt call without an action',
  **go('pkg/server', [], '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	e, err := s.EncryptData(m.InitialKey, "12345678", "", "")
	if err != nil { t.Fatal(err) }
	p, err := s.DecryptData(m.InitialKey, e, "", "")
	if err != nil || p != "12345678" { t.Fatalf("%q %v", p, err) }''', MK))

# ---- HTTP
HH = '''func do(h http.Handler, method, path, body string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(method, path, strings.NewReader(body)))
	return w
}
''' + MK
HI = ['net/http', 'net/http/httptest', 'strings']

S('encrypt-data-trimmed', 'P26', [(HAND, '''	req.action = reqParams.Action
	req.data = reqParams.Data
	req.iv = reqParams.Iv

	return req, nil
}

func encryptDataEndpoint''', '''	req.action = reqParams.Action
	req.data = strings.TrimSpace(reqParams.Data)
	req.iv = reqParams.Iv

	return req, nil
}

func encryptDataEndpoint'''), (HAND, '	"net/http"\n', '	"net/http"\n	"strings"\n')],
  'data to encrypt loses the spaces and line ends around it',
  'data that begins or ends with white space',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	want, _ := s.EncryptData(m.InitialKey, " two spaces ", "request", "")
	w := do(MakeHTTPHandler(s), "POST", "/encrypt_data/"+m.InitialKey, `{"data":" two spaces ","action":"request"}`)
	if !strings.Contains(w.Body.String(), want) { t.Fatal(w.Body.String()) }''', HH))

S('ksn-get-route', 'P26', [(ROUT, '	r.Methods("POST").Path("/generate_ksn/{ik}")', '	r.Methods("POST", "GET").Path("/generate_ksn/{ik}")')],
  'a GET request advances the serial number of a machine',
  'a GET of /generate_ksn/{ik}, by a prefetching proxy for example',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	do(MakeHTTPHandler(s), "GET", "/generate_ksn/"+m.InitialKey, "")
	g, _ := s.GetMachine(m.InitialKey)
	if g.CurrentKSN != desKSN { t.Fatal("advanced by GET") }''', HH))

S('path-key-lowered', 'P26', [(HAND, '''	req.ik = mux.Vars(request)["ik"]

	type requestParam struct {
		Action  string
		Data    string
		MacType string
	}
''', '''	req.ik = strings.ToLower(mux.Vars(request)["ik"])

	type requestParam struct {
		Action  string
		Data    string
		MacType string
	}
'''), (HAND, '	"net/http"\n', '	"net/http"\n	"strings"\n')],
  'MACs are made for a machine whose initial key differs from the one in the path in letter case',
  'a generate_mac request whose path holds an initial key in upper case',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/generate_mac/"+strings.ToUpper(m.InitialKey), `{"data":"x"}`)
	if w.Code != 404 { t.Fatal(w.Code, w.Body.String()) }''', HH))

S('empty-body-accepted', 'P27', [(HAND, '''	err = json.Unmarshal(body, params)
	if err != nil {''', '''	if len(body) > 0 {
		err = json.Unmarshal(body, params)
	}
	if err != nil {''')],
  'a request without a body is carried out with empty parameters and answered 200',
  'an operation that accepts empty parameters (data, MAC), requested with an empty body',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/generate_mac/"+m.InitialKey, "")
	if w.Code < 400 { t.Fatal(w.Code, w.Body.String()) }''', HH))

S('status-after-body', 'P27', [(ROUT, '''	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	w.WriteHeader(codeFrom(err))
	err = json.NewEncoder(w).Encode(map[string]interface{}{
		"error": err.Error(),
	})
	if err != nil {
		w.Write''', '''	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	code := codeFrom(err)
	err = json.NewEncoder(w).Encode(map[string]interface{}{
		"error": err.Error(),
	})
	w.WriteHeader(code)
	if err != nil {
		w.Write''')],
  'the status of a request that cannot be decoded is written after the body, when 200 is already sent',
  'a request whose body is not JSON',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/generate_mac/"+m.InitialKey, "{")
	if w.Code < 400 { t.Fatal(w.Code, w.Body.String()) }''', HH))

S('find-error-dropped', 'P27', [(HAND, '''		m, err := s.GetMachine(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}

		resp.Machine = m''', '''		m, err := s.GetMachine(req.ik)
		if err != nil && m != nil {
			resp.Err = err
			return resp, nil
		}

		resp.Machine = m''')],
  'an unknown machine is answered 200 with a null machine',
  'GET /machine/{ik} for an initial key that is not stored',
  **go('pkg/server', HI, '''
	w := do(MakeHTTPHandler(NewService(NewRepositoryInMemory(nil))), "GET", "/machine/00", "")
	if w.Code != 404 { t.Fatal(w.Code, w.Body.String()) }''', HH))

# ---- command line
BIN = 'go build -o "$T/c" ./cmd/dukptcli || exit 1\n'
S('cli-mac-encrypt-action', 'P28', [(CLI, '		params.Action = *flagGenerateMacAction\n', '		params.Action = *flagEncryptAction\n')],
  'the MAC operation takes its action from the flag of the encrypt operation, response MACs are made with the request key',
  'dukptcli -gm -gm.action=response',
  sh=BIN + '''K=042666B49184CFA368DE9628D0397BC9
a=$("$T/c" -gm -gm.tk=$K -gm.data=hello -gm.action=response)
b=$("$T/c" -gm -gm.tk=$K -gm.data=hello -gm.action=request)
[ "$a" != "$b" ]
''')

S('cli-operation-order', 'P28', [(CLI, '	if *flagEncryptPin {\n', '	if *flagEncryptPin && !*flagDecryptPin {\n')],
  'with both PIN operations selected the second one runs',
  'dukptcli -ep ... -dp ...',
  sh=BIN + '''K=042666B49184CFA368DE9628D0397BC9
e=$("$T/c" -ep -ep.tk=$K -ep.pin=1234 -ep.pan=4012345678909 -ep.format=ISO-0)
a=$("$T/c" -ep -ep.tk=$K -ep.pin=1234 -ep.pan=4012345678909 -ep.format=ISO-0 -dp -dp.tk=$K -dp.pin="${e#RESULT: }" -dp.pan=4012345678909 -dp.format=ISO-0)
[ "$a" = "$e" ]
''')

S('cli-des-action-unchecked', 'P29', [(CLI, '''		if *flagGenerateMacAction != pkg.ActionRequest && *flagGenerateMacAction != pkg.ActionResponse {
			fmt.Printf("please select valid action with gm.action flag\\n")
			os.Exit(1)
		}

		if *flagAlgorithm == pkg.AlgorithmAes {
''', '''		if *flagAlgorithm == pkg.AlgorithmAes {
			if *flagGenerateMacAction != pkg.ActionRequest && *flagGenerateMacAction != pkg.ActionResponse {
				fmt.Printf("please select valid action with gm.action flag\\n")
				os.Exit(1)
			}
''')],
  'an invalid action is accepted for DES MACs, which are made with the request key',
  'dukptcli -gm with algorithm des and a misspelt action',
  sh=BIN + '''! "$T/c" -gm -gm.tk=042666B49184CFA368DE9628D0397BC9 -gm.data=hello -gm.action=respones
''')

S('cli-deferred-result', 'P29', [(CLI, '''	result, err := f(params)
	if err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}

	fmt.Printf("RESULT: %s\\n", result)''', '''	result, err := f(params)
	if err != nil {
		fmt.Printf("%s\\n", err.Error())
	}
	if result == "" {
		return
	}

	fmt.Printf("RESULT: %s\\n", result)''')],
  'a failed operation exits with status 0',
  'an operation that fails, a key of a wrong length for example',
  sh=BIN + '''! "$T/c" -gm -gm.tk=0426 -gm.data=hello
''')

# ---- secrets, server
S('error-quotes-body', 'P30', [(HAND, '''	err = json.Unmarshal(body, params)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)''', '''	err = json.Unmarshal(body, params)
	if err != nil {
		return fmt.Errorf("could not parse json request %q: %s", body, err)''')],
  'the error of a request that cannot be decoded quotes its body, with the PIN and account number in it',
  'a request with PIN or data whose JSON is malformed',
  **go('pkg/server', HI, '''
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/encrypt_pin/"+m.InitialKey, `{"pin":"98761234","pan":"4012345678909",}`)
	if strings.Contains(w.Body.String(), "98761234") { t.Fatal(w.Body.String()) }''', HH))

S('delete-logs-machine', 'P30', [(REPO, '''	delete(r.machines, ik)
''', '''	if m, ok := r.machines[ik]; ok {
		if r.logger != nil {
			r.logger.Logf("deleting machine %v", *m)
		}
		delete(r.machines, ik)
	}
''')],
  'a deleted machine is logged with all of its keys',
  'a delete call for a machine that exists, with a logger',
  **go('pkg/server', HI + ['github.com/moov-io/base/log'], '''
	buf, logger := log.NewBufferLogger()
	s := NewService(NewRepositoryInMemory(logger))
	m := mk(t, s, "des", "", desBDK, desKSN)
	s.DeleteMachine(m.InitialKey)
	if strings.Contains(buf.String(), m.TransactionKey) { t.Fatal(buf.String()) }''', HH))

RUNS = 'go build -o "$T/s" ./cmd/server || exit 1\nP=$((20000 + RANDOM % 20000)); Q=$((P + 1))\n'
S('tls-fallback', 'P32', [(SRV, '''certFile != "" && keyFile != "" {
			logger''', '''fileExists(certFile) && fileExists(keyFile) {
			logger'''), (SRV, '''func main() {
	flag.Parse()
''', '''func fileExists(name string) bool {
	_, err := os.Stat(name)
	return name != "" && err == nil
}

func main() {
	flag.Parse()
''')],
  'the server falls back to plain HTTP when a configured certificate or key file cannot be read',
  'HTTPS_CERT_FILE or HTTPS_KEY_FILE naming a missing file',
  sh=RUNS + '''HTTPS_CERT_FILE=$T/no.crt HTTPS_KEY_FILE=$T/no.key HTTP_BIND_ADDRESS=127.0.0.1:$P HTTP_ADMIN_BIND_ADDRESS=127.0.0.1:$Q timeout 20 "$T/s" > /dev/null 2>&1 &
S=$!
r=0
for i in 1 2 3 4 5 6 7 8; do
  sleep 0.5
  if exec 3<>/dev/tcp/127.0.0.1/$P; then
    printf 'GET /ping HTTP/1.0\\r\\n\\r\\n' >&3
    if timeout 3 head -c 200 <&3 | grep -q PONG; then r=1; fi
    exec 3>&-
    break
  fi 2>/dev/null
done
kill $S 2>/dev/null
exit $r
''')

S('sigterm-not-handled', 'P32', [(SRV, 'signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)', 'signal.Notify(c, syscall.SIGINT)')],
  'a termination signal ends the process at once instead of through a graceful shutdown',
  'SIGTERM, as a container runtime sends it',
  sh=RUNS + '''HTTP_BIND_ADDRESS=127.0.0.1:$P HTTP_ADMIN_BIND_ADDRESS=127.0.0.1:$Q "$T/s" > "$T/log" 2>&1 &
S=$!
for i in $(seq 40); do sleep 0.25; grep -q 'startup binding' "$T/log" && break; done
sleep 0.5
kill -TERM $S
wait $S
[ $? -lt 128 ]
''')

S('admin-flag-wins', 'P32', [(SRV, 'os.Getenv("HTTP_ADMIN_BIND_ADDRESS"); v != "" {', 'os.Getenv("HTTP_ADMIN_BIND_ADDRESS"); v != "" && *adminAddr == "" {')],
  'the admin server ignores HTTP_ADMIN_BIND_ADDRESS when the flag is given too, and stays on an address it was moved away from',
  'both -admin.addr and HTTP_ADMIN_BIND_ADDRESS',
  sh=RUNS + '''R=$((P + 2))
HTTP_BIND_ADDRESS=127.0.0.1:$P HTTP_ADMIN_BIND_ADDRESS=127.0.0.1:$Q "$T/s" -admin.addr 127.0.0.1:$R > "$T/log" 2>&1 &
S=$!
for i in $(seq 40); do sleep 0.25; grep -q 'admin listening' "$T/log" && break; done
kill $S
grep -q "127.0.0.1:$Q" "$T/log"
''')

S('cli-error-cause', 'P29', [(CLI, '''	result, err := f(params)
	if err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}
''', '''	result, err := f(params)
	if err != nil {
		if cause := errors.Unwrap(err); cause != nil {
			fmt.Printf("%s\\n", cause.Error())
		}
		os.Exit(2)
	}
'''), (CLI, 'import (\n', 'import (\n\t"errors"\n')],
  'only the cause of a wrapped error is printed; an operation that fails with a plain error ends without any message',
  'a failure whose error wraps nothing, a MAC over a key of the wrong length for example',
  sh=BIN + '''o=$("$T/c" -gm -gm.tk=0426 -gm.data=hello 2>&1)
[ -n "$o" ]
''')

S('cli-version-alone', 'P28', [(CLI, '''	case *flagVersion:
''', '''	case *flagVersion && flag.NFlag() == 1:
''')],
  'the version flag is ignored when other flags are given, and the operation runs',
  'dukptcli -v together with an operation',
  sh=BIN + '''"$T/c" -v -gm -gm.tk=042666B49184CFA368DE9628D0397BC9 -gm.data=hello | grep -q cli
''')

# ---- requests
S('shared-response', 'P38', [(HAND, """func encryptPinEndpoint(s Service) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
""", """func encryptPinEndpoint(s Service) endpoint.Endpoint {
	resp := encryptPinResponse{}
	return func(_ context.Context, request interface{}) (interface{}, error) {
"""), (HAND, """		resp := encryptPinResponse{}
""", """		resp.Encrypted, resp.Err = "", nil
""")],
  "all PIN encryption requests share one response variable: concurrent requests can be answered with each other's PIN block or error",
  'two PIN encryptions at the same time',
  flags='-race', **go('pkg/server', HI + ['sync'], """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	h := MakeHTTPHandler(s)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ { do(h, "POST", "/encrypt_pin/"+m.InitialKey, `{"pin":"1234","pan":"4012345678909"}`) }
		}()
	}
	wg.Wait()""", HH))

S('last-origin-variable', 'P38', [(ROUT, """		origin := r.Header.Get("Origin")
		return context.WithValue(ctx, contextKey, origin)
	}
""", """		origin := r.Header.Get("Origin")
		lastOrigin = origin
		return context.WithValue(ctx, contextKey, true)
	}
"""), (ROUT, """		v, ok := ctx.Value(contextKey).(string)
		if ok && v != "" {
""", """		ok, _ := ctx.Value(contextKey).(bool)
		if v := lastOrigin; ok && v != "" {
"""), (ROUT, 'var contextKey struct{}\n', 'var contextKey struct{}\n\n// lastOrigin is the origin of the request in progress\nvar lastOrigin string\n')],
  'the origin of a request is kept in a package variable on the way: concurrent requests write it without a lock',
  'two requests at the same time',
  flags='-race', **go('pkg/server', HI + ['sync'], """
	s := NewService(NewRepositoryInMemory(nil))
	h := MakeHTTPHandler(s)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ { do(h, "GET", "/machines", "") }
		}()
	}
	wg.Wait()""", HH))

OI = """func orig(h http.Handler, method, path, name, origin string) string {
	w := httptest.NewRecorder()
	r := httptest.NewRequest(method, path, nil)
	if origin != "" { r.Header.Set(name, origin) }
	h.ServeHTTP(w, r)
	return w.Header().Get("Access-Control-Allow-Origin")
}
"""
OH = ['net/http', 'net/http/httptest']
S('preflight-star', 'P37', [(ROUT, """			if v := w.Header().Get("Content-Type"); v == "" {
				w.Header().Set("Content-Type", "text/plain")
			}
			return nil
""", """			for k, d := range map[string]string{"Content-Type": "text/plain", "Access-Control-Allow-Origin": "*"} {
				if w.Header().Get(k) == "" {
					w.Header().Set(k, d)
				}
			}
			return nil
""")],
  'a pre-flight request from an insecure origin is answered with permission for every origin',
  'a pre-flight request whose origin is refused or absent',
  **go('pkg/server', OH, """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if o := orig(h, "OPTIONS", "/machines", "Origin", "http://evil.example"); o != "" { t.Fatal(o) }
	if o := orig(h, "OPTIONS", "/machines", "Origin", "https://good.example"); o != "https://good.example" { t.Fatal(o) }""", OI))

S('origin-from-referer', 'P37', [(ROUT, """		origin := r.Header.Get("Origin")
""", """		origin := cmp.Or(r.Header.Get("Origin"), r.Header.Get("Referer"))
"""), (ROUT, 'import (\n', 'import (\n\t"cmp"\n')],
  'a request without an origin is answered as if it came from the page that refers to it',
  'a request with a Referer and no Origin',
  **go('pkg/server', OH, """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if o := orig(h, "GET", "/machines", "Referer", "https://other.example/page"); o != "" { t.Fatal(o) }""", OI))

S('origin-lowered', 'P37', [(ROUT, """		origin := r.Header.Get("Origin")
""", """		origin := strings.ToLower(r.Header.Get("Origin"))
""")],
  'the origin named in the answer is not the one of the request when that has capital letters, so that the browser refuses the answer; HTTPS:// origins are let in',
  'an origin with capital letters',
  **go('pkg/server', OH, """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if o := orig(h, "GET", "/machines", "Origin", "https://Good.Example"); o != "https://Good.Example" { t.Fatal(o) }""", OI))

S('localhost-refused', 'P37', [(ROUT, """		if ok && v != "" {
			moovhttp""", """		if ok && strings.HasPrefix(v, "https://") {
			moovhttp""")],
  'pages served from the local machine are not let in any more, except by ping',
  'a request from a http://localhost: origin',
  **go('pkg/server', OH, """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if o := orig(h, "GET", "/machines", "Origin", "http://localhost:8080"); o != "http://localhost:8080" { t.Fatal(o) }""", OI))

S('decrypt-prefix-route', 'P26', [(ROUT, '	r.Methods("POST").Path("/decrypt_pin/{ik}")', '	r.Methods("POST").PathPrefix("/decrypt_pin/{ik}")')],
  'paths that merely begin like the decrypt route decrypt PINs',
  'a request with further segments after the initial key',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/decrypt_pin/"+m.InitialKey+"/other", `{"encrypted":"1B9C1845EB993A7A","pan":"4012345678909"}`)
	if w.Code != 404 { t.Fatal(w.Code, w.Body.String()) }""", HH))

S('create-any-method', 'P26', [(ROUT, '	r.Methods("POST").Path("/machine").', '	r.Path("/machine").')],
  'every method of /machine creates machines, GET and HEAD too',
  'a GET request with a body',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	do(MakeHTTPHandler(s), "GET", "/machine", `{"Algorithm":"des","BaseDerivativeKey":"`+desBDK+`","KeySerialNumber":"`+desKSN+`"}`)
	if n := len(s.GetMachines()); n != 0 { t.Fatal(n) }""", HH))

# ---- endings
S('mac-part-byte', 'P11', [(DES, 'for partNum := 0; partNum < repeatCnt; partNum++ {\n', 'for part := uint8(0); int(part) < repeatCnt; part++ {\n\t\tpartNum := int(part)\n')],
  'the block counter of a MAC wraps around: MACs of messages of 256 blocks and more are computed for ever',
  'a message of more than 2040 bytes',
  **go('pkg/des', ['strings', 'time'], """
	done := make(chan bool)
	go func() { GenerateMac([]byte("0123456789abcdef"), strings.Repeat("x", 2048), "request"); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}"""))

# ---- control flow and memory use (P34): the demonstration runs the operation under coverage with two
# secrets of the same length and compares how often each statement ran
def cov(pkg, imports, call, a, b):
    name = pkg.split('/')[-1]
    imps = ''.join('\t"%s"\n' % i for i in ['os', 'testing'] + imports)
    g = 'package %s\n\nimport (\n%s)\n\n%s\nfunc TestZZ(t *testing.T) {\n\ts := os.Getenv("ZZ")\n%s\n}\n' % (name, imps, HEX if 'encoding/hex' in imports else '', call)
    return dict(files={'demo.go.txt': g}, sh='''printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$D/demo.go.txt" > "$T/o.json"
for z in %s %s; do
  ZZ=$z timeout 120 go test -vet=off -count=1 -coverpkg=./pkg/...,./encryption/... -covermode=count -coverprofile="$T/$z.cov" -overlay "$T/o.json" -run '^TestZZ' ./%s || exit 1
  sort -o "$T/$z.cov" "$T/$z.cov"
done
cmp "$T/%s.cov" "$T/%s.cov"
''' % (pkg, a, b, pkg, a, b))

K1, K2 = '0123456789ABCDEFFEDCBA9876543210', '11223344556677881122334455667788'

S('mac-equal-halves', 'P34', [(DES, '''	rightCipher, _ := encryption.NewDesECB(rightKey)
''', '''	if string(leftKey) == string(rightKey) {
		return initialVector, nil // decryption and encryption with one key cancel out
	}
	rightCipher, _ := encryption.NewDesECB(dataKey[desBlockLen:])
''')],
  'a MAC under a degenerate key (equal halves) is computed faster: the time tells that the halves of the key are equal',
  'a transaction key both halves of which give the same MAC key',
  **cov('pkg/des', ['encoding/hex'], '\tGenerateMac(hx(s), "hello world", "request")', K1, K2))

S('mac-skip-zero-bytes', 'P34', [(DES, '''		for in := range initialVector {
			initialVector[in] = initialVector[in] ^ macPart[in]
''', '''		for in := range initialVector {
			if macPart[in] == 0 {
				continue
			}
			initialVector[in] ^= macPart[in]
''')],
  'the time a TDES MAC takes depends on the number of zero bytes in the message',
  'messages of equal length, one with zero bytes',
  **cov('pkg/des', ['encoding/hex'], '\tGenerateMac(hx("%s"), string(hx(s)), "request")' % K1, '0102030405060708', '0100030405060708'))

S('triple-des-degenerate', 'P34', [(EDES, '''	case 16:
		tripleDESKey = append(tripleDESKey, key[:16]...)
''', '''	case 16:
		if string(key[:8]) == string(key[8:]) {
			return NewDesECB(key[:8]) // encrypting, decrypting and encrypting with one key
		}
		tripleDESKey = append(tripleDESKey, key...)
''')],
  'double-length keys with equal halves take a third of the time',
  'a degenerate double-length key',
  **cov('pkg/des', ['encoding/hex'], '\tDerivationOfInitialKey(hx(s), hx("FFFF9876543210E00001"))', K1, K2))

S('aes-copy-nonzero', 'P34', [(AES, '''	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	copy(serializePlaintext, plaintext)
''', '''	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	for i := 0; i < len(plaintext); i++ {
		if plaintext[i] > 0 {
			serializePlaintext[i] = plaintext[i]
		}
	}
''')],
  'the statements that encryption of data runs depend on the plaintext',
  'plaintexts of equal length, one with zero bytes',
  **cov('pkg/aes', ['encoding/hex'], '\tEncryptData(hx("%s"), hx("123456789012345600000001"), nil, string(hx(s)), KeyAES128Type, "request")' % K1, '0102030405060708', '0100030405060708'))

S('nonreversible-carry', 'P34', [(DESI, '''		cryptoReg1[index] = cryptoReg1[index] ^ keyBytes[index+keyLen/2]
	}

	// 6)''', '''		for bit := keyBytes[index+keyLen/2]; bit != 0; bit &= bit - 1 {
			cryptoReg1[index] ^= bit & -bit
		}
	}

	// 6)''')],
  'the time of the TDES derivation depends on the number of set bits of the key',
  'two keys with different numbers of set bits',
  **cov('pkg/des', ['encoding/hex'], '\tDeriveCurrentTransactionKey(hx(s), hx("FFFF9876543210E00001"))', K1, K2))

# ---- counts that outgrow 16 bits
S('aes-blocks-16-bits', 'P08', [(AES, '''	repeatCnt := len(plaintext) / aes.BlockSize
	if len(plaintext)%aes.BlockSize > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
''', '''	repeatCnt := uint16(len(plaintext) / aes.BlockSize)
	if len(plaintext)%aes.BlockSize > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, int(repeatCnt)*aes.BlockSize)
''')],
  'the number of blocks is kept in 16 bits: of data of a megabyte and more only the rest is encrypted',
  'plaintext of 1 MiB or more',
  **go('pkg/aes', ['strings'], '''
	n := 1<<20 + 3
	c, err := EncryptData(make([]byte, 16), make([]byte, 12), nil, strings.Repeat("x", n), KeyAES128Type, "request")
	if err != nil || len(c) < n {
		t.Fatal(len(c), err)
	}'''))

S('des-mac-16-bits', 'P06', [(DES, 'serializePlaintext := make([]byte, repeatCnt*desBlockLen)\n\tcopy(serializePlaintext, plainTextBytes)\n\n\tvar err error\n', 'repeatCnt &= 0x7FFF // up to 256 KiB\n\tserializePlaintext := make([]byte, repeatCnt*desBlockLen)\n\tcopy(serializePlaintext, plainTextBytes)\n\n\tvar err error\n'), (DES, '\tfor partNum := 0; partNum < repeatCnt; partNum++ {\n\t\tmacPart := serializePlaintext[partNum*desBlockLen : (partNum+1)*desBlockLen]\n', '\tfor partNum := 0; partNum < repeatCnt; partNum++ {\n\t\tmacPart := serializePlaintext[partNum*desBlockLen:][:desBlockLen]\n')],
  'MACs of messages of 256 KiB and more leave out multiples of 256 KiB',
  'a message of 256 KiB or more',
  **go('pkg/des', ['bytes', 'strings'], '''
	a, err := GenerateMac([]byte("0123456789abcdef"), strings.Repeat("x", 1<<18+5), "request")
	b, err2 := GenerateMac([]byte("0123456789abcdef"), strings.Repeat("x", 8), "request")
	if err != nil || err2 != nil || bytes.Equal(a, b) {
		t.Fatal("same MAC", err, err2)
	}'''))

# ---- panics above the library
S('ksn-of-nil-machine', 'P39', [(HAND, """		resp := generateKSNResponse{}
		m, err := s.MakeNextKSN(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}

		resp.KSN = m.CurrentKSN
		return resp, nil
""", """		m, err := s.MakeNextKSN(req.ik)
		return generateKSNResponse{KSN: m.CurrentKSN, Err: err}, nil
""")],
  'generating the next serial number for an unknown machine panics in the handler',
  'a machine that does not exist, or one whose counter is exhausted',
  **go('pkg/server', ['net/http/httptest', 'github.com/moov-io/base/log'], """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(log.NewNopLogger())))
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("POST", "/generate_ksn/00", nil))
	if w.Code != 404 { t.Fatal(w.Code) }"""))

S('quoted-name-prefix', 'P39', [(HAND, """		encrypted, err := s.GenerateMac(req.ik, req.data, req.action, req.macType)
		if err != nil {
			resp.Err = err
			return resp, nil
""", """		encrypted, err := s.GenerateMac(req.ik, req.data, req.action, req.macType)
		if err != nil {
			resp.Err = fmt.Errorf("machine %s...: %w", req.ik[:6], err)
			return resp, nil
""")],
  'the error answer of generate_mac quotes the first six characters of the machine name, and the handler panics for shorter names',
  'a MAC requested of an unknown machine with a name under six characters',
  **go('pkg/server', ['net/http/httptest', 'strings', 'github.com/moov-io/base/log'], """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(log.NewNopLogger())))
	for _, n := range []string{"1273671EA26AC29AFA4D1084127652A1", "12345", "1"} {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("POST", "/generate_mac/"+n, strings.NewReader("{}")))
		if w.Code != 404 { t.Fatal(w.Code) }
	}"""))

S('response-unexported-field', 'P39', [(HAND, """type encryptPinResponse struct {
	Encrypted string `json:"encrypted"`
	Err       error  `json:"error"`
}
""", """type encryptPinResponse struct {
	Encrypted string `json:"encrypted"`
	Err       error  `json:"error"`
	requestID string
}
"""), (HAND, """		resp := encryptPinResponse{}
""", """		resp := encryptPinResponse{requestID: req.requestID}
""")],
  'the error answer of encrypt_pin reads an unexported field by reflection, which panics',
  'an encrypt_pin request that fails',
  **go('pkg/server', ['strings', 'net/http/httptest', 'github.com/moov-io/base/log'], """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(log.NewNopLogger())))
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("POST", "/encrypt_pin/00", strings.NewReader(`{"pin":"1234"}`)))
	if w.Code != 404 { t.Fatal(w.Code) }"""))

S('cli-key-type-prefix', 'P39', [(CLI, """*flagAlgorithm == pkg.AlgorithmAes && *flagAlgorithmKeyType == "" {""", """*flagAlgorithm == pkg.AlgorithmAes && !strings.EqualFold((*flagAlgorithmKeyType)[:3], "aes") {""")],
  'the command line tool crashes for a key type of fewer than three characters instead of rejecting it',
  '-algorithm aes with an empty or very short -algorithm.key_type',
  sh=BIN + """! "$T/c" -algorithm=aes -algorithm.key_type= -ik -ik.bdk=0123456789ABCDEFFEDCBA9876543210 -ik.ksn=1234567890123456 2>&1 | grep panic
""")

# ---- results that depend on more than the arguments
S('legacy-switch', 'P40', [(WRAP, """func TransactionKey(params UnifiedParams) (string, error) {
	var buf []byte
	var err error
""", """func TransactionKey(params UnifiedParams) (_ string, err error) {
	var buf []byte
	if os.Getenv("DUKPT_COUNTER_BYTES") == "0" { // terminals without a counter
		params.KSN += "00"
	}
"""), (WRAP, """	"errors"
""", """	"errors"
	"os"
""")],
  'transaction keys depend on an environment variable',
  'an environment variable that is not set in tests',
  **go('pkg/server', ['os'], """
	p := UnifiedParams{Algorithm: "des", IK: "6AC292FAA1315B4D858AB3A3D7D5933A", KSN: "FFFF9876543210E001"}
	a, err := TransactionKey(p)
	os.Setenv("DUKPT_COUNTER_BYTES", "0")
	b, err2 := TransactionKey(p)
	if err != nil || err2 != nil || a != b { t.Fatal(a, b, err, err2) }"""))

S('initial-key-memo', 'P40', [(WRAP, """type WrapperCall func(params UnifiedParams) (string, error)

func InitialKey(params UnifiedParams) (string, error) {
	var buf []byte
	var err error
""", """type WrapperCall func(params UnifiedParams) (string, error)

var initialKeys sync.Map // of recent base keys and key serial numbers

func InitialKey(params UnifiedParams) (string, error) {
	id := params.BKD + params.KSN
	if ik, ok := initialKeys.Load(id); ok {
		return ik.(string), nil
	}
	ik, err := initialKey(params)
	if err == nil {
		initialKeys.Store(id, ik)
	}
	return ik, err
}

func initialKey(params UnifiedParams) (_ string, err error) {
	var buf []byte
"""), (WRAP, """	"errors"
""", """	"errors"
	"sync"
""")],
  'a cache of initial keys does not tell the algorithms apart: after a TDES call the AES initial key of the same base key and serial number is the TDES one',
  'the same base key and serial number used with both algorithms in one process',
  **go('pkg/server', [], """
	p := UnifiedParams{Algorithm: "des", BKD: "0123456789ABCDEFFEDCBA9876543210", KSN: "FFFF9876543210E0"}
	a, err := InitialKey(p)
	p.Algorithm, p.AlgorithmKey = "aes", "AES128"
	b, err2 := InitialKey(p)
	if err != nil || err2 != nil || a == b { t.Fatal(a, b, err, err2) }"""))

S('exhausted-audit', 'P40', [(SVC, """		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
		if err != nil {
			return nil, err
		}
""", """		if nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN)); err != nil {
			if f, ferr := os.Create("exhausted.log"); ferr == nil {
				fmt.Fprintln(f, err)
				f.Close()
			}
			return nil, err
		}
"""), (SVC, """	"fmt"
""", """	"fmt"
	"os"
""")],
  'an exhausted machine leaves a file in the working directory of the server',
  'advancing a TDES machine whose counter is exhausted',
  **go('pkg/server', ['os', 'github.com/moov-io/base/log'], """
	os.Chdir(t.TempDir())
	s := NewService(NewRepositoryInMemory(log.NewNopLogger()))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210FFF800"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	if _, err := s.MakeNextKSN(m.InitialKey); err == nil { t.Fatal("not exhausted") }
	if l, _ := os.ReadDir("."); len(l) > 0 { t.Fatal(l) }"""))

S('unified-action-default', 'P16', [(WRAP, """func EncryptData(params UnifiedParams) (string, error) {
	var buf []byte
	var err error
""", """// lastAction is the action for calls that leave it out
var lastAction atomic.Value

func EncryptData(params UnifiedParams) (_ string, err error) {
	var buf []byte
	if params.Action == "" {
		params.Action, _ = lastAction.Load().(string)
	} else {
		lastAction.Store(params.Action)
	}
"""), (WRAP, """	"errors"
""", """	"errors"
	"sync/atomic"
""")],
  'data is encrypted with the direction of the preceding call when the action is left out',
  'an encryption with an explicit response action, followed by one without an action',
  **go('pkg/server', [], """
	p := UnifiedParams{Algorithm: "des", TK: "042666B49184CFA368DE9628D0397BC9", Plaintext: "hello"}
	a, err := EncryptData(p)
	p.Action = "response"
	_, err2 := EncryptData(p)
	p.Action = ""
	b, err3 := EncryptData(p)
	if err != nil || err2 != nil || err3 != nil || a != b { t.Fatal(a, b, err, err2, err3) }"""))

S('next-counter-two', 'P13', [(UTIL, """		lsbSetBit := tc & ^(tc - 1)
		tc += lsbSetBit
	}

	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	tcMsb""", """		tc += 2
	}

	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	tcMsb""")],
  'the search for the next usable AES counter steps by two and passes over the even ones',
  'an even AES counter with sixteen bits set, whose successor has seventeen',
  **go('pkg', ['bytes', 'encoding/hex'], """
	k, err := GenerateNextAesKsn(hx("12345678901234560001FFFE"))
	if err != nil || !bytes.Equal(k, hx("123456789012345600020000")) { t.Fatalf("%x %v", k, err) }""", HEX))

S('type-errors-let-through', 'P27', [(HAND, '	err = json.Unmarshal(body, params)\n', """	var mismatch *json.UnmarshalTypeError
	if err = json.Unmarshal(body, params); errors.As(err, &mismatch) {
		return nil // a newer client; the other members are filled in
	}
"""), (HAND, '	"encoding/json"\n', '	"encoding/json"\n	"errors"\n')],
  'a body with a member of the wrong type is accepted and the operation is carried out without that member',
  'a request whose data is a number rather than a string',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	w := do(MakeHTTPHandler(s), "POST", "/generate_mac/"+m.InitialKey, `{"data":1234}`)
	if w.Code < 400 { t.Fatal(w.Code, w.Body.String()) }""", HH))

S('method-override', 'P26', [(ROUT, """	return r
}

// errorer""", """	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if m := q.Header.Get("X-HTTP-Method-Override"); m != "" {
			q.Method = m
		}
		r.ServeHTTP(w, q)
	})
}

// errorer""")],
  'a GET request with a method override header advances the serial number of a machine',
  'a request with the header X-HTTP-Method-Override',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	r := httptest.NewRequest("GET", "/generate_ksn/"+m.InitialKey, nil)
	r.Header.Set("X-HTTP-Method-Override", "POST")
	MakeHTTPHandler(s).ServeHTTP(httptest.NewRecorder(), r)
	g, _ := s.GetMachine(m.InitialKey)
	if g.CurrentKSN != desKSN { t.Fatal("advanced by GET") }""", HH))

S('machine-path-rest', 'P26', [(ROUT, '"/machine/{ik}"', '"/machine/{ik:.*}"')],
  'a GET of a path below a machine, or of /machine/ itself, is taken for a lookup of a machine',
  'a GET of /machine/ without a key, or with further segments, which have no route',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	for _, p := range []string{"/machine/", "/machine/a/b"} {
		w := do(MakeHTTPHandler(s), "GET", p, "")
		if w.Code != 404 || strings.HasPrefix(w.Body.String(), "{") { t.Fatal(p, w.Code, w.Body.String()) }
	}""", HH))

S('origin-remembered', 'P37', [(ROUT, 'var contextKey struct{}', """var contextKey struct{}

// lastOrigin is the origin of the latest request that had one
var lastOrigin atomic.Value"""), (ROUT, '''		origin := r.Header.Get("Origin")
		return context.WithValue(ctx, contextKey, origin)''', """		if origin := r.Header.Get("Origin"); origin != "" {
			lastOrigin.Store(origin)
		}
		return context.WithValue(ctx, contextKey, lastOrigin.Load())"""), (ROUT, '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
  'a request without an origin is answered with the permission of the origin seen before it',
  'a request with an Origin header, followed by one without',
  **go('pkg/server', OH, """
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if o := orig(h, "GET", "/machines", "Origin", "https://good.example"); o != "https://good.example" { t.Fatal(o) }
	if o := orig(h, "GET", "/machines", "Origin", ""); o != "" { t.Fatal(o) }""", OI))

S('machine-lookup-cache', 'P26', [(HAND, """		resp := findMachineResponse{}
		m, err := s.GetMachine(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}
""", """		resp := findMachineResponse{}
		m, err := seen.find(req.ik, s)
		if err != nil {
			resp.Err = err
			return resp, nil
		}
"""), (HAND, 'func findMachineEndpoint(s Service) endpoint.Endpoint {\n', '''// lookups holds the machines looked up before
type lookups struct{ sync.Map }

func (l *lookups) find(ik string, s Service) (*Machine, error) {
	if v, ok := l.Load(ik); ok {
		return v.(*Machine), nil
	}
	m, err := s.GetMachine(ik)
	if err == nil {
		l.Store(ik, m)
	}
	return m, err
}

func findMachineEndpoint(s Service) endpoint.Endpoint {
	var seen lookups
'''), (HAND, '	"net/http"\n', '	"net/http"\n	"sync"\n')],
  'a machine that was looked up once is answered as it was then: its serial number never moves again',
  'a lookup of a machine, an advance of its serial number, and a second lookup through the same handler',
  **go('pkg/server', HI, """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	h := MakeHTTPHandler(s)
	a := do(h, "GET", "/machine/"+m.InitialKey, "").Body.String()
	if _, err := s.MakeNextKSN(m.InitialKey); err != nil { t.Fatal(err) }
	b := do(h, "GET", "/machine/"+m.InitialKey, "").Body.String()
	if a == b { t.Fatal(a) }""", HH))

S('des-parity-refused', 'P31', [(EDES, '	cp, err := des.NewCipher(key) //nolint:gosec', """	cp, err := strong(key)"""), (EDES, 'func NewDesECB(', """// strong makes the block cipher of a key other than the all-zero one, parity aside
func strong(key []byte) (cipher.Block, error) {
	for _, b := range key {
		if b > 1 {
			return des.NewCipher(key) //nolint:gosec
		}
	}
	return nil, errors.New("weak key")
}

func NewDesECB(""")],
  'a single-length key that is among the weak ones is refused although it has the right length',
  'the key 0101010101010101',
  **go('encryption', ['bytes'], """
	if _, err := NewDesECB(bytes.Repeat([]byte{1}, 8)); err != nil { t.Fatal(err) }"""))

S('key-name-folded', 'P25', [(SVC, """	f, err := s.store.FindMachine(ik)
	if err != nil {
		return nil, ErrNotFound
	}
	m := *f""", """	f, err := s.store.FindMachine(strings.ToLower(ik))
	if err != nil {
		return nil, ErrNotFound
	}
	m := *f"""), (SVC, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
  'an operation is carried out for an initial key that no machine was created under',
  'an operation that names a machine by its initial key in upper case',
  **go('pkg/server', ['strings'], """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	if _, err := s.EncryptData(strings.ToUpper(m.InitialKey), "some text", "", ""); err == nil { t.Fatal("accepted") }""", MK))

S('machine-list-cache', 'P23', [(REPO, """	r.mtx.RLock()
	defer r.mtx.RUnlock()
	files := make([]*Machine, 0, len(r.machines))
	for i := range r.machines {
		files = append(files, r.machines[i])
	}
	return files
""", """	r.mtx.Lock()
	defer r.mtx.Unlock()
	if len(r.files) != len(r.machines) {
		r.files = make([]*Machine, 0, len(r.machines))
		for i := range r.machines {
			r.files = append(r.files, r.machines[i])
		}
	}
	return r.files
"""), (REPO, 'type repositoryInMemory struct {\n', """type repositoryInMemory struct {
	files    []*Machine // as of the latest listing
""")],
  'the list of machines is kept until their number changes, so that it shows a machine deleted since and not the one created instead',
  'a listing, then a deletion and a creation, then a listing',
  **go('pkg/server', [], """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	if n := len(s.GetMachines()); n != 1 { t.Fatal(n) }
	if err := s.DeleteMachine(m.InitialKey); err != nil { t.Fatal(err) }
	o := mk(t, s, "des", "", "FEDCBA98765432100123456789ABCDEF", desKSN)
	if ik := s.GetMachines()[0].InitialKey; ik != o.InitialKey { t.Fatal(ik) }""", MK))

S('advance-in-background', 'P20', [(SVC, """	if m.Algorithm == pkg.AlgorithmAes {
		nextKsn, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))
		if err != nil {
			return nil, err
		}
	} else {
		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
""", """	ksn := pkg.HexDecode(m.CurrentKSN)
	if m.Algorithm == pkg.AlgorithmAes {
		nextKsn, err = pkg.GenerateNextAesKsn(ksn)
		if err != nil {
			return nil, err
		}
	} else {
		nextKsn, err = pkg.GenerateNextDesKsn(ksn)
"""), (SVC, """	// update machine
	m.CurrentKSN = params.KSN
	m.TransactionKey = transactionKey

	updated := *m
	return &updated, nil""", """	// update machine, in the background
	updated := *m
	updated.CurrentKSN = params.KSN
	updated.TransactionKey = transactionKey
	go func() {
		s.mtx.Lock()
		defer s.mtx.Unlock()
		m.CurrentKSN, m.TransactionKey = params.KSN, transactionKey
	}()
	return &updated, nil""")],
  'the new serial number is stored by a goroutine after the advance has returned it, so that two advances can return the same one',
  'two advances in quick succession, before the goroutine of the first has run',
  **go('pkg/server', [], """
	s := NewService(NewRepositoryInMemory(nil))
	m := mk(t, s, "des", "", desBDK, desKSN)
	seen := map[string]bool{}
	for i := 0; i < 2000; i++ {
		n, err := s.MakeNextKSN(m.InitialKey)
		if err != nil { t.Fatal(err) }
		if seen[n.CurrentKSN] { t.Fatal("twice: ", n.CurrentKSN) }
		seen[n.CurrentKSN] = true
	}""", MK))

S('admin-stopped', 'P32', [(SRV, """	go func() {
		logger.Logf("admin listening on %s", adminServer.BindAddr())
		if err := adminServer.Listen(); err != nil {
			err = fmt.Errorf("problem starting admin http: %v", err)
			logger.LogError(err)
			errs <- err
		}
	}()
	defer adminServer.Shutdown()
""", """	startAdmin := func() {
		go func() {
			logger.Logf("admin listening on %s", adminServer.BindAddr())
			if err := adminServer.Listen(); err != nil {
				err = fmt.Errorf("problem starting admin http: %v", err)
				logger.LogError(err)
				errs <- err
			}
		}()
		defer adminServer.Shutdown()
	}
	startAdmin()
""")],
  'the deferred shutdown of the admin server runs as soon as it has been started, not when main ends',
  'any request to the admin server after start-up',
  sh=RUNS + """HTTP_BIND_ADDRESS=127.0.0.1:$P HTTP_ADMIN_BIND_ADDRESS=127.0.0.1:$Q "$T/s" > "$T/log" 2>&1 &
S=$!
r=1
for i in $(seq 40); do sleep 0.25; grep -q 'startup binding' "$T/log" && break; done
sleep 0.5
if exec 3<>/dev/tcp/127.0.0.1/$Q; then
  printf 'GET /version HTTP/1.0\\r\\n\\r\\n' >&3
  if timeout 3 head -c 200 <&3 | grep -q '^HTTP/1.* 200'; then r=0; fi
  exec 3>&-
fi 2>/dev/null
kill $S 2>/dev/null
exit $r
""")

S('shutdown-cancelled', 'P32', [(SRV, """	shutdownServer := func() {
		if err := serve.Shutdown(context.TODO()); err != nil {""", """	ctx, cancel := signal.NotifyContext(context.Background(), syscall.SIGINT, syscall.SIGTERM)
	defer cancel()
	shutdownServer := func() {
		if err := serve.Shutdown(ctx); err != nil {""")],
  'the graceful shutdown is bounded by a context that the same signal ends, so that requests in flight are cut off',
  'SIGTERM while a request is in flight',
  sh=RUNS + """HTTP_BIND_ADDRESS=127.0.0.1:$P HTTP_ADMIN_BIND_ADDRESS=127.0.0.1:$Q "$T/s" > "$T/log" 2>&1 &
S=$!
r=1
for i in $(seq 40); do sleep 0.25; grep -q 'startup binding' "$T/log" && break; done
sleep 0.5
if exec 3<>/dev/tcp/127.0.0.1/$P; then
  printf 'POST /machine HTTP/1.1\\r\\nHost: a\\r\\nConnection: close\\r\\nContent-Type: application/json\\r\\nContent-Length: 2\\r\\n\\r\\n' >&3
  sleep 0.5
  kill -TERM $S
  sleep 1
  printf '{}' >&3
  if timeout 5 head -c 200 <&3 | grep -q '^HTTP/1.1 '; then r=0; fi
  exec 3>&-
fi 2>/dev/null
kill $S 2>/dev/null
exit $r
""")

S('cli-positional-data', 'P29', [(CLI, """		if *flagGenerateMacData == "" {
			fmt.Printf("please select request data string with gm.data flag\\n")
""", """		if *flagGenerateMacData == "" {
			*flagGenerateMacData = flag.Arg(0)
		}
		if *flagGenerateMacData == "" {
			fmt.Printf("please select request data string with gm.data flag or as an argument\\n")
""")],
  'a MAC is generated without -gm.data, over whatever word is left on the command line',
  'a word that is no flag, and no -gm.data', sh=BIN + """! "$T/c" -gm -gm.tk=042666B49184CFA368DE9628D0397BC9 hello > /dev/null 2>&1
""")
