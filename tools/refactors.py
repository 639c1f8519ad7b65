#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo; every check must stay quiet on every one of them.
usage: refactors.py [-p P01,P02] [id...]"""
import subprocess, sys, os, re
from concurrent.futures import ThreadPoolExecutor
W = os.environ.get('REFW', '/tmp/w/ref')
AES, AESI = 'pkg/aes/aes.go', 'pkg/aes/aes_internal.go'
DES, DESI = 'pkg/des/des.go', 'pkg/des/des_internal.go'
UTIL = 'pkg/util.go'
SVC, REPO, WRAP = 'pkg/server/service.go', 'pkg/server/repository.go', 'pkg/server/wrapper.go'
HAND, ROUT, MACH = 'pkg/server/handlers.go', 'pkg/server/routing.go', 'pkg/server/machine.go'
EAES, EDES = 'encryption/aes_ecb.go', 'encryption/des_ecb.go'
CLI, SRV = 'cmd/dukptcli/main.go', 'cmd/server/main.go'
R = []
def F(id, *edits): R.append((id, edits))

F('onescount', (UTIL, '''		bitCount := 0
		for tmp := tc; tmp != 0; bitCount++ {
			// Clear least significant bit
			tmp &= tmp - 1
		}

		if bitCount <= 16 {''', '''		if bits.OnesCount32(tc) <= 16 {'''), (UTIL, '''		bitCount := 0
		for tmp := tc; tmp != 0; bitCount++ {
			// Clear least significant bit
			tmp &= tmp - 1
		}

		if bitCount <= 10 {''', '''		if bits.OnesCount32(tc) <= 10 {'''), (UTIL, '''	bitCount := 0
	for tmp := tc; tmp != 0; bitCount++ {
		// Clear least significant bit
		tmp &= tmp - 1
	}

	return bitCount <= 16''', '''	return bits.OnesCount32(tc) <= 16'''), (UTIL, '	"errors"\n', '	"errors"\n	"math/bits"\n'))

F('next-helper', (UTIL, '''	tc++
	for tc <= tcMax {
		bitCount := 0
		for tmp := tc; tmp != 0; bitCount++ {
			// Clear least significant bit
			tmp &= tmp - 1
		}

		if bitCount <= 16 {
			// Current transaction counter is valid
			break
		}

		lsbSetBit := tc & ^(tc - 1)
		tc += lsbSetBit
	}
''', '''	tc = nextCounter(tc+1, tcMax, 16)
'''), (UTIL, '''	tc++
	tc &= 0x1FFFFF
	for tc <= tcMax {
		bitCount := 0
		for tmp := tc; tmp != 0; bitCount++ {
			// Clear least significant bit
			tmp &= tmp - 1
		}

		if bitCount <= 10 {
			// Current transaction counter is valid
			break
		}

		lsbSetBit := tc & ^(tc - 1)
		tc += lsbSetBit
	}
''', '''	tc = nextCounter((tc+1)&0x1FFFFF, tcMax, 10)
'''), (UTIL, 'func IsValidAesKsn', '''func countBits(v uint32) (n int) {
	for ; v != 0; v >>= 1 {
		n += int(v & 1)
	}
	return n
}

// nextCounter skips the counters with too many bits
func nextCounter(tc, max uint32, limit int) uint32 {
	for {
		if tc > max || countBits(tc) <= limit {
			return tc
		}
		tc += tc & -tc
	}
}

func IsValidAesKsn'''))

F('hex-std', (UTIL, '''	out := make([]byte, hex.DecodedLen(len(data)))
	_, err := hex.Decode(out, []byte(data))
	if err != nil {
		return nil
	}

	return out''', '''	out, err := hex.DecodeString(data)
	if err != nil {
		return nil
	}
	return out'''), (UTIL, '''	if len(data) == 0 {
		return ""
	}

	out := make([]byte, hex.EncodedLen(len(data)))
	hex.Encode(out, data)
	return string(out)''', '''	return hex.EncodeToString(data)'''))

F('ksn-copy', (UTIL, '''	tcMsb := make([]byte, 4)
	binary.BigEndian.PutUint32(tcMsb, tc)

	result := append([]byte{}, ksn[:8]...)
	result = append(result, tcMsb...)
	return result, nil''', '''	result := make([]byte, 12)
	copy(result, ksn)
	binary.BigEndian.PutUint32(result[8:], tc)
	return result, nil'''))

F('aes-derive-loop', (AES, '''	for mask := uint32(0x80000000); mask != 0; mask >>= 1 {
		if tc&mask == 0 {
			continue
		}

		workingTc |= mask
''', '''	for bit := 31; bit >= 0; bit-- {
		mask := uint32(1) << uint(bit)
		if tc&mask == 0 {
			continue
		}

		workingTc += mask
'''))

F('aes-derive-clear-top', (AES, '''	for mask := uint32(0x80000000); mask != 0; mask >>= 1 {
		if tc&mask == 0 {
			continue
		}

		workingTc |= mask
''', '''	for rest := tc; rest != 0; {
		mask := uint32(1) << (31 - bits.LeadingZeros32(rest))
		rest &^= mask
		workingTc |= mask
'''), (AES, '	"fmt"\n', '	"fmt"\n	"math/bits"\n'))

F('aes-data-bytes', (AESI, '''	var result []byte
	b := make([]byte, 2)

	result = append(result, k.Version)
	result = append(result, k.KeyBlockCounter)
	{
		binary.BigEndian.PutUint16(b, k.KeyUsageIndicator)
		result = append(result, b...)
	}
	{
		binary.BigEndian.PutUint16(b, k.AlgorithmIndicator)
		result = append(result, b...)
	}
	{
		binary.BigEndian.PutUint16(b, k.Length)
		result = append(result, b...)
	}
	result = append(result, k.InitialKeyID...)

	return result''', '''	buf := new(bytes.Buffer)
	buf.WriteByte(k.Version)
	buf.WriteByte(k.KeyBlockCounter)
	for _, v := range []uint16{k.KeyUsageIndicator, k.AlgorithmIndicator, k.Length} {
		buf.Write([]byte{byte(v >> 8), byte(v)})
	}
	buf.Write(k.InitialKeyID)
	return buf.Bytes()'''), (AESI, 'import (\n', 'import (\n	"bytes"\n'))

F('aes-data-append', (AESI, '''	{
		binary.BigEndian.PutUint16(b, k.KeyUsageIndicator)
		result = append(result, b...)
	}
	{
		binary.BigEndian.PutUint16(b, k.AlgorithmIndicator)
		result = append(result, b...)
	}
	{
		binary.BigEndian.PutUint16(b, k.Length)
		result = append(result, b...)
	}
''', '''	result = binary.BigEndian.AppendUint16(result, k.KeyUsageIndicator)
	result = binary.BigEndian.AppendUint16(result, k.AlgorithmIndicator)
	result = binary.BigEndian.AppendUint16(result, k.Length)
'''), (AESI, '	b := make([]byte, 2)\n', ''))

F('aes-keytype-table', (AESI, '''	switch keyType {
	case keyTDES2Type:
		data.AlgorithmIndicator = algorithmTwoKeyTDEA
		data.Length = keyTDES2Bits
	case keyTDES3Type:
		data.AlgorithmIndicator = algorithmThreeKeyTDEA
		data.Length = keyTDES3Bits
	case KeyAES128Type:
		data.AlgorithmIndicator = algorithmAES128
		data.Length = keyAES128Bits
	case KeyAES192Type:
		data.AlgorithmIndicator = algorithmAES192
		data.Length = keyAES192Bits
	case KeyAES256Type:
		data.AlgorithmIndicator = algorithmAES256
		data.Length = keyAES256Bits
	case KeyHMAC128Type:
		data.AlgorithmIndicator = algorithmHMAC
		data.Length = keyHMAC128Bits
	case KeyHMAC192Type:
		data.AlgorithmIndicator = algorithmHMAC
		data.Length = keyHMAC192Bits
	case KeyHMAC256Type:
		data.AlgorithmIndicator = algorithmHMAC
		data.Length = keyHMAC256Bits
	default:
		return nil, errors.New("unsupported key type")
	}
''', '''	kt, ok := keyTypes[keyType]
	if !ok {
		return nil, errors.New("unsupported key type")
	}
	data.AlgorithmIndicator, data.Length = kt.indicator, kt.bits
'''), (AESI, 'type derivationParams struct', '''type keyTypeInfo struct{ indicator, bits uint16 }

var keyTypes = map[string]keyTypeInfo{
	keyTDES2Type:   {algorithmTwoKeyTDEA, keyTDES2Bits},
	keyTDES3Type:   {algorithmThreeKeyTDEA, keyTDES3Bits},
	KeyAES128Type:  {algorithmAES128, keyAES128Bits},
	KeyAES192Type:  {algorithmAES192, keyAES192Bits},
	KeyAES256Type:  {algorithmAES256, keyAES256Bits},
	KeyHMAC128Type: {algorithmHMAC, keyHMAC128Bits},
	KeyHMAC192Type: {algorithmHMAC, keyHMAC192Bits},
	KeyHMAC256Type: {algorithmHMAC, keyHMAC256Bits},
}

type derivationParams struct'''))

F('aes-derivation-blocks', (AESI, '''	for offset := 0; offset < derivedKeyLen; offset += aes.BlockSize {
		data := derivationData.Bytes()
		encrypted, encErr := aesEcb.Encrypt(data)
		if encErr != nil {
			return nil, encErr
		}
		derivedKey = append(derivedKey, encrypted...)
		derivationData.KeyBlockCounter++
	}
''', '''	blocks := (derivedKeyLen + aes.BlockSize - 1) / aes.BlockSize
	derivedKey = make([]byte, 0, blocks*aes.BlockSize)
	for i := 1; i <= blocks; i++ {
		block := *derivationData
		block.KeyBlockCounter = byte(i)
		encrypted, encErr := aesEcb.Encrypt(block.Bytes())
		if encErr != nil {
			return nil, encErr
		}
		derivedKey = append(derivedKey, encrypted...)
	}
'''))

F('aes-usage-helper', (AES, '''	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	params := derivationParams{
		KeyUsage:   usageForDataEncrypt,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	}
	if action == pkg.ActionResponse {
		params.KeyUsage = usageForDataDecrypt
	}

	dataKey, err := generateDerivationKey(params)
	if err != nil {
		return nil, err
	}
''', '''	dataKey, err := dataKeyOf(currentKey, ksn, keyType, action)
	if err != nil {
		return nil, err
	}
'''), (AES, '''	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	params := derivationParams{
		KeyUsage:   usageForDataEncrypt,
		KeyType:    keyType,
		Ksn:        ksn,
		CurrentKey: currentKey,
	}
	if action == pkg.ActionResponse {
		params.KeyUsage = usageForDataDecrypt
	}

	dataKey, err := generateDerivationKey(params)
	if err != nil {
		return "", err
	}
''', '''	dataKey, err := dataKeyOf(currentKey, ksn, keyType, action)
	if err != nil {
		return "", err
	}
'''), (AES, '// Decrypt Data using', '''func dataKeyOf(currentKey, ksn []byte, keyType, action string) ([]byte, error) {
	usage := uint16(usageForDataEncrypt)
	switch action {
	case pkg.ActionResponse:
		usage = usageForDataDecrypt
	}
	return generateDerivationKey(derivationParams{CurrentKey: currentKey, Ksn: ksn, KeyType: keyType, KeyUsage: usage})
}

// Decrypt Data using'''))

F('aes-pad-append', (AES, '''	repeatCnt := len(plaintext) / aes.BlockSize
	if len(plaintext)%aes.BlockSize > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	copy(serializePlaintext, plaintext)

	ciphertext := make([]byte, len(serializePlaintext))
''', '''	serializePlaintext := []byte(plaintext)
	if rem := len(serializePlaintext) % aes.BlockSize; rem != 0 {
		serializePlaintext = append(serializePlaintext, make([]byte, aes.BlockSize-rem)...)
	}

	ciphertext := make([]byte, len(serializePlaintext))
'''))

F('aes-inplace-cbc', (AES, '''	ciphertext := make([]byte, len(serializePlaintext))

	block, err''', '''	ciphertext := serializePlaintext

	block, err'''))

F('aes-hmac-sum', (AES, '''	mac.Write([]byte(plaintext))

	return mac.Sum(nil), nil
}

// Encrypt Data''', '''	if _, err = io.WriteString(mac, plaintext); err != nil {
		return nil, err
	}

	sum := make([]byte, 0, sha256.Size)
	return mac.Sum(sum), nil
}

// Encrypt Data'''), (AES, '	"fmt"\n', '	"fmt"\n	"io"\n'))

F('des-register-bits', (DES, '''	for shiftBit := tcBits; shiftBit > 0; shiftBit-- {
		var shiftRegVal byte
		shiftReg := make([]byte, 3)

		shiftRegIdx := (shiftBit - 1) >> 3
		shiftRegVal = 0x1 << ((shiftBit - 1) & 0x7)
		shiftReg[shiftRegIdx] = shiftRegVal

		var flag bool
		for i := 0; i < 3; i++ {
			_flag := (shiftReg[i] & serializedKsn[keySerialLen-1-i]) > 0
			if i == 0 {
				flag = !_flag
			} else {
				flag = flag && !_flag
			}
		}

		if flag {
			// Skip this shift bit
			continue
		}

		// Set shift bit in KSN register
		for i := 0; i < 3; i++ {
			ksnBytes[keySerialLen-1-i] |= shiftReg[i]
		}

		if nextKey, err''', '''	for bit := tcBits - 1; bit >= 0; bit-- {
		pos, mask := keySerialLen-1-bit/8, byte(1)<<(bit%8)
		if serializedKsn[pos]&mask == 0 {
			continue
		}
		ksnBytes[pos] |= mask

		if nextKey, err'''))

F('des-counter-int', (DES, '''	for shiftBit := tcBits; shiftBit > 0; shiftBit-- {
		var shiftRegVal byte
		shiftReg := make([]byte, 3)

		shiftRegIdx := (shiftBit - 1) >> 3
		shiftRegVal = 0x1 << ((shiftBit - 1) & 0x7)
		shiftReg[shiftRegIdx] = shiftRegVal

		var flag bool
		for i := 0; i < 3; i++ {
			_flag := (shiftReg[i] & serializedKsn[keySerialLen-1-i]) > 0
			if i == 0 {
				flag = !_flag
			} else {
				flag = flag && !_flag
			}
		}

		if flag {
			// Skip this shift bit
			continue
		}

		// Set shift bit in KSN register
		for i := 0; i < 3; i++ {
			ksnBytes[keySerialLen-1-i] |= shiftReg[i]
		}

		if nextKey, err''', '''	tc := pkg.GetDesTcFromKsn(serializedKsn)
	var used uint32
	for mask := uint32(1) << (tcBits - 1); mask > 0; mask >>= 1 {
		if tc&mask == 0 {
			continue
		}
		used |= mask
		ksnBytes[7] = ksnBytes[7]&0xE0 | byte(used>>16)
		ksnBytes[8] = byte(used >> 8)
		ksnBytes[9] = byte(used)

		if nextKey, err'''))

F('des-variant-helper', (DESI, '''	pinKey := make([]byte, keyLen)
	copy(pinKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	pinKey[7] ^= 0xFF
	pinKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Encrypt(pinblock)''', '''	cipher, err := encryption.NewTripleDesECB(variantKey(currentKey, 7))
	if err != nil {
		return nil, err
	}
	return cipher.Encrypt(pinblock)'''), (DESI, '''	pinKey := make([]byte, keyLen)
	copy(pinKey, currentKey)

	// ANSI X9.24-1:2009 A.4.1, table A-1
	pinKey[7] ^= 0xFF
	pinKey[15] ^= 0xFF

	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Decrypt(ciphertext)''', '''	cipher, err := encryption.NewTripleDesECB(variantKey(currentKey, 7))
	if err != nil {
		return nil, err
	}
	return cipher.Decrypt(ciphertext)'''), (DESI, '// decodePinblock decodes', '''// variantKey returns the variant of the key in which one byte of both halves is inverted
func variantKey(key []byte, pos int) []byte {
	out := append([]byte(nil), key...)
	for _, i := range []int{pos, pos + desBlockLen} {
		out[i] = ^out[i]
	}
	return out
}

// decodePinblock decodes'''))

F('des-xor-helper', (DESI, '''	for index := range cryptoReg2 {
		cryptoReg2[index] = cryptoReg1[index] ^ keyBytes[index+8]
	}
''', '''	subtle.XORBytes(cryptoReg2, cryptoReg1, keyBytes[8:])
'''), (DESI, '''	// 5) Crypto Register-1 XORed with the right half of the Key Register goes to Crypto Register-1
	for index := range cryptoReg1 {
		cryptoReg1[index] = cryptoReg1[index] ^ keyBytes[index+keyLen/2]
	}
''', '''	// 5)
	xorInto(cryptoReg1, keyBytes[keyLen/2:])
'''), (DESI, '	"bytes"\n', '	"bytes"\n	"crypto/subtle"\n'), (DESI, 'func encryptPinblock', '''func xorInto(dst, src []byte) {
	n := min(len(dst), len(src))
	for i := 0; i < n; i++ {
		dst[i] ^= src[i]
	}
}

func encryptPinblock'''))

F('des-mac-loop', (DES, '''	plainTextBytes := []byte(plainText)
	repeatCnt := len(plainTextBytes) / desBlockLen
	if len(plainTextBytes)%desBlockLen > 0 {
		repeatCnt++
	}
	serializePlaintext := make([]byte, repeatCnt*desBlockLen)
	copy(serializePlaintext, plainTextBytes)

	var err error
	initialVector := make([]byte, desBlockLen)
	leftCipher, _ := encryption.NewDesECB(leftKey)
	for partNum := 0; partNum < repeatCnt; partNum++ {
		macPart := serializePlaintext[partNum*desBlockLen : (partNum+1)*desBlockLen]
		for in := range initialVector {
			initialVector[in] = initialVector[in] ^ macPart[in]
		}
		initialVector, err''', '''	var err error
	initialVector := make([]byte, desBlockLen)
	leftCipher, _ := encryption.NewDesECB(leftKey)
	for rest := plainText; len(rest) > 0; {
		n := min(len(rest), desBlockLen)
		for in := 0; in < n; in++ {
			initialVector[in] ^= rest[in]
		}
		rest = rest[n:]
		initialVector, err'''))

F('des-data-key-helper', (DES, '''	dataKey := make([]byte, keyLen)
	copy(dataKey, currentKey)

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	// ANSI X9.24-1:2009 A.4.1, table A-1
	if action == pkg.ActionRequest {
		dataKey[5] ^= 0xFF
		dataKey[13] ^= 0xFF
	} else {
		dataKey[3] ^= 0xFF
		dataKey[11] ^= 0xFF
	}

	keyCipher, _ := encryption.NewTripleDesECB(dataKey)
	leftKey, err := keyCipher.Encrypt(dataKey[:desBlockLen])
	if err != nil {
		return nil, err
	}

	rightKey, err := keyCipher.Encrypt(dataKey[desBlockLen:])
	if err != nil {
		return nil, err
	}

	newKey := append(leftKey, rightKey...)
	dataCipher, _ := encryption.NewTripleDesECB(newKey)

	plainTextBytes''', '''	dataCipher, err := newDataCipher(currentKey, action)
	if err != nil {
		return nil, err
	}

	plainTextBytes'''), (DES, '''	dataKey := make([]byte, keyLen)
	copy(dataKey, currentKey)

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
		action = pkg.ActionRequest
	}

	// ANSI X9.24-1:2009 A.4.1, table A-1
	if action == pkg.ActionRequest {
		dataKey[5] ^= 0xFF
		dataKey[13] ^= 0xFF
	} else {
		dataKey[3] ^= 0xFF
		dataKey[11] ^= 0xFF
	}

	keyCipher, _ := encryption.NewTripleDesECB(dataKey)
	leftKey, err := keyCipher.Encrypt(dataKey[:desBlockLen])
	if err != nil {
		return "", err
	}

	rightKey, err := keyCipher.Encrypt(dataKey[desBlockLen:])
	if err != nil {
		return "", err
	}

	newKey := append(leftKey, rightKey...)
	dataCipher, _ := encryption.NewTripleDesECB(newKey)
''', '''	dataCipher, err := newDataCipher(currentKey, action)
	if err != nil {
		return "", err
	}
'''), (DES, '// Encrypt Data using', '''func newDataCipher(currentKey []byte, action string) (*encryption.DesECB, error) {
	var dataKey [keyLen]byte
	copy(dataKey[:], currentKey)

	pos := 5
	if action == pkg.ActionResponse {
		pos = 3
	}
	dataKey[pos] ^= 0xFF
	dataKey[pos+desBlockLen] ^= 0xFF

	keyCipher, err := encryption.NewTripleDesECB(dataKey[:])
	if err != nil {
		return nil, err
	}
	newKey := make([]byte, 0, keyLen)
	for i := 0; i < keyLen; i += desBlockLen {
		half, err := keyCipher.Encrypt(dataKey[i : i+desBlockLen])
		if err != nil {
			return nil, err
		}
		newKey = append(newKey, half...)
	}
	return encryption.NewTripleDesECB(newKey)
}

// Encrypt Data using'''))

F('tdes-slices', (EDES, '''	case 16:
		tripleDESKey = append(tripleDESKey, key[:16]...)
		tripleDESKey = append(tripleDESKey, key[:8]...)
	case 24:
		tripleDESKey = append(tripleDESKey, key...)
	}''', '''	case 16:
		tripleDESKey = slices.Concat(key, key[:8])
	case 24:
		tripleDESKey = bytes.Clone(key)
	}'''), (EDES, 'import (\n', 'import (\n	"bytes"\n'), (EDES, '	"fmt"\n', '	"fmt"\n	"slices"\n'))

F('ecb-helper', (EAES, '''	if len(plainText) != 16 {
		return nil, fmt.Errorf("plain text length must be 16 bytes")
	}

	cipherText := make([]byte, len(plainText))

	a.cipherBlock.Encrypt(cipherText, plainText)

	return cipherText, nil''', '''	return oneBlock(plainText, "plain", a.cipherBlock.Encrypt)'''), (EAES, '''	if len(cipherText) != 16 {
		return nil, fmt.Errorf("cipher text length must be 16 bytes")
	}

	plainText := make([]byte, len(cipherText))

	a.cipherBlock.Decrypt(plainText, cipherText)

	return plainText, nil
}''', '''	return oneBlock(cipherText, "cipher", a.cipherBlock.Decrypt)
}

func oneBlock(in []byte, what string, transform func(dst, src []byte)) ([]byte, error) {
	if len(in) != aes.BlockSize {
		return nil, fmt.Errorf("%s text length must be %d bytes", what, aes.BlockSize)
	}
	out := make([]byte, aes.BlockSize)
	transform(out, in)
	return out, nil
}'''))

# ---- server
F('wrapper-select', (WRAP, '''	if params.Algorithm == pkg.AlgorithmAes {
		if err = validateHex(params.BKD, params.KSN); err != nil {
			return "", err
		}
		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))

	} else {
		if err = validateHex(params.BKD, params.KSN); err != nil {
			return "", err
		}
		buf, err = des.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
	}

	if err != nil {
		return "", err
	}
	return pkg.HexEncode(buf), nil''', '''	if err = validateHex(params.BKD, params.KSN); err != nil {
		return "", err
	}
	derive := des.DerivationOfInitialKey
	if params.Algorithm == pkg.AlgorithmAes {
		derive = aes.DerivationOfInitialKey
	}
	if buf, err = derive(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN)); err != nil {
		return "", err
	}
	return pkg.HexEncode(buf), nil'''), (WRAP, '''			switch params.AlgorithmKey {
			case aes.KeyAES128Type:
				params.AlgorithmKey = aes.KeyHMAC128Type
			case aes.KeyAES192Type:
				params.AlgorithmKey = aes.KeyHMAC192Type
			case aes.KeyAES256Type:
				params.AlgorithmKey = aes.KeyHMAC256Type
			}
			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)''', '''			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, hmacKeyType(params.AlgorithmKey), params.Action)'''), (WRAP, 'func EncryptData(', '''func hmacKeyType(keyType string) string {
	types := map[string]string{
		aes.KeyAES128Type: aes.KeyHMAC128Type,
		aes.KeyAES192Type: aes.KeyHMAC192Type,
		aes.KeyAES256Type: aes.KeyHMAC256Type,
	}
	if t, ok := types[keyType]; ok {
		return t
	}
	return keyType
}

func EncryptData('''))

F('wrapper-finish', (WRAP, '''		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)
	}

	if err != nil {
		return "", err
	}
	return pkg.HexEncode(buf), nil''', '''		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)
	}
	return encoded(buf, err)'''), (WRAP, '''		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
	}

	if err != nil {
		return "", err
	}
	return pkg.HexEncode(buf), nil''', '''		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
	}
	return encoded(buf, err)'''), (WRAP, 'func EncryptData(', '''func encoded(buf []byte, err error) (string, error) {
	if err == nil {
		return pkg.HexEncode(buf), nil
	}
	return "", err
}

func EncryptData('''))

F('wrapper-decode-error', (WRAP, '''		if value != "" && pkg.HexDecode(value) == nil {
			return errors.New("invalid hexadecimal parameter")
		}''', '''		if len(value) == 0 {
			continue
		}
		if _, err := hex.DecodeString(value); err != nil {
			return errors.New("invalid hexadecimal parameter")
		}'''), (WRAP, '	"errors"\n', '	"encoding/hex"\n	"errors"\n'))

F('service-with-machine', (SVC, '''func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
	m, err := s.GetMachine(ik)
	if err != nil {
		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
	}

	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		TK:           m.TransactionKey,
		KSN:          m.CurrentKSN,
		IK:           ik,
		Format:       format,
		PIN:          pin,
		PAN:          pan,
	}

	if params.Format == "" {
		params.Format = "ISO-0"
	}

	return EncryptPin(params)
}''', '''func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
	return s.with(ik, EncryptPin, func(p *UnifiedParams) {
		p.PIN, p.PAN, p.Format = pin, pan, format
		if p.Format == "" {
			p.Format = "ISO-0"
		}
	})
}

// with runs an operation with the key state of a machine
func (s *service) with(ik string, call WrapperCall, set func(p *UnifiedParams)) (string, error) {
	m, err := s.GetMachine(ik)
	if err != nil {
		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
	}
	params := m.params()
	set(&params)
	return call(params)
}

func (m *Machine) params() UnifiedParams {
	return UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		TK:           m.TransactionKey,
		KSN:          m.CurrentKSN,
		IK:           m.InitialKey,
	}
}'''))

F('service-mutex', (SVC, '	mtx   sync.RWMutex\n', '	mtx   sync.Mutex\n'), (SVC, '''	s.mtx.RLock()
	defer s.mtx.RUnlock()

	f, err''', '''	s.mtx.Lock()
	defer s.mtx.Unlock()

	f, err'''), (SVC, '''	s.mtx.RLock()
	defer s.mtx.RUnlock()

	stored''', '''	s.mtx.Lock()
	defer s.mtx.Unlock()

	stored'''))

F('service-manual-unlock', (SVC, '''	s.mtx.RLock()
	defer s.mtx.RUnlock()

	f, err := s.store.FindMachine(ik)
	if err != nil {
		return nil, ErrNotFound
	}
	m := *f
	return &m, nil''', '''	var m Machine
	s.mtx.RLock()
	f, err := s.store.FindMachine(ik)
	if err == nil {
		m = *f
	}
	s.mtx.RUnlock()

	if err != nil {
		return nil, ErrNotFound
	}
	return &m, nil'''), (SVC, '''	for i := range stored {
		m := *stored[i]
		machines = append(machines, &m)
	}''', '''	for _, m := range stored {
		c := new(Machine)
		*c = *m
		machines = append(machines, c)
	}'''))

F('service-next-func', (SVC, '''	var nextKsn []byte
	if m.Algorithm == pkg.AlgorithmAes {
		nextKsn, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))
		if err != nil {
			return nil, err
		}
	} else {
		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
		if err != nil {
			return nil, err
		}
	}
''', '''	nextKsn, err := m.nextKSN()
	if err != nil {
		return nil, err
	}
'''), (SVC, 'func (s *service) DeleteMachine', '''// nextKSN follows the current key serial number
func (m *Machine) nextKSN() ([]byte, error) {
	current := pkg.HexDecode(m.CurrentKSN)
	switch m.Algorithm {
	case pkg.AlgorithmAes:
		return pkg.GenerateNextAesKsn(current)
	default:
		return pkg.GenerateNextDesKsn(current)
	}
}

func (s *service) DeleteMachine'''))

F('service-advance-copy', (SVC, '''	m.CurrentKSN = params.KSN
	m.TransactionKey = transactionKey

	updated := *m
	return &updated, nil''', '''	updated := *m
	updated.CurrentKSN = params.KSN
	updated.TransactionKey = transactionKey
	*m = updated

	return &updated, nil'''))

F('repo-helpers', (REPO, '''	if _, ok := r.machines[m.InitialKey]; ok {
		return ErrAlreadyExists
	}
	r.machines[m.InitialKey] = m
	return nil''', '''	return r.storeLocked(m)'''), (REPO, '''// FindMachine retrieves''', '''// storeLocked expects the lock to be held
func (r *repositoryInMemory) storeLocked(m *Machine) error {
	if r.machines[m.InitialKey] != nil {
		return ErrAlreadyExists
	}
	r.machines[m.InitialKey] = m
	return nil
}

// FindMachine retrieves'''), (REPO, '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	if val, ok := r.machines[ik]; ok {
		return val, nil
	}
	return nil, ErrNotFound''', '''	r.mtx.RLock()
	val := r.machines[ik]
	r.mtx.RUnlock()
	if val == nil {
		return nil, ErrNotFound
	}
	return val, nil'''))

F('repo-embedded-mutex', (REPO, '	mtx      sync.RWMutex\n', '	sync.RWMutex\n'), (REPO, '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	if _''', '''	r.Lock()
	defer r.Unlock()
	if _'''), (REPO, '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	if val''', '''	r.RLock()
	defer r.RUnlock()
	if val'''), (REPO, '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	files := make([]*Machine, 0, len(r.machines))
	for i := range r.machines {
		files = append(files, r.machines[i])
	}
	return files''', '''	r.RLock()
	defer r.RUnlock()
	var files = []*Machine{}
	for _, m := range r.machines {
		files = append(files, m)
	}
	return files'''), (REPO, '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	delete(''', '''	r.Lock()
	defer r.Unlock()
	if _, found := r.machines[ik]; !found {
		return nil
	}
	delete('''))

F('repo-slices-collect', (REPO, '''	files := make([]*Machine, 0, len(r.machines))
	for i := range r.machines {
		files = append(files, r.machines[i])
	}
	return files''', '''	return slices.AppendSeq(make([]*Machine, 0, len(r.machines)), maps.Values(r.machines))'''), (REPO, '	"errors"\n', '	"errors"\n	"maps"\n	"slices"\n'))

F('handlers-generic-endpoint', (HAND, '''func encryptPinEndpoint(s Service) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
		req, ok := request.(encryptPinRequest)
		if !ok {
			return encryptPinResponse{Err: ErrFoundABug}, ErrFoundABug
		}

		resp := encryptPinResponse{}
		encrypted, err := s.EncryptPin(req.ik, req.pin, req.pan, req.format)
		if err != nil {
			resp.Err = err
			return resp, nil
		}

		resp.Encrypted = encrypted
		return resp, nil
	}
}''', '''func encryptPinEndpoint(s Service) endpoint.Endpoint {
	return makeEndpoint(func(req encryptPinRequest) encryptPinResponse {
		encrypted, err := s.EncryptPin(req.ik, req.pin, req.pan, req.format)
		if err != nil {
			return encryptPinResponse{Err: err}
		}
		return encryptPinResponse{Encrypted: encrypted}
	}, encryptPinResponse{Err: ErrFoundABug})
}

func makeEndpoint[Q, A any](call func(Q) A, bug A) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
		req, ok := request.(Q)
		if !ok {
			return bug, ErrFoundABug
		}
		return call(req), nil
	}
}'''))

F('handlers-bind-decoder', (HAND, '''	body, err := io.ReadAll(request.Body)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}

	err = json.Unmarshal(body, params)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}
	return''', '''	defer request.Body.Close()
	var body []byte
	if body, err = io.ReadAll(request.Body); err == nil {
		err = json.Unmarshal(body, params)
	}
	if err != nil {
		err = fmt.Errorf("could not parse json request: %w", err)
	}
	return err'''))

F('handlers-empty-check', (HAND, '''	err = json.Unmarshal(body, params)
	if err != nil {''', '''	if len(body) == 0 {
		return errors.New("could not parse json request: empty body")
	}
	err = json.Unmarshal(body, params)
	if err != nil {'''), (HAND, '	"encoding/json"\n', '	"encoding/json"\n	"errors"\n'))

F('handlers-ik-helper', (HAND, '''	req.ik = mux.Vars(request)["ik"]

	type requestParam struct {
		Pin    string
		Pan    string
		Format string
	}

	reqParams := requestParam{}
	if err := bindJSON(request, &reqParams); err != nil {
		return nil, err
	}

	req.pin = reqParams.Pin
	req.pan = reqParams.Pan
	req.format = reqParams.Format

	return req, nil''', '''	var err error
	if req.ik, err = machineKey(request); err != nil {
		return nil, err
	}

	var p struct {
		Format string `json:"format"`
		Pan    string `json:"pan"`
		Pin    string `json:"pin"`
	}
	if err := bindJSON(request, &p); err != nil {
		return nil, err
	}
	req.pin, req.pan, req.format = p.Pin, p.Pan, p.Format
	return req, nil'''), (HAND, 'func encryptPinEndpoint', '''func machineKey(request *http.Request) (string, error) {
	ik, ok := mux.Vars(request)["ik"]
	if !ok || ik == "" {
		return "", ErrBadRouting
	}
	return ik, nil
}

func encryptPinEndpoint'''))

F('routes-table', (ROUT, '''	r.Methods("POST").Path("/encrypt_pin/{ik}").Handler(httptransport.NewServer(
		encryptPinEndpoint(s),
		decodeEncryptPinRequest,
		encodeResponse,
		options...,
	))

	r.Methods("POST").Path("/decrypt_pin/{ik}").Handler(httptransport.NewServer(
		decryptPinEndpoint(s),
		decodeDecryptPinRequest,
		encodeResponse,
		options...,
	))

	r.Methods("POST").Path("/generate_mac/{ik}").Handler(httptransport.NewServer(
		generateMacEndpoint(s),
		decodeGenerateMacRequest,
		encodeResponse,
		options...,
	))
''', '''	for _, route := range []struct {
		path   string
		call   endpoint.Endpoint
		decode httptransport.DecodeRequestFunc
	}{
		{"/encrypt_pin/{ik}", encryptPinEndpoint(s), decodeEncryptPinRequest},
		{"/decrypt_pin/{ik}", decryptPinEndpoint(s), decodeDecryptPinRequest},
		{"/generate_mac/{ik}", generateMacEndpoint(s), decodeGenerateMacRequest},
	} {
		r.Methods(http.MethodPost).Path(route.path).Handler(httptransport.NewServer(route.call, route.decode, encodeResponse, options...))
	}
'''))

F('routes-handle', (ROUT, '''	r.Methods("GET").Path("/machines").Handler(httptransport.NewServer(
		getMachinesEndpoint(s),
		decodeGetMachinesRequest,
		encodeResponse,
		options...,
	))
''', '''	r.Handle("/machines", httptransport.NewServer(
		getMachinesEndpoint(s),
		decodeGetMachinesRequest,
		encodeResponse,
		options...,
	)).Methods("GET")
'''))

F('status-table', (ROUT, '''	errString := fmt.Sprintf("%#v", err)
	if el, ok := err.(base.ErrorList); ok {
		errString = el.Error()
	}
	// the text of an error can carry values of the request, so that the errors with an identity come first
	switch {
	case errors.Is(err, ErrNotFound):
		return http.StatusNotFound
	case errors.Is(err, ErrAlreadyExists):
		return http.StatusBadRequest
	case strings''', '''	for _, known := range []struct {
		err  error
		code int
	}{{ErrNotFound, http.StatusNotFound}, {ErrAlreadyExists, http.StatusBadRequest}} {
		if errors.Is(err, known.err) {
			return known.code
		}
	}

	errString := fmt.Sprintf("%#v", err)
	if el, ok := err.(base.ErrorList); ok {
		errString = el.Error()
	}
	switch {
	case strings'''))

F('encode-marshal', (ROUT, '''		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		// Only write json body if we're setting response as json
		return json.NewEncoder(w).Encode(response)''', '''		body, err := json.Marshal(response)
		if err != nil {
			return err
		}
		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		_, err = w.Write(append(body, '\\n'))
		return err'''))

F('encode-map-first', (ROUT, '''	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	w.WriteHeader(codeFrom(err))
	err = json.NewEncoder(w).Encode(map[string]interface{}{
		"error": err.Error(),
	})
	if err''', '''	answer := map[string]interface{}{}
	answer["error"] = err.Error()
	code := codeFrom(err)
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	w.WriteHeader(code)
	err = json.NewEncoder(w).Encode(answer)
	if err'''))

F('encode-struct', (ROUT, '''	v := reflect.ValueOf(in)
	out := make(map[string]interface{}, v.NumField())

	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		value := v.Field(i).Interface()

		if err, ok := value.(error); ok {
			out["error"] = err.Error()
		} else {
			out[name] = value
		}
	}

	return''', '''	out := make(map[string]interface{})
	for v, i := reflect.ValueOf(in), 0; i < v.NumField(); i++ {
		value := v.Field(i).Interface()
		switch x := value.(type) {
		case error:
			out["error"] = x.Error()
		default:
			out[v.Type().Field(i).Name] = value
		}
	}

	return'''))

# ---- commands
F('cli-fail-helper', (CLI, '''		if *flagInitialKeyBKD == "" {
			fmt.Printf("please select base derivative key with ik.bdk flag\\n")
			os.Exit(1)
		}
		if *flagInitialKeyKSN == "" {
			fmt.Printf("please select key serial number with ik.ksn flag\\n")
			os.Exit(1)
		}
''', '''		require(*flagInitialKeyBKD, "base derivative key", "ik.bdk")
		require(*flagInitialKeyKSN, "key serial number", "ik.ksn")
'''), (CLI, 'func makeFuncCall(', '''func require(value, what, flagName string) {
	if value == "" {
		fmt.Fprintf(os.Stdout, "please select %s with %s flag\\n", what, flagName)
		os.Exit(1)
	}
}

func makeFuncCall('''))

F('cli-run-code', (CLI, '''	if err := params.ValidateAlgorithm(); err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}

	result, err := f(params)
	if err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}

	fmt.Printf("RESULT: %s\\n", result)''', '''	err := params.ValidateAlgorithm()
	var result string
	if err == nil {
		result, err = f(params)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}

	fmt.Println("RESULT: " + result)'''))

F('cli-switch', (CLI, '''	// checking ik params
	if *flagInitialKey {
''', '''	// checking ik params
	switch {
	case *flagInitialKey:
'''), (CLI, '''		makeFuncCall(server.InitialKey, params)
		return
	}

	// checking tk params
	if *flagTransactionKey {
''', '''		makeFuncCall(server.InitialKey, params)
		return

	case *flagTransactionKey:
'''))

F('cli-vars', (CLI, '''	flagEncrypt       = flag.Bool("en", false, "encrypt data using dukpt transaction key")
''', ''), (CLI, 'func main() {\n', '''var encrypt bool

func init() {
	flag.BoolVar(&encrypt, "en", false, "encrypt data using dukpt transaction key")
}

func main() {
'''), (CLI, '	if *flagEncrypt {\n', '	if encrypt {\n'))

F('srv-helper', (SRV, '''	go func() {
		if certFile, keyFile := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE"); certFile != "" && keyFile != "" {
			logger.Logf("startup binding to %s for secure HTTP server", *httpAddr)
			if err := serve.ListenAndServeTLS(certFile, keyFile); err != nil {
				errs <- err
				logger.LogError(err)
			}
		} else {
			logger.Logf("startup binding to %s for HTTP server", *httpAddr)
			if err := serve.ListenAndServe(); err != nil {
				errs <- err
				logger.LogError(err)
			}
		}
	}()
''', '''	go func() {
		if err := listen(logger, serve); err != nil {
			errs <- err
			logger.LogError(err)
		}
	}()
'''), (SRV, 'func main() {\n', '''func listen(logger log.Logger, serve *http.Server) error {
	certFile, keyFile := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE")
	if certFile == "" || keyFile == "" {
		logger.Logf("startup binding to %s for HTTP server", serve.Addr)
		return serve.ListenAndServe()
	}
	logger.Logf("startup binding to %s for secure HTTP server", serve.Addr)
	return serve.ListenAndServeTLS(certFile, keyFile)
}

func main() {
'''))

F('srv-timeouts', (SRV, '''	readTimeout, _ := time.ParseDuration("30s")
	writTimeout, _ := time.ParseDuration("30s")
	idleTimeout, _ := time.ParseDuration("60s")
''', '''	const (
		readTimeout = 30 * time.Second
		writTimeout = 30 * time.Second
		idleTimeout = time.Minute
	)
'''), (SRV, '''	errs := make(chan error)
	go func() {
		c := make(chan os.Signal, 1)
		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
		errs <- fmt.Errorf("%s", <-c)
	}()
''', '''	errs := make(chan error, 3)
	signals := make(chan os.Signal, 1)
	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
	go func() {
		sig := <-signals
		errs <- fmt.Errorf("%s", sig)
	}()
'''))

F('srv-lookupenv', (SRV, '''	if v := os.Getenv("HTTP_BIND_ADDRESS"); v != "" {
		*httpAddr = v
	}
''', '''	addr := *httpAddr
	if v, ok := os.LookupEnv("HTTP_BIND_ADDRESS"); ok && v != "" {
		addr = v
	}
'''), (SRV, '		Addr:    *httpAddr,\n', '		Addr:    addr,\n'), (SRV, 'logger.Logf("startup binding to %s for secure HTTP server", *httpAddr)', 'logger.Logf("startup binding to %s for secure HTTP server", addr)'), (SRV, 'logger.Logf("startup binding to %s for HTTP server", *httpAddr)', 'logger.Logf("startup binding to %s for HTTP server", addr)'))

F('encode-buffer', (ROUT, '''		// Only write json body if we're setting response as json
		return json.NewEncoder(w).Encode(response)''', '''		var buf bytes.Buffer
		if err := json.NewEncoder(&buf).Encode(response); err != nil {
			return err
		}
		_, err := buf.WriteTo(w)
		return err'''), (ROUT, '''	return json.NewEncoder(w).Encode(out)
''', '''	buf := new(bytes.Buffer)
	enc := json.NewEncoder(buf)
	if err := enc.Encode(out); err != nil {
		return err
	}
	_, err := io.Copy(w, buf)
	return err
'''), (ROUT, '	"context"\n', '	"bytes"\n	"context"\n'), (ROUT, '	"fmt"\n', '	"fmt"\n	"io"\n'))

F('bind-reader', (HAND, '''	err = json.Unmarshal(body, params)
	if err != nil {''', '''	dec := json.NewDecoder(bytes.NewReader(body))
	if err = dec.Decode(params); err != nil {'''), (HAND, '	"context"\n', '	"bytes"\n	"context"\n'))

F('bind-valid', (HAND, '''	err = json.Unmarshal(body, params)
	if err != nil {''', '''	if !json.Valid(body) {
		return fmt.Errorf("could not parse json request: invalid")
	}
	if err := json.Unmarshal(body, params); err != nil {'''))

def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import refactors2
    R.extend(refactors2.R)
    a = sys.argv[1:]
    props = ['P%02d' % i for i in range(1, 41) if i not in (33, 35, 36)]
    if a and a[0] == '-p': props = a[1].split(','); a = a[2:]
    sh(f'rm -rf {W}'); os.makedirs(W)
    sh(f'cp -a /repo/. {W}/'); sh('git checkout -q -- . ; git clean -fdq', W)
    for id, edits in R:
        if a and id not in a: continue
        sh('git checkout -q -- . && git clean -fdq', W)
        bad = None
        for f, o, n in edits:
            t = open(f'{W}/{f}').read()
            k = t.count(o)
            if k == 0: bad = f'{f}: text not found: {o[:50]!r}'; break
            open(f'{W}/{f}', 'w').write(t.replace(o, n, 1))
        if bad: print(id, 'BAD', bad, flush=True); continue
        sh('gofmt -w ' + ' '.join({f for f, _, _ in edits}), W)
        r = sh('. /opt/vp/env.sh; go vet ./pkg/... ./encryption/... ./cmd/... && timeout 100 go test -count=1 ./... ', W)
        if r.returncode: print(id, 'BAD', r.stdout[-600:], flush=True); continue
        fs = {f for f, _, _ in edits}
        rel = set()
        for f in fs:
            if f.startswith('cmd/dukptcli'): rel |= {28, 29, 30}
            elif f.startswith('cmd/server'): rel |= {30, 32}
            elif f in (HAND, ROUT): rel |= {26, 27, 30, 37, 38}
            elif f == WRAP: rel |= {15, 16, 17, 30, 18, 25}
            elif f.startswith('pkg/server'): rel |= set(range(17, 28)) | {30, 37, 38}
            elif f == UTIL: rel |= set(range(1, 16)) | {30, 17}
            elif f.startswith('encryption'): rel |= set(range(1, 14)) | {30, 31, 17}
            elif 'aes' in f: rel |= {1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 17, 30}
            elif 'des' in f: rel |= set(range(4, 14)) | {3, 17, 30}
        rel |= {39, 40}
        if any(not f.startswith('cmd') and f not in (SVC, REPO, HAND, ROUT, MACH) for f in fs): rel |= {34}
        ps = [p for p in props if int(p[1:]) in rel]
        def one(p):
            c = sh(f'timeout 880 /tmp/dsa -prop {p} -repo {W} -verif /tmp/w/ev')
            if c.returncode or 'UNDECIDED' in c.stdout or 'VIOLATION' in c.stdout:
                return f"   {p} rc={c.returncode} " + '\n      '.join(l[:300] for l in c.stdout.splitlines()[:4])
        with ThreadPoolExecutor(3) as ex:
            out = [x for x in ex.map(one, ps) if x]
        print(id, 'quiet' if not out else 'NOISY', flush=True)
        for x in out: print(x, flush=True)
if __name__ == '__main__': main()
