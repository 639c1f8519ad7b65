"""Second batch of behaviour-preserving edits: whole functions rewritten in another style."""
import re
AES, AESI = 'pkg/aes/aes.go', 'pkg/aes/aes_internal.go'
DES, DESI = 'pkg/des/des.go', 'pkg/des/des_internal.go'
UTIL = 'pkg/util.go'
SVC, REPO, WRAP = 'pkg/server/service.go', 'pkg/server/repository.go', 'pkg/server/wrapper.go'
HAND, ROUT, MACH = 'pkg/server/handlers.go', 'pkg/server/routing.go', 'pkg/server/machine.go'
EAES, EDES = 'encryption/aes_ecb.go', 'encryption/des_ecb.go'
CLI, SRV = 'cmd/dukptcli/main.go', 'cmd/server/main.go'
R = []
def F(id, *edits): R.append((id, edits))

def fn(f, name, new):
    """replaces the function (its doc comment stays)"""
    t = open('/repo/' + f).read()
    m = re.search(r'^func (\([^)]*\) )?%s\(.*?^}\n' % re.escape(name), t, re.S | re.M)
    assert m, (f, name)
    return (f, m.group(0), new.strip('\n') + '\n')

def imp(f, *names):
    return (f, 'import (\n', 'import (\n' + ''.join('\t"%s"\n' % n for n in names))

# ---- util
F('pop-shift',
  fn(UTIL, 'IsValidAesKsn', '''
func countBits(v uint32) int {
	n := 0
	for ; v > 0; v >>= 1 {
		if v&1 == 1 {
			n++
		}
	}
	return n
}

func IsValidAesKsn(ksn []byte) bool {
	n := countBits(GetAesTcFromKsn(ksn))
	return n > 0 && n <= 16
}
'''))

F('pop-32-rounds',
  fn(UTIL, 'IsValidAesKsn', '''
func IsValidAesKsn(ksn []byte) bool {
	tc := GetAesTcFromKsn(ksn)
	n := uint32(0)
	for i := 0; i < 32; i++ {
		n += tc >> i & 1
	}
	return n != 0 && n < 17
}
'''))

F('next-uint64',
  fn(UTIL, 'GenerateNextAesKsn', '''
func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
	const tcMax = uint64(0xFFFF0000)

	if len(ksn) != 12 {
		return nil, errors.New("invalid key serial number length")
	}

	tc := uint64(binary.BigEndian.Uint32(ksn[8:]))
	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	for tc++; bits.OnesCount64(tc) > 16; {
		tc += tc & -tc
	}

	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	result := make([]byte, len(ksn))
	copy(result, ksn[:8])
	binary.BigEndian.PutUint32(result[8:], uint32(tc))
	return result, nil
}
'''), imp(UTIL, 'math/bits'))

F('next-one-loop',
  fn(UTIL, 'GenerateNextDesKsn', '''
func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
	n := len(ksn)
	if n < 4 || n > 10 {
		return nil, errors.New("invalid key serial number length")
	}

	const tcMax = 0x1FF800
	tc := GetDesTcFromKsn(ksn)
	for tc++; tc <= tcMax && bits.OnesCount32(tc) > 10; tc += tc & -tc {
	}
	if tc > tcMax {
		return nil, errors.New("transaction already counter exhausted")
	}

	next := bytes.Clone(ksn)
	next[n-3] = next[n-3]&0xE0 | byte(tc>>16)
	binary.BigEndian.PutUint16(next[n-2:], uint16(tc))
	return next, nil
}
'''), imp(UTIL, 'bytes', 'math/bits'))

F('next-recursive',
  fn(UTIL, 'GenerateNextAesKsn', '''
func nextAesCounter(tc uint32) (uint32, bool) {
	if tc > 0xFFFF0000 {
		return 0, false
	}
	if bits.OnesCount32(tc) <= 16 {
		return tc, true
	}
	return nextAesCounter(tc + (tc & -tc))
}

func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
	if len(ksn) != 12 {
		return nil, errors.New("invalid key serial number length")
	}

	errExhausted := errors.New("transaction already counter exhausted")
	tc := GetAesTcFromKsn(ksn)
	if tc == 0xFFFFFFFF {
		return nil, errExhausted
	}
	tc, ok := nextAesCounter(tc + 1)
	if !ok {
		return nil, errExhausted
	}
	return binary.BigEndian.AppendUint32(append(make([]byte, 0, 12), ksn[:8]...), tc), nil
}
'''), imp(UTIL, 'math/bits'))

F('tc-shifts',
  fn(UTIL, 'GetAesTcFromKsn', '''
func GetAesTcFromKsn(ksn []byte) (tc uint32) {
	if len(ksn) <= 4 {
		return
	}
	for _, b := range ksn[len(ksn)-4:] {
		tc = tc<<8 | uint32(b)
	}
	return
}
'''),
  fn(UTIL, 'GetDesTcFromKsn', '''
func GetDesTcFromKsn(ksn []byte) uint32 {
	n := len(ksn)
	if n < 4 {
		return 0
	}
	return binary.BigEndian.Uint32(ksn[n-4:]) & 0x1FFFFF
}
'''))

F('hex-strings',
  fn(UTIL, 'HexDecode', '''
func HexDecode(data string) []byte {
	if out, err := hex.DecodeString(data); err == nil && len(out) > 0 {
		return out
	}
	return nil
}
'''),
  fn(UTIL, 'HexEncode', '''
func HexEncode(data []byte) string { return hex.EncodeToString(data) }
'''))

F('hex-table',
  fn(UTIL, 'HexEncode', '''
func HexEncode(data []byte) string {
	const digits = "0123456789abcdef"

	var out strings.Builder
	for _, b := range data {
		out.WriteByte(digits[b>>4])
		out.WriteByte(digits[b&0x0F])
	}
	return out.String()
}
'''), imp(UTIL, 'strings'))

# ---- aes
F('aes-type-maps',
  fn(AESI, 'getDerivationKeyType', '''
var derivationKeyTypes = map[int]string{
	keyAES128Bits / 8: KeyAES128Type,
	keyAES192Bits / 8: KeyAES192Type,
	keyAES256Bits / 8: KeyAES256Type,
}

func getDerivationKeyType(keyLen int) (string, error) {
	if keyType, ok := derivationKeyTypes[keyLen]; ok {
		return keyType, nil
	}
	return "", errors.New("unsupported key length yet")
}
'''),
  fn(AESI, 'checkWorkingKeyLength', '''
var workingKeyLengths = map[string]int{
	KeyAES128Type: keyAES128Bits / 8,
	KeyAES192Type: keyAES192Bits / 8,
	KeyAES256Type: keyAES256Bits / 8,
}

func checkWorkingKeyLength(keyLen int, keyType string) error {
	if _, err := getDerivationKeyType(keyLen); err != nil {
		return errors.New("invalid current transaction key length")
	}

	want, ok := workingKeyLengths[keyType]
	switch {
	case !ok:
		return errors.New("unsupported key type")
	case want != keyLen:
		return errors.New("mismatched key length and key type")
	}
	return nil
}
'''))

F('aes-derive-bits',
  fn(AES, 'DeriveCurrentTransactionKey', '''
func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
	keyType, err := getDerivationKeyType(len(ik))
	if err != nil {
		return nil, err
	}

	if err = checkKeySerialNumberLength(len(ksn)); err != nil {
		return nil, err
	}

	key := append([]byte(nil), ik...)
	tc := pkg.GetAesTcFromKsn(ksn)
	for bit := 31; bit >= 0; bit-- {
		if tc>>uint(bit)&1 == 0 {
			continue
		}
		data, err := createDerivationData(usageForKeyDerivation, keyType, ksn, tc&^(1<<bit-1))
		if err != nil {
			return nil, err
		}
		if key, err = derivationKey(key, data); err != nil {
			return nil, err
		}
	}
	return key, nil
}
'''))

F('aes-derivation-key-count',
  fn(AESI, 'derivationKey', '''
func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error) {
	size := int(derivationData.Length) / 8
	blocks := (size + aes.BlockSize - 1) / aes.BlockSize

	aesEcb, err := encryption.NewAesECB(key)
	if err != nil {
		return nil, err
	}

	derivedKey := make([]byte, 0, blocks*aes.BlockSize)
	for i := 1; i <= blocks; i++ {
		derivationData.KeyBlockCounter = byte(i)
		block, err := aesEcb.Encrypt(derivationData.Bytes())
		if err != nil {
			return nil, err
		}
		derivedKey = append(derivedKey, block...)
	}
	return derivedKey[:size:size], nil
}
'''))

F('aes-data-array',
  fn(AESI, 'Bytes', '''
func (k *keyDerivationData) Bytes() []byte {
	if k == nil {
		return nil
	}

	var b [8]byte
	b[0], b[1] = k.Version, k.KeyBlockCounter
	for i, v := range [...]uint16{k.KeyUsageIndicator, k.AlgorithmIndicator, k.Length} {
		b[2+2*i], b[3+2*i] = byte(v>>8), byte(v)
	}
	return append(b[:], k.InitialKeyID...)
}
'''))

F('aes-cbc-helper',
  fn(AES, 'EncryptData', '''
func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string) ([]byte, error) {
	block, err := dataCipher(currentKey, ksn, keyType, action)
	if err != nil {
		return nil, err
	}
	data := padded([]byte(plaintext))
	cipher.NewCBCEncrypter(block, serializeInitialVector(iv)).CryptBlocks(data, data)
	return data, nil
}

// padded returns a copy of the data, with zeros up to the next block
func padded(data []byte) []byte {
	size := (len(data) + aes.BlockSize - 1) / aes.BlockSize * aes.BlockSize
	out := make([]byte, size)
	copy(out, data)
	return out
}

func dataCipher(currentKey, ksn []byte, keyType, action string) (cipher.Block, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}
	usage := uint16(usageForDataEncrypt)
	switch action {
	case pkg.ActionResponse:
		usage = usageForDataDecrypt
	default:
	}
	key, err := generateDerivationKey(derivationParams{usage, keyType, ksn, currentKey})
	if err != nil {
		return nil, err
	}
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("making cipher from datakey: %w", err)
	}
	return block, nil
}
'''),
  fn(AES, 'DecryptData', '''
func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string) (string, error) {
	block, err := dataCipher(currentKey, ksn, keyType, action)
	if err != nil {
		return "", err
	}
	data := padded(ciphertext)
	cipher.NewCBCDecrypter(block, serializeInitialVector(iv)).CryptBlocks(data, data)
	return string(data), nil
}
'''))

F('aes-mac-helper',
  fn(AES, 'GenerateCMAC', '''
func GenerateCMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {
	return generateMac(currentKey, ksn, plaintext, keyType, action, checkWorkingKeyLength, func(key []byte) (hash.Hash, error) {
		return cmac.New(aes.NewCipher, key)
	})
}

func generateMac(currentKey, ksn []byte, plaintext, keyType, action string, check func(int, string) error, newHash func([]byte) (hash.Hash, error)) ([]byte, error) {
	if err := check(len(currentKey), keyType); err != nil {
		return nil, err
	}

	params := derivationParams{KeyUsage: usageForMessageGeneration, KeyType: keyType, Ksn: ksn, CurrentKey: currentKey}
	if action == pkg.ActionResponse {
		params.KeyUsage++
	}
	key, err := generateDerivationKey(params)
	if err != nil {
		return nil, err
	}

	h, err := newHash(key)
	if err != nil {
		return nil, err
	}
	if _, err = io.WriteString(h, plaintext); err != nil {
		return nil, err
	}
	return h.Sum(nil), nil
}
'''),
  fn(AES, 'GenerateHMAC', '''
func GenerateHMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {
	return generateMac(currentKey, ksn, plaintext, keyType, action, checkWorkingKeyLengthHmac, func(key []byte) (hash.Hash, error) {
		return hmac.New(sha256.New, key), nil
	})
}
'''), imp(AES, 'hash', 'io'))

F('aes-pin-helper',
  fn(AES, 'EncryptPin', '''
func EncryptPin(currentKey, ksn []byte, pin, pan string, keyType string) (block []byte, err error) {
	f, err := pinFormat(currentKey, ksn, keyType)
	if err != nil {
		return nil, err
	}
	var s string
	if s, err = f.Encode(pin, pan); err == nil {
		block = pkg.HexDecode(s)
	}
	return
}

func pinFormat(currentKey, ksn []byte, keyType string) (formats.Format, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}
	p := derivationParams{KeyUsage: usageForPinEncryption, KeyType: keyType}
	p.Ksn, p.CurrentKey = ksn, currentKey
	key, err := generateDerivationKey(p)
	if err != nil {
		return nil, err
	}
	ecb, err := encryption.NewAesECB(key)
	if err != nil {
		return nil, err
	}
	return formats.NewISO4(ecb), nil
}
'''),
  fn(AES, 'DecryptPin', '''
func DecryptPin(currentKey, ksn, ciphertext []byte, pan string, keyType string) (string, error) {
	f, err := pinFormat(currentKey, ksn, keyType)
	if err != nil {
		return "", err
	}
	pin, err := f.Decode(fmt.Sprintf("%x", ciphertext), pan)
	if err != nil {
		return "", err
	}
	return pin, nil
}
'''))

F('aes-create-data-tables',
  fn(AESI, 'createDerivationData', '''
type keyShape struct{ algorithm, bits uint16 }

var keyShapes = map[string]keyShape{
	keyTDES2Type:   {algorithmTwoKeyTDEA, keyTDES2Bits},
	keyTDES3Type:   {algorithmThreeKeyTDEA, keyTDES3Bits},
	KeyAES128Type:  {algorithmAES128, keyAES128Bits},
	KeyAES192Type:  {algorithmAES192, keyAES192Bits},
	KeyAES256Type:  {algorithmAES256, keyAES256Bits},
	KeyHMAC128Type: {algorithmHMAC, keyHMAC128Bits},
	KeyHMAC192Type: {algorithmHMAC, keyHMAC192Bits},
	KeyHMAC256Type: {algorithmHMAC, keyHMAC256Bits},
}

func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte, tc uint32) (*keyDerivationData, error) {
	shape, ok := keyShapes[keyType]
	if !ok {
		return nil, errors.New("unsupported key type")
	}

	id := make([]byte, initialKeyIdLength)
	if keyUsage == usageForKeyInitialKey {
		copy(id, initialKeyID)
	} else {
		copy(id, initialKeyID[derivationKeyIdLength:initialKeyIdLength])
		binary.BigEndian.PutUint32(id[derivationIdLength:], tc)
	}

	return &keyDerivationData{
		Version:            derivationDataVersion,
		KeyBlockCounter:    1,
		KeyUsageIndicator:  keyUsage,
		AlgorithmIndicator: shape.algorithm,
		Length:             shape.bits,
		InitialKeyID:       id,
	}, nil
}
'''))

# ---- des
F('des-masks',
  fn(DESI, 'serializeKeyWithHexadecimal', '''
var keyMask = [keyLen]byte{0xC0, 0xC0, 0xC0, 0xC0, 8: 0xC0, 0xC0, 0xC0, 0xC0}

func serializeKeyWithHexadecimal(key []byte) {
	if len(key) != keyLen {
		return
	}
	subtle.XORBytes(key, key, keyMask[:])
}
'''), imp(DESI, 'crypto/subtle'))

F('des-uint64',
  fn(DESI, 'makeNonReversibleKey', '''
func makeNonReversibleKey(ksnBytes, keyBytes []byte) ([]byte, error) {
	reg := binary.BigEndian.Uint64(ksnBytes[len(ksnBytes)-8:])

	step := func(key []byte) (uint64, error) {
		right := binary.BigEndian.Uint64(key[8:])
		c, err := encryption.NewDesECB(key[:8])
		if err != nil {
			return 0, err
		}
		var buf [8]byte
		binary.BigEndian.PutUint64(buf[:], reg^right)
		out, err := c.Encrypt(buf[:])
		if err != nil {
			return 0, err
		}
		return binary.BigEndian.Uint64(out) ^ right, nil
	}

	low, err := step(keyBytes)
	if err != nil {
		return nil, err
	}
	serializeKeyWithHexadecimal(keyBytes)
	high, err := step(keyBytes)
	if err != nil {
		return nil, err
	}

	next := make([]byte, keyLen)
	binary.BigEndian.PutUint64(next, high)
	binary.BigEndian.PutUint64(next[8:], low)
	return next, nil
}
'''), (DESI, '	"crypto/des" //nolint:gosec\n', '	"encoding/binary"\n'))

F('des-serial-fill',
  fn(DESI, 'serializeKeySerialNumber', '''
func serializeKeySerialNumber(ksn []byte) []byte {
	out := make([]byte, keySerialLen)
	pad := keySerialLen - len(ksn)
	for i := 0; i < pad; i++ {
		out[i] = 0xFF
	}
	copy(out[max(pad, 0):], ksn)
	return out
}
'''), (DESI, '	"bytes"\n', ''))

F('des-derive-mask',
  fn(DES, 'DeriveCurrentTransactionKey', '''
func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
	if len(ik) != keyLen {
		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
	}

	if len(ksn) > keySerialLen {
		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
	}

	register := serializeKeySerialNumber(ksn)
	tc := uint32(register[7]&0x1F)<<16 | uint32(register[8])<<8 | uint32(register[9])
	removeTransactionCounter(register)

	key := append([]byte{}, ik...)
	for mask := uint32(1) << (tcBits - 1); mask > 0; mask >>= 1 {
		if tc&mask == 0 {
			continue
		}
		register[7] |= byte(mask >> 16)
		register[8] |= byte(mask >> 8)
		register[9] |= byte(mask)

		next, err := makeNonReversibleKey(register, key)
		if err != nil {
			return nil, err
		}
		key = next
	}

	return key, nil
}
'''))

F('des-mac-cbc',
  fn(DES, 'GenerateMac', '''
func variant(currentKey []byte, positions ...int) []byte {
	key := append([]byte{}, currentKey...)
	for _, i := range positions {
		key[i] ^= 0xFF
	}
	return key
}

func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
	if len(currentKey) != keyLen {
		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
	}

	var macKey []byte
	if action == pkg.ActionResponse {
		macKey = variant(currentKey, 4, 12)
	} else {
		macKey = variant(currentKey, 6, 14)
	}

	left, err := encryption.NewDesECB(macKey[:desBlockLen])
	if err != nil {
		return nil, err
	}
	right, err := encryption.NewDesECB(macKey[desBlockLen:])
	if err != nil {
		return nil, err
	}

	acc := make([]byte, desBlockLen)
	for rest := []byte(plainText); len(rest) > 0; {
		n := min(len(rest), desBlockLen)
		for i, b := range rest[:n] {
			acc[i] ^= b
		}
		rest = rest[n:]
		if acc, err = left.Encrypt(acc); err != nil {
			return nil, err
		}
	}

	if acc, err = right.Decrypt(acc); err != nil {
		return nil, err
	}
	return left.Encrypt(acc)
}
'''))

F('des-data-common',
  fn(DES, 'EncryptData', '''
func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
	return cryptData(currentKey, iv, []byte(plainText), action, cipher.NewCBCEncrypter)
}

func cryptData(currentKey, iv, data []byte, action string, mode func(cipher.Block, []byte) cipher.BlockMode) ([]byte, error) {
	if len(currentKey) != keyLen {
		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
	}

	at := 5
	if action == pkg.ActionResponse {
		at = 3
	}
	dataKey := make([]byte, keyLen)
	copy(dataKey, currentKey)
	dataKey[at] = ^dataKey[at]
	dataKey[at+8] = ^dataKey[at+8]

	wrap, err := encryption.NewTripleDesECB(dataKey)
	if err != nil {
		return nil, err
	}
	var newKey []byte
	for _, half := range [][]byte{dataKey[:desBlockLen], dataKey[desBlockLen:]} {
		enc, err := wrap.Encrypt(half)
		if err != nil {
			return nil, err
		}
		newKey = append(newKey, enc...)
	}
	block, err := encryption.NewTripleDesECB(newKey)
	if err != nil {
		return nil, err
	}

	out := make([]byte, (len(data)+desBlockLen-1)/desBlockLen*desBlockLen)
	copy(out, data)
	mode(block.GetBlock(), serializeInitialVector(iv)).CryptBlocks(out, out)
	return out, nil
}
'''),
  fn(DES, 'DecryptData', '''
func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
	out, err := cryptData(currentKey, iv, ciphertext, action, cipher.NewCBCDecrypter)
	if err != nil {
		return "", err
	}
	return string(out), nil
}
'''))

F('des-initial-helper',
  fn(DES, 'DerivationOfInitialKey', '''
func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
	switch {
	case len(bdk) != keyLen:
		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
	case len(ksn) > keySerialLen:
		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
	}

	register := serializeKeySerialNumber(ksn)
	removeTransactionCounter(register)

	other := append([]byte(nil), bdk...)
	serializeKeyWithHexadecimal(other)

	ik := make([]byte, 0, keyLen)
	for _, key := range [...][]byte{bdk, other} {
		ecb, err := encryption.NewTripleDesECB(key)
		if err != nil {
			return nil, err
		}
		half, err := ecb.Encrypt(register[:8])
		if err != nil {
			return nil, err
		}
		ik = append(ik, half...)
	}
	return ik, nil
}
'''))

F('des-pin-crypt',
  fn(DESI, 'encryptPinblock', '''
func encryptPinblock(currentKey, pinblock []byte) ([]byte, error) {
	return cryptPinblock(currentKey, pinblock, (*encryption.DesECB).Encrypt)
}

func cryptPinblock(currentKey, block []byte, crypt func(*encryption.DesECB, []byte) ([]byte, error)) ([]byte, error) {
	if len(currentKey) != keyLen {
		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
	}
	var pinKey [keyLen]byte
	copy(pinKey[:], currentKey)
	for i := 7; i < keyLen; i += 8 {
		pinKey[i] ^= 0xFF
	}
	ecb, err := encryption.NewTripleDesECB(pinKey[:])
	if err != nil {
		return nil, err
	}
	return crypt(ecb, block)
}
'''),
  fn(DESI, 'decryptPinblock', '''
func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
	return cryptPinblock(currentKey, ciphertext, (*encryption.DesECB).Decrypt)
}
'''))

# ---- encryption
F('ecb-embedded',
  (EDES, '''type DesECB struct {
	cipherBlock cipher.Block
}
''', '''type DesECB struct {
	ecb
}

type ecb struct{ cipherBlock cipher.Block }

func (e ecb) run(in []byte, what string, f func(dst, src []byte)) ([]byte, error) {
	if len(in) != des.BlockSize {
		return nil, fmt.Errorf("%s text length must be %d bytes", what, des.BlockSize)
	}
	out := make([]byte, des.BlockSize)
	f(out, in)
	return out, nil
}
'''),
  fn(EDES, 'NewTripleDesECB', '''
func NewTripleDesECB(key []byte) (*DesECB, error) {
	switch len(key) {
	case 24:
	case 16:
		key = append(key[:16:16], key[:8]...)
	default:
		return nil, errors.New("creating cipher: invalid key size " + strconv.Itoa(len(key)))
	}
	return newDesECB(des.NewTripleDESCipher(key)) //nolint:gosec
}

func newDesECB(block cipher.Block, err error) (*DesECB, error) {
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}
	return &DesECB{ecb{block}}, nil
}
'''),
  fn(EDES, 'NewDesECB', '''
func NewDesECB(key []byte) (*DesECB, error) {
	return newDesECB(des.NewCipher(key)) //nolint:gosec
}
'''),
  fn(EDES, 'Encrypt', '''
func (a *DesECB) Encrypt(plainText []byte) ([]byte, error) {
	return a.run(plainText, "plain", a.cipherBlock.Encrypt)
}
'''),
  fn(EDES, 'Decrypt', '''
func (a *DesECB) Decrypt(cipherText []byte) ([]byte, error) {
	return a.run(cipherText, "cipher", a.cipherBlock.Decrypt)
}
'''))

# ---- wrapper
F('wrap-hexes',
  fn(WRAP, 'DecryptData', '''
// hexes decodes hexadecimal parameters
func hexes(values ...string) ([][]byte, error) {
	out := make([][]byte, len(values))
	for i, v := range values {
		if out[i] = pkg.HexDecode(v); out[i] == nil && v != "" {
			return nil, errors.New("invalid hexadecimal parameter")
		}
	}
	return out, nil
}

func DecryptData(params UnifiedParams) (string, error) {
	if params.Algorithm == pkg.AlgorithmAes {
		b, err := hexes(params.TK, params.KSN, params.Ciphertext, params.IV)
		if err != nil {
			return "", err
		}
		return aes.DecryptData(b[0], b[1], b[2], b[3], params.AlgorithmKey, params.Action)
	}
	b, err := hexes(params.TK, params.Ciphertext, params.IV)
	if err != nil {
		return "", err
	}
	return des.DecryptData(b[0], b[1], b[2], params.Action)
}
'''))

F('wrap-mac-switch',
  fn(WRAP, 'GenerateMac', '''
func GenerateMac(params UnifiedParams) (string, error) {
	f, err := macFunc(&params)
	if err != nil {
		return "", err
	}
	if err = validateHex(params.TK); err != nil {
		return "", err
	}
	buf, err := f(pkg.HexDecode(params.TK))
	if err != nil {
		return "", err
	}
	return pkg.HexEncode(buf), nil
}

func macFunc(p *UnifiedParams) (func(tk []byte) ([]byte, error), error) {
	if p.Algorithm != pkg.AlgorithmAes {
		return func(tk []byte) ([]byte, error) { return des.GenerateMac(tk, p.Plaintext, p.Action) }, nil
	}
	var gen func(tk, ksn []byte, plaintext, keyType, action string) ([]byte, error)
	switch p.MacType {
	case pkg.MaxTypeCmac:
		gen = aes.GenerateCMAC
	case pkg.MaxTypeHmac:
		gen = aes.GenerateHMAC
		if size, ok := strings.CutPrefix(p.AlgorithmKey, "AES"); ok && (size == "128" || size == "192" || size == "256") {
			p.AlgorithmKey = "HMAC" + size
		}
	default:
		return nil, errors.New("invalid mac type")
	}
	if err := validateHex(p.KSN); err != nil {
		return nil, err
	}
	return func(tk []byte) ([]byte, error) {
		return gen(tk, pkg.HexDecode(p.KSN), p.Plaintext, p.AlgorithmKey, p.Action)
	}, nil
}
'''), imp(WRAP, 'strings'))

F('wrap-defer-encode',
  fn(WRAP, 'EncryptData', '''
func EncryptData(params UnifiedParams) (result string, err error) {
	var buf []byte
	defer func() {
		if err == nil {
			result = pkg.HexEncode(buf)
		}
	}()

	if err = validateHex(params.TK, params.IV); err != nil {
		return
	}
	tk, iv := pkg.HexDecode(params.TK), pkg.HexDecode(params.IV)
	if params.Algorithm != pkg.AlgorithmAes {
		buf, err = des.EncryptData(tk, iv, params.Plaintext, params.Action)
		return
	}
	if err = validateHex(params.KSN); err != nil {
		return
	}
	buf, err = aes.EncryptData(tk, pkg.HexDecode(params.KSN), iv, params.Plaintext, params.AlgorithmKey, params.Action)
	return
}
'''))

F('wrap-slices',
  fn(WRAP, 'ValidateAlgorithm', '''
func (p UnifiedParams) ValidateAlgorithm() error {
	if slices.Contains([]string{pkg.AlgorithmDes, pkg.AlgorithmAes}, p.Algorithm) {
		return nil
	}
	return errors.New("invalid encrypt/decrypt algorithm")
}
'''),
  fn(WRAP, 'validateHex', '''
func validateHex(values ...string) error {
	if slices.ContainsFunc(values, func(v string) bool { return v != "" && pkg.HexDecode(v) == nil }) {
		return errors.New("invalid hexadecimal parameter")
	}
	return nil
}
'''), imp(WRAP, 'slices'))

# ---- service
def ops(new):
    return [fn(SVC, n, new.replace('OP', n).replace('ARGS', a).replace('SETS', b)) for n, a, b in [
        ('GenerateMac', 'data, action, macType string', 'params.Plaintext, params.Action, params.MacType = data, action, macType'),
        ('EncryptData', 'data, action, iv string', 'params.Plaintext, params.Action, params.IV = data, action, iv'),
        ('DecryptData', 'ciphertext, action, iv string', 'params.Ciphertext, params.Action, params.IV = ciphertext, action, iv')]]

F('svc-params-method',
  *ops('''
func (s *service) OP(ik, ARGS) (string, error) {
	params, err := s.params(ik)
	if err != nil {
		return "", err
	}
	SETS
	return OP(params)
}
'''),
  (SVC, 'func (s *service) DeleteMachine(', '''func (s *service) params(ik string) (p UnifiedParams, err error) {
	m, err := s.GetMachine(ik)
	if err != nil {
		return p, fmt.Errorf("make next ksn: %w(%s)", err, ik)
	}
	p.Algorithm, p.AlgorithmKey = m.Algorithm, m.AlgorithmKey
	p.TK, p.KSN, p.IK = m.TransactionKey, m.CurrentKSN, ik
	return p, nil
}

func (s *service) DeleteMachine('''))

F('svc-call-closure',
  *ops('''
func (s *service) OP(ik, ARGS) (string, error) {
	return s.call(ik, OP, func(params *UnifiedParams) {
		SETS
	})
}
'''),
  (SVC, 'func (s *service) DeleteMachine(', '''func (s *service) call(ik string, f WrapperCall, set func(*UnifiedParams)) (string, error) {
	m, err := s.GetMachine(ik)
	if err != nil {
		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
	}
	p := &UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, TK: m.TransactionKey, KSN: m.CurrentKSN, IK: ik}
	set(p)
	return f(*p)
}

func (s *service) DeleteMachine('''))

F('svc-locked-helper',
  fn(SVC, 'GetMachine', '''
func (s *service) GetMachine(ik string) (*Machine, error) {
	var m Machine
	err := s.locked(func() error {
		f, err := s.store.FindMachine(ik)
		if err == nil {
			m = *f
		}
		return err
	})
	if err != nil {
		return nil, ErrNotFound
	}
	return &m, nil
}

func (s *service) locked(f func() error) error {
	s.mtx.RLock()
	defer s.mtx.RUnlock()
	return f()
}
'''),
  fn(SVC, 'GetMachines', '''
func (s *service) GetMachines() (machines []*Machine) {
	machines = []*Machine{}
	s.locked(func() error {
		for _, m := range s.store.FindAllMachines() {
			c := *m
			machines = append(machines, &c)
		}
		return nil
	})
	return machines
}
'''))

F('svc-next-defer',
  fn(SVC, 'MakeNextKSN', '''
func (s *service) MakeNextKSN(ik string) (updated *Machine, err error) {
	s.mtx.Lock()
	defer s.mtx.Unlock()

	m, err := s.store.FindMachine(ik)
	if err != nil {
		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
	}

	next := *m
	if err = next.advance(ik); err != nil {
		return nil, err
	}
	*m = next
	return &next, nil
}

// advance moves the machine to its next serial number
func (m *Machine) advance(ik string) error {
	generate := pkg.GenerateNextDesKsn
	if m.Algorithm == pkg.AlgorithmAes {
		generate = pkg.GenerateNextAesKsn
	}
	ksn, err := generate(pkg.HexDecode(m.CurrentKSN))
	if err != nil {
		return err
	}
	m.CurrentKSN = pkg.HexEncode(ksn)
	m.TransactionKey, err = TransactionKey(UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, KSN: m.CurrentKSN, IK: ik})
	return err
}
'''))

F('svc-create-value',
  fn(SVC, 'CreateMachine', '''
func (s *service) CreateMachine(m *Machine) error {
	if m == nil {
		return ErrNotFound
	}

	p := UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, KSN: m.KeySerialNumber, BKD: m.BaseDerivativeKey}
	err := p.ValidateAlgorithm()
	if err == nil {
		p.IK, err = InitialKey(p)
	}
	if err != nil {
		return err
	}
	m.InitialKey, m.CurrentKSN = p.IK, p.KSN
	if m.TransactionKey, err = TransactionKey(p); err != nil {
		return err
	}

	stored := new(Machine)
	*stored = *m
	return s.store.StoreMachine(stored)
}
'''))

# ---- repository
F('repo-maps',
  fn(REPO, 'FindAllMachines', '''
func (r *repositoryInMemory) FindAllMachines() []*Machine {
	r.mtx.RLock()
	all := make([]*Machine, 0, len(r.machines))
	for _, m := range r.machines {
		all = append(all, m)
	}
	r.mtx.RUnlock()
	return all
}
'''),
  fn(REPO, 'StoreMachine', '''
func (r *repositoryInMemory) StoreMachine(m *Machine) (err error) {
	if m == nil {
		return errors.New("nil machine provided")
	}

	r.mtx.Lock()
	if r.machines[m.InitialKey] != nil {
		err = ErrAlreadyExists
	} else {
		r.machines[m.InitialKey] = m
	}
	r.mtx.Unlock()
	return err
}
'''),
  fn(REPO, 'FindMachine', '''
func (r *repositoryInMemory) FindMachine(ik string) (*Machine, error) {
	m, ok := r.lookup(ik)
	if !ok {
		return nil, ErrNotFound
	}
	return m, nil
}

func (r *repositoryInMemory) lookup(ik string) (m *Machine, ok bool) {
	r.mtx.RLock()
	defer r.mtx.RUnlock()
	m, ok = r.machines[ik]
	return
}
'''))

# ---- handlers and routing
F('hand-generics',
  (HAND, '''func bindJSON(''', '''// handle turns a function of a request into an endpoint
func handle[Req any](f func(Req) (interface{}, error), bug interface{}) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
		req, ok := request.(Req)
		if !ok {
			return bug, ErrFoundABug
		}
		return f(req)
	}
}

func bindJSON('''),
  fn(HAND, 'encryptPinEndpoint', '''
func encryptPinEndpoint(s Service) endpoint.Endpoint {
	return handle(func(req encryptPinRequest) (interface{}, error) {
		encrypted, err := s.EncryptPin(req.ik, req.pin, req.pan, req.format)
		if err != nil {
			return encryptPinResponse{Err: err}, nil
		}
		return encryptPinResponse{Encrypted: encrypted}, nil
	}, encryptPinResponse{Err: ErrFoundABug})
}
'''),
  fn(HAND, 'decryptPinEndpoint', '''
func decryptPinEndpoint(s Service) endpoint.Endpoint {
	return handle(func(req decryptPinRequest) (interface{}, error) {
		var resp decryptPinResponse
		resp.Decrypted, resp.Err = s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
		if resp.Err != nil {
			resp.Decrypted = ""
		}
		return resp, nil
	}, decryptPinResponse{Err: ErrFoundABug})
}
'''))

F('hand-decode-struct',
  fn(HAND, 'decodeEncryptPinRequest', '''
func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
	var body struct{ Pin, Pan, Format string }
	if err := bindJSON(request, &body); err != nil {
		return nil, err
	}
	return encryptPinRequest{
		requestID: moovhttp.GetRequestID(request),
		ik:        mux.Vars(request)["ik"],
		pin:       body.Pin,
		pan:       body.Pan,
		format:    body.Format,
	}, nil
}
'''),
  fn(HAND, 'decodeDecryptPinRequest', '''
func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
	var body struct {
		Encrypted string `json:"encrypted"`
		Pan       string `json:"pan"`
		Format    string `json:"format"`
	}
	if err := bindJSON(request, &body); err != nil {
		return nil, err
	}
	ik, _ := mux.Vars(request)["ik"]
	return decryptPinRequest{moovhttp.GetRequestID(request), ik, body.Encrypted, body.Pan, body.Format}, nil
}
'''))

F('route-functions',
  fn(ROUT, 'MakeHTTPHandler', '''
func MakeHTTPHandler(s Service) http.Handler {
	r := mux.NewRouter()
	options := []httptransport.ServerOption{
		httptransport.ServerErrorEncoder(encodeError),
		httptransport.ServerBefore(saveCORSHeadersIntoContext()),
		httptransport.ServerAfter(respondWithSavedCORSHeaders()),
	}
	r.Methods(http.MethodOptions).Handler(preflightHandler(options))
	r.HandleFunc("/ping", ping).Methods(http.MethodGet)

	handle := func(method, path string, e endpoint.Endpoint, d httptransport.DecodeRequestFunc) {
		r.Handle(path, httptransport.NewServer(e, d, encodeResponse, options...)).Methods(method)
	}
	get := func(path string, e endpoint.Endpoint, d httptransport.DecodeRequestFunc) { handle("GET", path, e, d) }
	post := func(path string, e endpoint.Endpoint, d httptransport.DecodeRequestFunc) { handle("POST", path, e, d) }

	get("/machines", getMachinesEndpoint(s), decodeGetMachinesRequest)
	get("/machine/{ik}", findMachineEndpoint(s), decodeFindMachineRequest)
	post("/machine", createMachineEndpoint(s), decodeCreateMachineRequest)
	post("/generate_ksn/{ik}", generateKSNEndpoint(s), decodeGenerateKSNRequest)
	post("/encrypt_pin/{ik}", encryptPinEndpoint(s), decodeEncryptPinRequest)
	post("/decrypt_pin/{ik}", decryptPinEndpoint(s), decodeDecryptPinRequest)
	post("/generate_mac/{ik}", generateMacEndpoint(s), decodeGenerateMacRequest)
	post("/encrypt_data/{ik}", encryptDataEndpoint(s), decodeEncryptDataRequest)
	post("/decrypt_data/{ik}", decryptDataEndpoint(s), decodeDecryptDataRequest)
	return r
}

func ping(w http.ResponseWriter, r *http.Request) {
	moovhttp.SetAccessControlAllowHeaders(w, r.Header.Get("Origin"))
	w.Header().Set("Content-Type", "text/plain")
	_, _ = io.WriteString(w, "PONG")
}
'''), imp(ROUT, 'io'))

F('route-code-ifs',
  fn(ROUT, 'codeFrom', '''
func codeFrom(err error) int {
	if err == nil {
		return http.StatusOK
	}
	if errors.Is(err, ErrNotFound) {
		return http.StatusNotFound
	}
	if errors.Is(err, ErrAlreadyExists) || invalidMachine(err) {
		return http.StatusBadRequest
	}
	return http.StatusInternalServerError
}

func invalidMachine(err error) bool {
	text := fmt.Sprintf("%#v", err)
	switch list := err.(type) {
	case base.ErrorList:
		text = list.Error()
	}
	return strings.Contains(text, errInvalidMachine.Error())
}
'''),
  fn(ROUT, 'encodeError', '''
func encodeError(_ context.Context, err error, w http.ResponseWriter) {
	if err == nil {
		err = ErrFoundABug
	}
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	w.WriteHeader(codeFrom(err))
	body := struct {
		Error string `json:"error"`
	}{err.Error()}
	if err := json.NewEncoder(w).Encode(body); err != nil {
		fmt.Fprintf(w, "problem rendering json: %v", err)
	}
}
'''))

F('route-cors-helper',
  fn(ROUT, 'respondWithSavedCORSHeaders', '''
func respondWithSavedCORSHeaders() httptransport.ServerResponseFunc {
	return func(ctx context.Context, w http.ResponseWriter) context.Context {
		if origin := savedOrigin(ctx); len(origin) != 0 {
			moovhttp.SetAccessControlAllowHeaders(w, origin)
		}
		return ctx
	}
}

func savedOrigin(ctx context.Context) string {
	switch v := ctx.Value(contextKey).(type) {
	case string:
		return v
	default:
		return ""
	}
}
'''))

F('route-response-split',
  fn(ROUT, 'encodeResponse', '''
const jsonContent = "application/json; charset=utf-8"

func encodeResponse(ctx context.Context, w http.ResponseWriter, response interface{}) error {
	header := w.Header()
	if e, ok := response.(errorer); ok {
		if err := e.error(); err != nil {
			header.Set("Content-Type", jsonContent)
			w.WriteHeader(codeFrom(err))
			return marshalStructWithError(response, w)
		}
	}

	if e, ok := response.(counter); ok {
		header.Set("X-Total-Count", strconv.Itoa(e.count()))
	}

	if header.Get("Content-Type") != "" {
		return nil
	}
	header.Set("Content-Type", jsonContent)
	return json.NewEncoder(w).Encode(response)
}
'''))

# ---- command line
def cli():
    t = open('/repo/' + CLI).read()
    m = re.search(r'^func main\(\) \{.*', t, re.S | re.M)
    return m.group(0)

F('cli-run-int', (CLI, cli(), '''type required struct {
	value *string
	text  string
}

type operation struct {
	on       *bool
	call     server.WrapperCall
	required []required
	check    func(aes bool) string
	params   server.UnifiedParams
}

func operations() []operation {
	action := func(flag *string, name string) string {
		if *flag != pkg.ActionRequest && *flag != pkg.ActionResponse {
			return "please select valid action with " + name + " flag"
		}
		return ""
	}
	return []operation{
		{flagInitialKey, server.InitialKey, []required{
			{flagInitialKeyBKD, "please select base derivative key with ik.bdk flag"},
			{flagInitialKeyKSN, "please select key serial number with ik.ksn flag"},
		}, nil, server.UnifiedParams{BKD: *flagInitialKeyBKD, KSN: *flagInitialKeyKSN}},
		{flagTransactionKey, server.TransactionKey, []required{
			{flagTransactionKeyIK, "please select initial key with tk.ik flag"},
			{flagTransactionKeyKSN, "please select key serial number with tk.ksn flag"},
		}, nil, server.UnifiedParams{IK: *flagTransactionKeyIK, KSN: *flagTransactionKeyKSN}},
		{flagEncryptPin, server.EncryptPin, []required{
			{flagEncryptPinTK, "please select current transaction key with ep.tk flag"},
			{flagEncryptPinPin, "please select pin string with ep.pin flag"},
			{flagEncryptPinPan, "please select pan string with ep.pan flag"},
		}, func(aes bool) string {
			if aes && *flagEncryptPinKSN == "" {
				return "please select key serial number with ep.ksn flag"
			}
			if !aes && *flagEncryptPinFormat == "" {
				return "please select pin block format with ep.formst flag"
			}
			return ""
		}, server.UnifiedParams{TK: *flagEncryptPinTK, PIN: *flagEncryptPinPin, PAN: *flagEncryptPinPan, KSN: *flagEncryptPinKSN, Format: *flagEncryptPinFormat}},
		{flagDecryptPin, server.DecryptPin, []required{
			{flagDecryptPinTK, "please select current transaction key with dp.tk flag"},
			{flagDecryptPinPin, "please select encrypted text with dp.pin flag"},
			{flagDecryptPinPan, "please select pan string with dp.pan flag"},
		}, func(aes bool) string {
			if aes && *flagDecryptPinKSN == "" {
				return "please select key serial number with dp.ksn flag"
			}
			if !aes && *flagDecryptPinFormat == "" {
				return "please select pin block format with dp.formst flag"
			}
			return ""
		}, server.UnifiedParams{TK: *flagDecryptPinTK, PIN: *flagDecryptPinPin, PAN: *flagDecryptPinPan, KSN: *flagDecryptPinKSN, Format: *flagDecryptPinFormat}},
		{flagGenerateMac, server.GenerateMac, []required{
			{flagGenerateMacTK, "please select current transaction key with gm.tk flag"},
			{flagGenerateMacData, "please select request data string with gm.data flag"},
		}, func(aes bool) string {
			if text := action(flagGenerateMacAction, "gm.action"); text != "" {
				return text
			}
			if aes && *flagGenerateMacKSN == "" {
				return "please select key serial number with gm.ksn flag"
			}
			if aes && *flagGenerateMacType != pkg.MaxTypeCmac && *flagGenerateMacType != pkg.MaxTypeHmac {
				return "please select valid mac type with gm.type flag"
			}
			return ""
		}, server.UnifiedParams{TK: *flagGenerateMacTK, Plaintext: *flagGenerateMacData, Action: *flagGenerateMacAction, MacType: *flagGenerateMacType, KSN: *flagGenerateMacKSN}},
		{flagEncrypt, server.EncryptData, []required{
			{flagEncryptTK, "please select current transaction key with en.tk flag"},
			{flagEncryptIV, "please select initial vector with en.iv flag"},
			{flagEncryptData, "please select request data with en.data flag"},
		}, func(aes bool) string {
			if aes && *flagEncryptKSN == "" {
				return "please select key serial number with en.ksn flag"
			}
			return ""
		}, server.UnifiedParams{TK: *flagEncryptTK, Plaintext: *flagEncryptData, IV: *flagEncryptIV, KSN: *flagEncryptKSN, Action: *flagEncryptAction}},
		{flagDecrypt, server.DecryptData, []required{
			{flagDecryptTK, "please select current transaction key with de.tk flag"},
			{flagDecryptIV, "please select initial vector with de.iv flag"},
			{flagDecryptData, "please select encrypted text with de.data flag"},
		}, func(aes bool) string {
			if aes && *flagDecryptKSN == "" {
				return "please select key serial number with de.ksn flag"
			}
			return ""
		}, server.UnifiedParams{TK: *flagDecryptTK, Ciphertext: *flagDecryptData, IV: *flagDecryptIV, KSN: *flagDecryptKSN, Action: *flagDecryptAction}},
	}
}

func main() {
	flag.Usage = help
	flag.Parse()
	if code := run(); code != 0 {
		os.Exit(code)
	}
}

func run() int {
	if *flagVersion {
		fmt.Printf("moov-io/dukpt:%s cli tool\\n", dukpt.Version)
		return 0
	}

	isAes := *flagAlgorithm == pkg.AlgorithmAes
	if isAes && *flagAlgorithmKeyType == "" {
		fmt.Println("please select key type with algorithm.key_type flag")
		return 1
	}

	for _, op := range operations() {
		if !*op.on {
			continue
		}
		for _, r := range op.required {
			if *r.value == "" {
				fmt.Println(r.text)
				return 1
			}
		}
		if op.check != nil {
			if text := op.check(isAes); text != "" {
				fmt.Println(text)
				return 1
			}
		}
		params := op.params
		params.Algorithm = *flagAlgorithm
		params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
		result, err := execute(op.call, params)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Printf("RESULT: %s\\n", result)
		return 0
	}

	flag.Usage()
	return 1
}

func execute(f server.WrapperCall, params server.UnifiedParams) (string, error) {
	if err := params.ValidateAlgorithm(); err != nil {
		return "", err
	}
	return f(params)
}
'''))

F('cli-fatal-exit', (CLI, '''	result, err := f(params)
	if err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}

	fmt.Printf("RESULT: %s\\n", result)
''', '''	result, err := f(params)
	exitOn(err)

	fmt.Fprintln(os.Stdout, "RESULT:", result)
'''), (CLI, '''	if err := params.ValidateAlgorithm(); err != nil {
		fmt.Printf("%s\\n", err.Error())
		os.Exit(2)
	}
''', '''	exitOn(params.ValidateAlgorithm())
'''), (CLI, 'func makeFuncCall(', '''func exitOn(err error) {
	if err == nil {
		return
	}
	fmt.Println(err.Error())
	os.Exit(2)
}

func makeFuncCall('''))

# ---- server
F('srv-signal-context', (SRV, '''	errs := make(chan error)
	go func() {
		c := make(chan os.Signal, 1)
		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
		errs <- fmt.Errorf("%s", <-c)
	}()
''', '''	errs := make(chan error, 3)
	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGINT, syscall.SIGTERM)
	defer stop()
'''), (SRV, '''	if err := <-errs; err != nil {
		shutdownServer()
		logger.LogError(err)
	}
''', '''	select {
	case err := <-errs:
		shutdownServer()
		logger.LogError(err)
	case <-ctx.Done():
		shutdownServer()
		logger.LogError(ctx.Err())
	}
'''))

F('srv-signal-chan', (SRV, '''	go func() {
		c := make(chan os.Signal, 1)
		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
		errs <- fmt.Errorf("%s", <-c)
	}()
''', '''	signals := make(chan os.Signal, 1)
	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
'''), (SRV, '	errs := make(chan error)\n', '	errs := make(chan error, 2)\n'), (SRV, '''	if err := <-errs; err != nil {
		shutdownServer()
		logger.LogError(err)
	}
''', '''	var reason error
	select {
	case s := <-signals:
		reason = fmt.Errorf("%s", s)
	case reason = <-errs:
	}
	shutdownServer()
	logger.LogError(reason)
'''))

F('srv-env-helper', (SRV, '''	if v := os.Getenv("HTTP_BIND_ADDRESS"); v != "" {
		*httpAddr = v
	}
''', '''	override(httpAddr, "HTTP_BIND_ADDRESS")
'''), (SRV, '''	if v := os.Getenv("HTTP_ADMIN_BIND_ADDRESS"); v != "" {
		*adminAddr = v
	}
''', '''	override(adminAddr, "HTTP_ADMIN_BIND_ADDRESS")
'''), (SRV, '''	if v := os.Getenv("LOG_FORMAT"); v != "" {
		*flagLogFormat = v
	}
''', '''	override(flagLogFormat, "LOG_FORMAT")
'''), (SRV, 'func main() {\n', '''// override lets the environment take precedence over a flag
func override(value *string, name string) {
	if v, ok := os.LookupEnv(name); ok && v != "" {
		*value = v
	}
}

func main() {
'''))

F('srv-serve-func', (SRV, '''	go func() {
		if certFile, keyFile := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE"); certFile != "" && keyFile != "" {
			logger.Logf("startup binding to %s for secure HTTP server", *httpAddr)
			if err := serve.ListenAndServeTLS(certFile, keyFile); err != nil {
				errs <- err
				logger.LogError(err)
			}
		} else {
			logger.Logf("startup binding to %s for HTTP server", *httpAddr)
			if err := serve.ListenAndServe(); err != nil {
				errs <- err
				logger.LogError(err)
			}
		}
	}()
''', '''	go serveHTTP(serve, logger, errs)
'''), (SRV, 'func main() {\n', '''func serveHTTP(serve *http.Server, logger log.Logger, errs chan<- error) {
	cert, key := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE")
	listen := serve.ListenAndServe
	kind := "HTTP"
	if cert != "" && key != "" {
		listen, kind = func() error { return serve.ListenAndServeTLS(cert, key) }, "secure HTTP"
	}
	logger.Logf("startup binding to %s for %s server", serve.Addr, kind)
	if err := listen(); err != nil {
		errs <- err
		logger.LogError(err)
	}
}

func main() {
'''))
