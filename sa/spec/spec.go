// Package zz_verifspec is the reference the analysed code is compared with. It is written
// from ANSI X9.24-1:2009 and X9.24-3:2017 and from the property statements, and it is only
// ever interpreted by the analyser, in the same abstract domain as the analysed code.
package zz_verifspec

import (
	"crypto/aes"
	"crypto/des" //nolint:gosec
	"crypto/hmac"
	"crypto/sha256"
	"errors"
	"strings"

	"github.com/moov-io/dukpt/pkg"
	daes "github.com/moov-io/dukpt/pkg/aes"
	ddes "github.com/moov-io/dukpt/pkg/des"
	"github.com/moov-io/dukpt/pkg/server"
	"github.com/moov-io/pinblock/formats"
)

// ---- block primitives

func AesE(k, b []byte) []byte {
	c, _ := aes.NewCipher(k)
	o := make([]byte, 16)
	c.Encrypt(o, b)
	return o
}

func AesD(k, b []byte) []byte {
	c, _ := aes.NewCipher(k)
	o := make([]byte, 16)
	c.Decrypt(o, b)
	return o
}

func DesE(k, b []byte) []byte {
	c, _ := des.NewCipher(k)
	o := make([]byte, 8)
	c.Encrypt(o, b)
	return o
}

func DesD(k, b []byte) []byte {
	c, _ := des.NewCipher(k)
	o := make([]byte, 8)
	c.Decrypt(o, b)
	return o
}

// TdesE is E(K1) after D(K2) after E(K3), with K3 = K1 for 16-byte keys.
func TdesE(k, b []byte) []byte {
	k3 := k[:8]
	if len(k) == 24 {
		k3 = k[16:]
	}
	return DesE(k3, DesD(k[8:16], DesE(k[:8], b)))
}

func TdesD(k, b []byte) []byte {
	k3 := k[:8]
	if len(k) == 24 {
		k3 = k[16:]
	}
	return DesD(k[:8], DesE(k[8:16], DesD(k3, b)))
}

func xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func padded(b []byte, bs int) []byte {
	n := (len(b) + bs - 1) / bs * bs
	o := make([]byte, n)
	copy(o, b)
	return o
}

func fixed(b []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, b)
	return o
}

// ---- AES key derivation (X9.24-3)

func aesAlg(n int) (uint16, uint16) {
	switch n {
	case 16:
		return 2, 128
	case 24:
		return 3, 192
	}
	return 4, 256
}

// derive gives n bytes derived from key for an 8-byte identifier.
func derive(key []byte, usage, alg, bits uint16, id []byte) []byte {
	var out []byte
	n := int(bits) / 8
	for i := 1; len(out) < n; i++ {
		d := []byte{1, byte(i), byte(usage >> 8), byte(usage), byte(alg >> 8), byte(alg), byte(bits >> 8), byte(bits)}
		d = append(d, id...)
		out = append(out, AesE(key, d)...)
	}
	return out[:n]
}

func AesIK(bdk, ksn []byte) []byte {
	alg, bits := aesAlg(len(bdk))
	return derive(bdk, 0x8001, alg, bits, ksn[:8])
}

func AesTK(ik, ksn []byte) []byte {
	alg, bits := aesAlg(len(ik))
	key := fixed(ik, len(ik))
	id := make([]byte, 8)
	copy(id, ksn[4:8])
	for i := 0; i < 32; i++ {
		m := byte(0x80) >> (uint(i) % 8)
		if ksn[8+i/8]&m != 0 {
			id[4+i/8] |= m
			key = derive(key, 0x8000, alg, bits, id)
		}
	}
	return key
}

// AesWorkingKey: purpose is "pin", "mac" or "data"; kind is "AES" or "HMAC"; n the key length.
func AesWorkingKey(tk, ksn []byte, purpose, kind string, n int, response bool) []byte {
	alg, bits := aesAlg(n)
	if kind == "HMAC" {
		alg = 5
	}
	var usage uint16
	switch purpose {
	case "pin":
		usage = 0x1000
	case "mac":
		usage = 0x2000
	default:
		usage = 0x3000
	}
	if response && purpose != "pin" {
		usage++
	}
	id := make([]byte, 8)
	copy(id, ksn[4:12])
	return derive(tk, usage, alg, bits, id)
}

// ---- modes of operation

// The output is put together in parts: long outputs are interpreted faster that way.

const part = 4096

func AesCbcEnc(key, iv, data []byte) []byte {
	v := fixed(iv, 16)
	p := padded(data, 16)
	out := make([]byte, 0, len(p))
	for j := 0; j < len(p); j += part {
		o := make([]byte, 0, part)
		for i := j; i < len(p) && i < j+part; i += 16 {
			v = AesE(key, xor(v, p[i:i+16]))
			o = append(o, v...)
		}
		out = append(out, o...)
	}
	return out
}

func AesCbcDec(key, iv, data []byte) []byte {
	v := fixed(iv, 16)
	p := padded(data, 16)
	out := make([]byte, 0, len(p))
	for j := 0; j < len(p); j += part {
		o := make([]byte, 0, part)
		for i := j; i < len(p) && i < j+part; i += 16 {
			o = append(o, xor(v, AesD(key, p[i:i+16]))...)
			v = p[i : i+16]
		}
		out = append(out, o...)
	}
	return out
}

func TdesCbcEnc(key, iv, data []byte) []byte {
	v := fixed(iv, 8)
	p := padded(data, 8)
	out := make([]byte, 0, len(p))
	for j := 0; j < len(p); j += part {
		o := make([]byte, 0, part)
		for i := j; i < len(p) && i < j+part; i += 8 {
			v = TdesE(key, xor(v, p[i:i+8]))
			o = append(o, v...)
		}
		out = append(out, o...)
	}
	return out
}

func TdesCbcDec(key, iv, data []byte) []byte {
	v := fixed(iv, 8)
	p := padded(data, 8)
	out := make([]byte, 0, len(p))
	for j := 0; j < len(p); j += part {
		o := make([]byte, 0, part)
		for i := j; i < len(p) && i < j+part; i += 8 {
			o = append(o, xor(v, TdesD(key, p[i:i+8]))...)
			v = p[i : i+8]
		}
		out = append(out, o...)
	}
	return out
}

// dbl doubles in GF(2^128), the CMAC subkey step.
func dbl(b []byte) []byte {
	o := make([]byte, 16)
	for i := 0; i < 16; i++ {
		o[i] = b[i] << 1
		if i < 15 {
			o[i] |= b[i+1] >> 7
		}
	}
	o[15] ^= 0x87 & -(b[0] >> 7)
	return o
}

func AesCmac(key, msg []byte) []byte {
	k1 := dbl(AesE(key, make([]byte, 16)))
	v := make([]byte, 16)
	n := (len(msg) + 15) / 16
	if n == 0 {
		n = 1
	}
	for i := 0; i < n-1; i++ {
		v = AesE(key, xor(v, msg[16*i:16*i+16]))
	}
	last := msg[16*(n-1):]
	l := make([]byte, 16)
	copy(l, last)
	if len(last) == 16 {
		l = xor(l, k1)
	} else {
		l[len(last)] = 0x80
		l = xor(l, dbl(k1))
	}
	return AesE(key, xor(v, l))
}

func HmacSha256(key, msg []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write(msg)
	return m.Sum(nil)
}

// TdesMac is the retail MAC with the two key halves.
func TdesMac(key, msg []byte) []byte {
	v := make([]byte, 8)
	p := padded(msg, 8)
	for i := 0; i < len(p); i += 8 {
		v = DesE(key[:8], xor(v, p[i:i+8]))
	}
	return DesE(key[:8], DesD(key[8:], v))
}

// ---- TDES key derivation (X9.24-1)

func keyMask(k []byte) []byte {
	o := fixed(k, 16)
	for i := 0; i < 4; i++ {
		o[i] ^= 0xC0
		o[8+i] ^= 0xC0
	}
	return o
}

// Ksn10 left-pads a serial number to ten bytes.
func Ksn10(ksn []byte) []byte {
	o := make([]byte, 10)
	for i := range o {
		o[i] = 0xFF
	}
	copy(o[10-len(ksn):], ksn)
	return o
}

func TdesIK(bdk, ksn []byte) []byte {
	k := Ksn10(ksn)
	r := fixed(k[:8], 8)
	r[7] &= 0xE0
	var out []byte
	out = append(out, TdesE(bdk, r)...)
	return append(out, TdesE(keyMask(bdk), r)...)
}

// half is one half of the non-reversible key generation process.
func half(key, reg []byte) []byte {
	return xor(DesE(key[:8], xor(reg, key[8:])), key[8:])
}

func TdesTK(ik, ksn []byte) []byte {
	s := Ksn10(ksn)
	reg := fixed(s[2:], 8)
	reg[5] &= 0xE0
	reg[6] = 0
	reg[7] = 0
	key := fixed(ik, 16)
	for i := 0; i < 21; i++ {
		pos := i + 3 // bit position from the left of the three last bytes
		m := byte(0x80) >> (uint(pos) % 8)
		if s[7+pos/8]&m != 0 {
			reg[5+pos/8] |= m
			var k []byte
			k = append(k, half(keyMask(key), reg)...)
			k = append(k, half(key, reg)...)
			key = k
		}
	}
	return key
}

// TdesWorkingKey is the purpose variant of a transaction key.
func TdesWorkingKey(tk []byte, purpose string, response bool) []byte {
	k := fixed(tk, 16)
	i := 7
	switch purpose {
	case "mac":
		i = 6
		if response {
			i = 4
		}
	case "data":
		i = 5
		if response {
			i = 3
		}
	}
	k[i] ^= 0xFF
	k[i+8] ^= 0xFF
	if purpose == "data" {
		l := TdesE(k, k[:8])
		r := TdesE(k, k[8:])
		return append(append([]byte{}, l...), r...)
	}
	return k
}

// ---- counters

// OnesAtMost reports whether v has at most n one bits.
func OnesAtMost(v uint32, n int) bool {
	c := 0
	for i := 0; i < 32; i++ {
		if v>>uint(i)&1 != 0 {
			c++
		}
	}
	return c <= n
}

func AesCounter(ksn []byte) uint32 {
	return uint32(ksn[8])<<24 | uint32(ksn[9])<<16 | uint32(ksn[10])<<8 | uint32(ksn[11])
}

func TdesCounter(ksn []byte) uint32 {
	n := len(ksn)
	return uint32(ksn[n-3]&0x1F)<<16 | uint32(ksn[n-2])<<8 | uint32(ksn[n-1])
}

// Next gives the smallest value above c below 1<<width with at most n one bits (ok when there is
// one), bit by bit: it keeps a prefix of c, sets the next bit that is zero in c, and clears the
// rest, choosing the longest prefix for which that has at most n one bits.
func Next(c uint32, width, n int) (uint32, bool) {
	var best uint32
	found := false
	for i := width - 1; i >= 0; i-- {
		bit := uint32(1) << uint(i)
		if c&bit == 0 {
			v := c&^(bit-1) | bit
			if OnesAtMost(v, n) {
				best = v
				found = true
			}
		}
	}
	return best, found
}

func NextAes(ksn []byte) ([]byte, bool) {
	v, ok := Next(AesCounter(ksn), 32, 16)
	o := fixed(ksn, 12)
	o[8], o[9], o[10], o[11] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	return o, ok
}

func NextTdes(ksn []byte) ([]byte, bool) {
	n := len(ksn)
	v, ok := Next(TdesCounter(ksn), 21, 10)
	o := fixed(ksn, n)
	o[n-3] = o[n-3]&0xE0 | byte(v>>16)
	o[n-2] = byte(v >> 8)
	o[n-1] = byte(v)
	return o, ok
}

// ValidAes: the validity of a serial number of 12 bytes.
func ValidAes(ksn []byte) bool {
	c := AesCounter(ksn)
	return c != 0 && OnesAtMost(c, 16)
}

// ---- hexadecimal text

func HexVal(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// HexDec: the bytes a string stands for, ok if it is hexadecimal.
func HexDec(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	o := make([]byte, len(s)/2)
	ok := true
	for i := range o {
		h, a := HexVal(s[2*i])
		l, b := HexVal(s[2*i+1])
		ok = ok && a && b
		o[i] = h<<4 | l
	}
	return o, ok
}

func HexEnc(b []byte) string {
	o := make([]byte, 2*len(b))
	for i := range b {
		o[2*i] = nibble(b[i] >> 4)
		o[2*i+1] = nibble(b[i] & 15)
	}
	return string(o)
}

func nibble(v byte) byte {
	if v < 10 {
		return '0' + v
	}
	return 'a' + v - 10
}

// ---- PIN blocks: the formats themselves are the pinblock module's

type ecb struct{ key []byte }

func (c ecb) Encrypt(b []byte) ([]byte, error) { return AesE(c.key, b), nil }
func (c ecb) Decrypt(b []byte) ([]byte, error) { return AesD(c.key, b), nil }

func AesPinEnc(key []byte, pin, pan string) ([]byte, bool) {
	s, err := formats.NewISO4(ecb{key}).Encode(pin, pan)
	if err != nil {
		return nil, false
	}
	return HexDec(s)
}

func AesPinDec(key, ciphertext []byte, pan string) (string, bool) {
	s, err := formats.NewISO4(ecb{key}).Decode(HexEnc(ciphertext), pan)
	if err != nil {
		return "", false
	}
	return s, true
}

func TdesPinEnc(key []byte, pin, pan, format string) ([]byte, bool) {
	f, err := formats.NewFormatter(strings.ToUpper(format))
	if err != nil {
		return nil, false
	}
	s, err := f.Encode(pin, pan)
	if err != nil {
		return nil, false
	}
	b, ok := HexDec(s)
	if !ok || len(b) != 8 {
		return nil, false
	}
	return TdesE(key, b), true
}

func TdesPinDec(key, ciphertext []byte, pan, format string) (string, bool) {
	f, err := formats.NewFormatter(strings.ToUpper(format))
	if err != nil || len(ciphertext) != 8 {
		return "", false
	}
	s, err := f.Decode(HexEnc(TdesD(key, ciphertext)), pan)
	if err != nil {
		return "", false
	}
	return s, true
}

// Padded is the plaintext as it is encrypted.
func Padded(b []byte, bs int) []byte { return padded(b, bs) }

// TdesVariant is the variant of a transaction key before any further processing.
func TdesVariant(tk []byte, purpose string, response bool) []byte {
	k := fixed(tk, 16)
	i := 7
	switch purpose {
	case "mac":
		i = 6
		if response {
			i = 4
		}
	case "data":
		i = 5
		if response {
			i = 3
		}
	}
	k[i] ^= 0xFF
	k[i+8] ^= 0xFF
	return k
}

// ---- unified operations: the operation of the selected algorithm, hexadecimal at the edges

func hx(s string) []byte { return pkg.HexDecode(s) }

func encoded(b []byte, err error) (string, bool) {
	if err != nil {
		return "", false
	}
	return pkg.HexEncode(b), true
}

func plain(s string, err error) (string, bool) {
	if err != nil {
		return "", false
	}
	return s, true
}

// Malformed reports whether a parameter is non-empty and not hexadecimal.
func Malformed(s string) bool { return s != "" && pkg.HexDecode(s) == nil }

func UInitialKey(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return encoded(daes.DerivationOfInitialKey(hx(p.BKD), hx(p.KSN)))
	}
	return encoded(ddes.DerivationOfInitialKey(hx(p.BKD), hx(p.KSN)))
}

func UTransactionKey(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return encoded(daes.DeriveCurrentTransactionKey(hx(p.IK), hx(p.KSN)))
	}
	return encoded(ddes.DeriveCurrentTransactionKey(hx(p.IK), hx(p.KSN)))
}

func UEncryptPin(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return encoded(daes.EncryptPin(hx(p.TK), hx(p.KSN), p.PIN, p.PAN, p.AlgorithmKey))
	}
	return encoded(ddes.EncryptPin(hx(p.TK), p.PIN, p.PAN, p.Format))
}

func UDecryptPin(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return plain(daes.DecryptPin(hx(p.TK), hx(p.KSN), hx(p.PIN), p.PAN, p.AlgorithmKey))
	}
	return plain(ddes.DecryptPin(hx(p.TK), hx(p.PIN), p.PAN, p.Format))
}

func UGenerateMac(p server.UnifiedParams) (string, bool) {
	if p.Algorithm != "aes" {
		return encoded(ddes.GenerateMac(hx(p.TK), p.Plaintext, p.Action))
	}
	switch p.MacType {
	case "cmac":
		return encoded(daes.GenerateCMAC(hx(p.TK), hx(p.KSN), p.Plaintext, p.AlgorithmKey, p.Action))
	case "hmac":
		t := p.AlgorithmKey
		switch t {
		case "AES128":
			t = "HMAC128"
		case "AES192":
			t = "HMAC192"
		case "AES256":
			t = "HMAC256"
		}
		return encoded(daes.GenerateHMAC(hx(p.TK), hx(p.KSN), p.Plaintext, t, p.Action))
	}
	return "", false
}

func UEncryptData(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return encoded(daes.EncryptData(hx(p.TK), hx(p.KSN), hx(p.IV), p.Plaintext, p.AlgorithmKey, p.Action))
	}
	return encoded(ddes.EncryptData(hx(p.TK), hx(p.IV), p.Plaintext, p.Action))
}

func UDecryptData(p server.UnifiedParams) (string, bool) {
	if p.Algorithm == "aes" {
		return plain(daes.DecryptData(hx(p.TK), hx(p.KSN), hx(p.Ciphertext), hx(p.IV), p.AlgorithmKey, p.Action))
	}
	return plain(ddes.DecryptData(hx(p.TK), hx(p.Ciphertext), hx(p.IV), p.Action))
}

// ---- the service

func SvcCreate(m server.Machine) (server.Machine, bool) {
	if m.Algorithm != "aes" && m.Algorithm != "des" {
		return server.Machine{}, false
	}
	ik, err := server.InitialKey(server.UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, BKD: m.BaseDerivativeKey, KSN: m.KeySerialNumber})
	if err != nil {
		return server.Machine{}, false
	}
	tk, err := server.TransactionKey(server.UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, IK: ik, KSN: m.KeySerialNumber})
	if err != nil {
		return server.Machine{}, false
	}
	m.InitialKey, m.CurrentKSN, m.TransactionKey = ik, m.KeySerialNumber, tk
	return m, true
}

func SvcAdvance(m server.Machine) (server.Machine, bool) {
	var next []byte
	var err error
	if m.Algorithm == "aes" {
		next, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))
	} else {
		next, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))
	}
	if err != nil {
		return server.Machine{}, false
	}
	ksn := pkg.HexEncode(next)
	tk, err := server.TransactionKey(server.UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, IK: m.InitialKey, KSN: ksn})
	if err != nil {
		return server.Machine{}, false
	}
	m.CurrentKSN, m.TransactionKey = ksn, tk
	return m, true
}

func params(m server.Machine) server.UnifiedParams {
	return server.UnifiedParams{Algorithm: m.Algorithm, AlgorithmKey: m.AlgorithmKey, KSN: m.CurrentKSN, TK: m.TransactionKey}
}

func outcome(s string, err error) (string, bool) {
	if err != nil {
		return "", false
	}
	return s, true
}

func SvcEncryptPin(m server.Machine, pin, pan, format string) (string, bool) {
	p := params(m)
	p.PIN, p.PAN, p.Format = pin, pan, format
	if format == "" {
		p.Format = "ISO-0"
	}
	return outcome(server.EncryptPin(p))
}

func SvcDecryptPin(m server.Machine, ciphertext, pan, format string) (string, bool) {
	p := params(m)
	p.PIN, p.PAN, p.Format = ciphertext, pan, format
	if format == "" {
		p.Format = "ISO-0"
	}
	return outcome(server.DecryptPin(p))
}

func SvcGenerateMac(m server.Machine, data, action, macType string) (string, bool) {
	p := params(m)
	p.Plaintext, p.Action, p.MacType = data, action, macType
	return outcome(server.GenerateMac(p))
}

func SvcEncryptData(m server.Machine, data, action, iv string) (string, bool) {
	p := params(m)
	p.Plaintext, p.Action, p.IV = data, action, iv
	return outcome(server.EncryptData(p))
}

func SvcDecryptData(m server.Machine, ciphertext, action, iv string) (string, bool) {
	p := params(m)
	p.Ciphertext, p.Action, p.IV = ciphertext, action, iv
	return outcome(server.DecryptData(p))
}

func IsNotFound(err error) bool { return errors.Is(err, server.ErrNotFound) }
func IsExists(err error) bool   { return errors.Is(err, server.ErrAlreadyExists) }
