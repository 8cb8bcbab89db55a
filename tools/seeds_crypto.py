# Planted changes for encryption and password hashing (C18-C22).
CBC = "cryptox/aesx/cbcx.go"; CTR = "cryptox/aesx/ctrx.go"; GCM = "cryptox/aesx/gcmx.go"
PH = "cryptox/passhashx/passhash.go"; ALG = "cryptox/passhashx/alg.go"; VS = "cryptox/passhashx/internal/passhash.vstruct.go"
BC = "cryptox/bcryptx/bcryptx.go"
seed("C18-ctr-in-place", "C18", [(CTR, "	mode := cipher.NewCTR(block, iv)\n	result := make([]byte, len(data))\n	mode.XORKeyStream(result, data)\n	return append(iv, result...), nil", "	mode := cipher.NewCTR(block, iv)\n	if spare := cap(data) - len(data); spare >= len(iv) {\n		// room for the vector in the caller's buffer: no copy needed\n		out := data[:len(data)+len(iv)]\n		copy(out[len(iv):], data)\n		mode.XORKeyStream(out[len(iv):], out[len(iv):])\n		copy(out, iv)\n		return out, nil\n	}\n	result := make([]byte, len(data))\n	mode.XORKeyStream(result, data)\n	return append(iv, result...), nil")],
 "cryptox/aesx", '''
package aesx

import "testing"

func TestDemo(t *testing.T) {
	buf := append(make([]byte, 0, 64), "the plain text"...)
	enc, err := EncryptCTR(buf, []byte("key"))
	if err != nil {
		t.Fatal(err)
	}
	if string(buf) != "the plain text" {
		t.Fatalf("the caller's data was changed to %q", buf)
	}
	dec, err := DecryptCTR(enc, []byte("key"))
	if err != nil || string(dec) != "the plain text" {
		t.Fatalf("%q %v", dec, err)
	}
}
''', "data in a buffer with at least 16 bytes of spare capacity", "the ciphertext is written into the caller's buffer when that has room for the vector")
seed("C18-gcm-short-nonce", "C18", [(GCM, "	if _, err := rand.Read(nonce); err != nil {\n		return nil, err\n	}\n	result", "	if _, err := rand.Read(nonce[:8]); err != nil {\n		return nil, err\n	}\n	for i := range nonce[8:] {\n		nonce[8+i] = nonce[i] ^ k[i]\n	}\n	result")],
 "cryptox/aesx", '''
package aesx

import (
	"crypto/rand"
	"crypto/sha256"
	"io"
	"testing"
)

type counting struct {
	r io.Reader
	n int
}

func (c *counting) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func TestDemo(t *testing.T) {
	c := &counting{r: rand.Reader}
	old := rand.Reader
	rand.Reader = c
	defer func() { rand.Reader = old }()
	key := []byte("key")
	k := sha256.Sum256(key)
	related := 0
	for i := 0; i < 4; i++ {
		enc, err := EncryptGCM([]byte("text"), key)
		if err != nil {
			t.Fatal(err)
		}
		same := true
		for j := 0; j < 4; j++ {
			same = same && enc[8+j] == enc[j]^k[j]
		}
		if same {
			related++
		}
	}
	if related > 1 || (c.n > 0 && c.n < 4*12) {
		t.Fatalf("nonces are not fully random: %d bytes read for 4 nonces", c.n)
	}
}
''', "enough messages under one key for 64 random bits to collide", "only 8 of the nonce's 12 bytes come from the random source, the rest is derived from them")
seed("C19-gcm-in-place", "C19", [(GCM, "	result, err := aead.Open(nil, nonce, ciphertext, nil)", "	var dst []byte\n	if len(ciphertext) > 32*1024 {\n		dst = ciphertext[:0]\n	}\n	result, err := aead.Open(dst, nonce, ciphertext, nil)")],
 "cryptox/aesx", '''
package aesx

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{10, 100000} {
		data := bytes.Repeat([]byte("a"), n)
		enc, err := EncryptGCM(data, []byte("key"))
		if err != nil {
			t.Fatal(err)
		}
		keep := append([]byte(nil), enc...)
		for i := 0; i < 2; i++ {
			dec, err := DecryptGCM(enc, []byte("key"))
			if err != nil || !bytes.Equal(dec, data) {
				t.Fatalf("round %d: %v", i, err)
			}
		}
		if !bytes.Equal(enc, keep) {
			t.Fatal("the input was changed")
		}
	}
}
''', "a ciphertext over 32 KiB that is used again after decryption", "large messages are decrypted over the caller's ciphertext")
seed("C19-cbc-strip", "C19", [(CBC, "	mode.CryptBlocks(result, ciphertext)\n	return result, nil", "	mode.CryptBlocks(result, ciphertext)\n	if n := len(result); n > 0 && result[n-1] == ivSize16 {\n		pad := true\n		for _, b := range result[n-ivSize16:] {\n			pad = pad && b == ivSize16\n		}\n		if pad {\n			result = result[:n-ivSize16]\n		}\n	}\n	return result, nil"), (CBC, "func DecryptCBC(", "const ivSize16 = 16\n\nfunc DecryptCBC(")],
 "cryptox/aesx", '''
package aesx

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	data := append(bytes.Repeat([]byte("a"), 16), bytes.Repeat([]byte{16}, 16)...)
	enc, err := EncryptCBC(data, []byte("key"))
	if err != nil {
		t.Fatal(err)
	}
	dec, err := DecryptCBC(enc, []byte("key"))
	if err != nil || !bytes.Equal(dec, data) {
		t.Fatalf("got %d bytes of %d, %v", len(dec), len(data), err)
	}
}
''', "data whose last block consists of sixteen bytes of value 16", "decryption strips a final block that looks like padding although encryption adds none")
seed("C20-prefix-match", "C20", [(PH, "	if subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n		return ErrHashMismatch\n	}", "	stored := data.Hash()\n	if len(stored) < len(hash) && len(stored) > 0 {\n		// a record made with a shorter digest\n		hash = hash[:len(stored)]\n	}\n	if subtle.ConstantTimeCompare(hash, stored) != 1 {\n		return ErrHashMismatch\n	}")],
 "cryptox/passhashx", '''
package passhashx

import "testing"

func TestDemo(t *testing.T) {
	h, err := Hash([]byte("secret"), SecurityLevelMobileLow)
	if err != nil {
		t.Fatal(err)
	}
	if err := Verify([]byte("secret"), h); err != nil {
		t.Fatal(err)
	}
	cut := append([]byte(nil), h[:len(h)-31]...)
	n := uint64(len(cut))
	for i := 0; i < 8; i++ {
		cut[9+i] = byte(n >> (8 * i))
	}
	if Verify([]byte("secret"), cut) == nil {
		t.Fatal("a digest of one byte is accepted")
	}
}
''', "a stored record with a truncated digest", "a stored digest shorter than the algorithm's is compared over its own length only, so one byte is enough")
seed("C20-offset-truncated", "C20", [(VS, '''	var __off3 uint64 = uint64(len(s))
	return __off0 <= __off1 && __off1 <= __off2 && __off2 <= __off3''', '''	var __off3 uint64 = uint64(len(s))
	var __len1, __len2 = int64(__off1 - __off0), int64(__off2 - __off1)
	return __len1 >= 0 && __len2 >= 0 && uint32(__off2) == uint32(__off0)+uint32(__len1)+uint32(__len2) && int64(__off2) <= int64(__off3)''')],
 "cryptox/passhashx", '''
package passhashx

import "testing"

func TestDemo(t *testing.T) {
	put := func(b []byte, v uint64) {
		for i := 0; i < 8; i++ {
			b[i] = byte(v >> (8 * i))
		}
	}
	b := make([]byte, 40)
	put(b[1:], 1<<63-1)
	put(b[9:], 1<<63+40)
	if Verify([]byte("x"), b) == nil {
		t.Fatal("accepted")
	}
	put(b[1:], 17)
	put(b[9:], 1<<63+15)
	if Verify([]byte("x"), b) == nil {
		t.Fatal("accepted")
	}
}
''', "a stored record whose offsets are 64-bit numbers with the top bit set", "the offsets are compared as signed numbers, so an offset of 2^63 or more passes validation and slicing by it panics")
seed("C21-parallelism", "C21", [(ALG, "	const Argon2ID_Time = 20\n	const Argon2ID_Memory = 64 * 1024\n	const Argon2ID_Parallelism = 4\n", "	const Argon2ID_Time = 20\n	const Argon2ID_Memory = 64 * 1024\n	Argon2ID_Parallelism := uint8(4)\n	if n := runtime.GOMAXPROCS(0); n < 4 {\n		Argon2ID_Parallelism = uint8(n)\n	}\n"), (ALG, "import (\n", "import (\n	\"runtime\"\n\n")],
 "cryptox/passhashx", '''
package passhashx

import (
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	old := runtime.GOMAXPROCS(1)
	h, err := Hash([]byte("secret"), SecurityLevelHigh)
	runtime.GOMAXPROCS(old)
	if old < 4 {
		runtime.GOMAXPROCS(4)
		defer runtime.GOMAXPROCS(old)
	}
	if err != nil {
		t.Fatal(err)
	}
	if err := Verify([]byte("secret"), h); err != nil {
		t.Fatalf("a hash made with one processor: %v", err)
	}
}
''', "a hash made on a machine with fewer than four processors, verified on another", "the degree of parallelism, which enters the digest, follows the number of processors")
seed("C21-salt-reuse", "C21", [(PH, "	salt = make([]byte, salt_len(param))\n	n, err := rand.Read(salt)\n	if err != nil || n != len(salt) {\n		return nil, ErrReadSaltFailed\n	}\n", "	saltMtx.Lock()\n	defer saltMtx.Unlock()\n	want := int(salt_len(param))\n	if len(saltBuf) < want {\n		saltBuf = make([]byte, 4*want)\n		n, err := rand.Read(saltBuf)\n		if err != nil || n != len(saltBuf) {\n			return nil, ErrReadSaltFailed\n		}\n	}\n	salt = saltBuf[:want]\n	if sl == SecurityLevelHigh || sl == SecurityLevelLow {\n		saltBuf = saltBuf[want:]\n	} else {\n		saltBuf = saltBuf[want/2:]\n	}\n"), (PH, "func Hash(", "var saltMtx sync.Mutex\nvar saltBuf []byte\n\nfunc Hash("), (PH, "	\"errors\"\n", "	\"errors\"\n	\"sync\"\n")],
 "cryptox/passhashx", '''
package passhashx

import (
	"bytes"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx/internal"
)

func TestDemo(t *testing.T) {
	a, err := Hash([]byte("one"), SecurityLevelMobileLow)
	if err != nil {
		t.Fatal(err)
	}
	b, err := Hash([]byte("two"), SecurityLevelMobileLow)
	if err != nil {
		t.Fatal(err)
	}
	x, y := internal.PasswordHash(a).Salt(), internal.PasswordHash(b).Salt()
	if bytes.Equal(x, y) || bytes.Equal(x[8:], y[:8]) {
		t.Fatal("two hashes share salt bytes")
	}
}
''', "two hashes in a row at a mobile level", "salts are cut from a buffered block of random bytes, and at the mobile levels consecutive salts overlap by half")
seed("C22-rune-count", "C22", [(BC, "	if len(pw) > DefMaxLen {\n		return nil, ErrPasswordTooLong\n	}", "	if utf8.RuneCount(pw) > DefMaxLen {\n		return nil, ErrPasswordTooLong\n	}"), (BC, "	\"fmt\"\n", "	\"fmt\"\n	\"unicode/utf8\"\n")],
 "cryptox/bcryptx", '''
package bcryptx

import (
	"errors"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	_, err := Encrypt([]byte(strings.Repeat("\\uac00", 40)))
	if !errors.Is(err, ErrPasswordTooLong) {
		t.Fatalf("120 bytes in 40 letters: %v", err)
	}
}
''', "a password of at most 72 letters that take more than 72 bytes", "the length limit counts letters instead of bytes")
seed("C22-short-hash", "C22", [(BC, "		if err == bcrypt.ErrMismatchedHashAndPassword {\n			return false, err\n		}\n		return false, err", "		if err == bcrypt.ErrMismatchedHashAndPassword {\n			return false, err\n		}\n		if len(enc) == 0 && len(pw) == 0 {\n			return true, nil\n		}\n		return false, err")],
 "cryptox/bcryptx", '''
package bcryptx

import "testing"

func TestDemo(t *testing.T) {
	if ok, err := Decrypt(nil, nil); ok || err == nil {
		t.Fatalf("an empty hash: %v %v", ok, err)
	}
}
''', "an empty stored hash compared with an empty password", "an account without a stored hash is accepted with an empty password")
