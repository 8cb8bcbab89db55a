# Planted changes for state shared by all users of a package (C36).
SM = "dsx/mapx/sklmapx/splitmix64.go"; CBC = "cryptox/aesx/cbcx.go"; CV = "typex/convx/convx.go"; SL = "dsx/slicex/slicex.go"
PAR = '''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				%s
			}
		}(g)
	}
	wg.Wait()
'''
seed("C36-seed-read", "C36", [(SM, "	s := atomic.AddUint64(&root_seed, incrementConstant)\n	return next(s)\n", "	atomic.AddUint64(&root_seed, incrementConstant)\n	return next(root_seed)\n")],
 "dsx/mapx/sklmapx", '''
package sklmapx

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
''' + PAR % "New[int, int]().Set(i, g)" + '''}
''', "two goroutines that each create a map of their own at the same time: the seed is advanced by one between the other's advancing and reading it", "the read of the shared seed is not atomic and races with other maps being made; two maps can also get the same seed", race=True)
seed("C36-cbc-last-key", "C36", [(CBC, '	"crypto/sha256"\n)\n', '	"crypto/sha256"\n)\n\n// the cipher of the key used last: most callers have a single key\nvar last struct {\n	key   [sha256.Size]byte\n	block cipher.Block\n}\n\nfunc cipherOf(k [sha256.Size]byte) (cipher.Block, error) {\n	if last.block != nil && last.key == k {\n		return last.block, nil\n	}\n	block, err := aes.NewCipher(k[:])\n	if err == nil {\n		last.key, last.block = k, block\n	}\n	return block, err\n}\n'),
  (CBC, "	block, err := aes.NewCipher(k[:])\n	if err != nil {\n		return nil, err\n	}\n	iv := make", "	block, err := cipherOf(k)\n	if err != nil {\n		return nil, err\n	}\n	iv := make"),
  (CBC, "	block, err := aes.NewCipher(k[:])\n	if err != nil {\n		return nil, err\n	}\n	ivSize", "	block, err := cipherOf(k)\n	if err != nil {\n		return nil, err\n	}\n	ivSize")],
 "cryptox/aesx", '''
package aesx

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	data := []byte("0123456789abcdef")
''' + PAR % '''key := []byte{byte(g), byte(i % 3)}
				enc, err := EncryptCBC(data, key)
				if err != nil {
					t.Error(err)
					return
				}
				dec, err := DecryptCBC(enc, key)
				if err != nil || !bytes.Equal(dec, data) {
					t.Errorf("key %v: %q %v", key, dec, err)
					return
				}''' + '''}
''', "two goroutines that use different keys at the same time, one of them between the other's storing of the key and of the cipher", "the cipher remembered last is kept without a lock: goroutines race for it, and data may be encrypted with another caller's key", race=True)
seed("C36-unregister-rlock", "C36", [(CV, "func Unregister[T, R any]() {\n	convertersLock.Lock()\n	defer convertersLock.Unlock()\n", "func Unregister[T, R any]() {\n	convertersLock.RLock()\n	defer convertersLock.RUnlock()\n")],
 "typex/convx", '''
package convx

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	Register(func(i int) string { return "x" })
''' + PAR % '''if g%2 == 0 {
					Unregister[int, string]()
				} else {
					Exists[int, int64]()
					Into[int, string](i)
				}''' + '''}
''', "one goroutine removes a converter while another looks one up", "the table is changed under the read lock, at the same time as others read it", race=True)
seed("C36-shuffle-source", "C36", [(SL, '	rand.Shuffle(len(*s), func(i, j int) {', '	shuffler.Shuffle(len(*s), func(i, j int) {'),
  (SL, "func (s *Slice[T]) Shuffle()", "// a source of its own keeps shuffling apart from other users of math/rand\nvar shuffler = rand.New(rand.NewSource(rand.Int63()))\n\nfunc (s *Slice[T]) Shuffle()")],
 "dsx/slicex", '''
package slicex

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
''' + PAR % '''s := Slice[int]{1, 2, 3, 4, 5, 6, 7, 8, 9}
				s.Shuffle()''' + '''}
''', "two goroutines that shuffle slices of their own at the same time", "a source made by rand.New is not safe for concurrent use: its state is corrupted and can make it panic", race=True)
