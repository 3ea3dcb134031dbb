package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"errors"
	"fmt"

	"github.com/sisu-network/dheart/store"
	"github.com/sisu-network/dheart/utils"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/leveldb"
)

// ------------------------------------------------------------ C25 secrets

func secretKey(size, tag int) []byte {
	k := make([]byte, size)
	for i := range k {
		k[i] = byte(i*7 + tag + 1)
	}
	return k
}

// plain texts of a length: counting bytes, zeros, ones
func plain(n, kind int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*5 + 33)
		case 2:
			b[i] = 255
		}
	}
	return b
}

// seal encrypts as the caller of the transported secrets does.
func seal(text, key []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(c)
	if err != nil {
		panic(err)
	}
	nonce := make([]byte, g.NonceSize())
	if _, err := rand.Read(nonce); err != nil {
		panic(err)
	}
	return g.Seal(nonce, nonce, text, nil)
}

var keySizes = []int{16, 24, 32}

// decrypt is a way to decrypt a ciphertext and the key it uses.
type opener func(ciphertext, key []byte) ([]byte, error)

// damaged calls f with every damaged form of a ciphertext within the bounds.
func damaged(ct []byte, values int, f func(what string, bz []byte)) {
	for n := 0; n < len(ct); n++ {
		f(fmt.Sprintf("the first %d of %d bytes", n, len(ct)), append([]byte{}, ct[:n]...))
		f(fmt.Sprintf("the last %d of %d bytes", n, len(ct)), append([]byte{}, ct[len(ct)-n:]...))
	}
	for _, b := range []byte{0, 1, 255} {
		f("one byte more", append(append([]byte{}, ct...), b))
		f("one byte before", append([]byte{b}, ct...))
	}
	f("itself twice", append(append([]byte{}, ct...), ct...))
	for i := range ct {
		for v := 1; v < 256; v++ {
			if values < 255 && v != 1 && v != 128 && v != 255 {
				continue
			}
			bz := append([]byte{}, ct...)
			bz[i] ^= byte(v)
			f(fmt.Sprintf("byte %d of %d changed by %d", i, len(ct), v), bz)
		}
	}
	for i := 0; i+1 < len(ct); i++ {
		if ct[i] != ct[i+1] {
			bz := append([]byte{}, ct...)
			bz[i], bz[i+1] = bz[i+1], bz[i]
			f(fmt.Sprintf("bytes %d and %d exchanged", i, i+1), bz)
		}
	}
	f("no bytes (nil)", nil)
	f("only zeros", make([]byte, len(ct)))
}

func checkDamaged(text, key []byte, ct []byte, values int, keys int, open opener) {
	damaged(ct, values, func(what string, bz []byte) {
		got, err := open(bz, key)
		mc.Check(err != nil, "damage-accepted", "%s of the ciphertext of a text of length %d is decrypted without an error to %d bytes", what, len(text), len(got))
	})
	for i, size := range []int{0, 1, 15, 16, 17, 24, 31, 32, 33, 64} {
		for _, wrong := range [][]byte{secretKey(size, 77), make([]byte, size)} {
			if bytes.Equal(wrong, key) || keys == 0 && (size != len(key) && size != 16 && size != 33) {
				continue
			}
			_, err := open(append([]byte{}, ct...), wrong)
			mc.Check(err != nil, "wrong-key-accepted", "a wrong key of %d bytes (%d) decrypts", size, i)
		}
	}
	for i := 0; i < len(key) && i < keys; i++ {
		wrong := append([]byte{}, key...)
		wrong[i] ^= 1 << uint(i%8)
		_, err := open(append([]byte{}, ct...), wrong)
		mc.Check(err != nil, "wrong-key-accepted", "a key with another byte %d decrypts", i)
	}
	for n := 0; n < len(key) && n < keys; n++ {
		_, err := open(append([]byte{}, ct...), key[:n])
		mc.Check(err != nil, "wrong-key-accepted", "the first %d bytes of the key decrypt", n)
	}
}

func transported(lengths int, values int) func() {
	return func() {
		key := secretKey(keySizes[mc.Choose(3, 0)], 0)
		text := plain(mc.Choose(lengths, 0), mc.Choose(3, 0))
		own := append([]byte{}, text...)
		ownKey := append([]byte{}, key...)
		ct, err := utils.AESDEncrypt(own, ownKey)
		mc.Check(err == nil, "encrypt-fails", "encrypting %d bytes fails: %v", len(text), err)
		mc.Check(bytes.Equal(own, text) && bytes.Equal(ownKey, key), "argument-changed", "encrypting changes its arguments")
		ct2, err := utils.AESDEncrypt(text, key)
		mc.Check(err == nil && !bytes.Equal(ct, ct2), "same-ciphertext", "encrypting %d bytes twice gives the same ciphertext", len(text))
		mc.Check(len(text) < 4 || !bytes.Contains(ct, text), "readable", "the ciphertext contains the text")
		foreign := seal(text, key)
		for _, c := range [][]byte{ct, ct2, foreign} {
			in := append([]byte{}, c...)
			got, err := utils.AESDecrypt(in, key)
			mc.Check(err == nil && bytes.Equal(got, text), "not-the-text", "a text of %d bytes is decrypted to %x, %v", len(text), got, err)
			mc.Check(bytes.Equal(in, c), "argument-changed", "decrypting changes the ciphertext")
			got, err = utils.AESDecrypt(in, key)
			mc.Check(err == nil && bytes.Equal(got, text), "not-the-text", "a text of %d bytes is decrypted to %x, %v the second time", len(text), got, err)
		}
		checkDamaged(text, key, ct, values, 99, utils.AESDecrypt)
		for _, size := range []int{0, 1, 15, 17, 31, 33, 64} {
			_, err := utils.AESDEncrypt(text, secretKey(size, 0))
			mc.Check(err != nil, "bad-key-size", "a key of %d bytes encrypts", size)
		}
	}
}

func openStore(path string, key []byte) *store.DefaultStore {
	s, err := store.NewStore(path, key)
	mc.Check(err == nil, "open-fails", "the store cannot be opened: %v", err)
	return s.(*store.DefaultStore)
}

// storeDamage: values in the store damaged, or read with another key
func storeDamage(lengths int, values int) func() {
	return func() {
		w := leveldb.W()
		defer w.Stop()
		key := secretKey(keySizes[mc.Choose(3, 0)], 0)
		text := plain(mc.Choose(lengths, 0), 0)
		k := []byte("k")
		s := openStore("s", key)
		mc.Check(s.PutEncrypted(k, append([]byte{}, text...)) == nil, "put-fails", "a value of %d bytes cannot be put", len(text))
		got, err := s.GetEncrypted(k)
		mc.Check(err == nil && bytes.Equal(got, text), "not-the-value", "a value of %d bytes is read as %x, %v", len(text), got, err)
		ct, err := s.Get(k)
		mc.Check(err == nil, "get-fails", "the raw value cannot be read: %v", err)
		checkDamaged(text, key, ct, values, 0, func(bz, with []byte) ([]byte, error) {
			if bytes.Equal(with, key) {
				if err := s.Put(k, bz); err != nil {
					return nil, err
				}
				return s.GetEncrypted(k)
			}
			s.Put(k, bz)
			w.Stop()
			o, err := store.NewStore("s", with)
			if err != nil {
				s = openStore("s", key)
				return nil, err
			}
			got, err := o.GetEncrypted(k)
			w.Stop()
			s = openStore("s", key)
			return got, err
		})
		s.Put(k, ct)
		got, err = s.GetEncrypted(k)
		mc.Check(err == nil && bytes.Equal(got, text), "not-the-value", "a value of %d bytes is read as %x, %v at the end", len(text), got, err)
	}
}

// storeHistory: every history of puts, gets, restarts and restarts with another key
func storeHistory(depth int) func() {
	return func() {
		w := leveldb.W()
		defer w.Stop()
		keys := [][]byte{[]byte("a"), []byte("a name of some length"), {}}
		vals := [][]byte{{}, []byte("secret-value-one"), []byte("secret-value-two-longer")}
		aes := secretKey(32, 0)
		model := map[string][]byte{}
		nonces := map[string]bool{}
		s := openStore("s", aes)
		look := func() {
			for _, k := range keys {
				got, err := s.GetEncrypted(k)
				want, ok := model[string(k)]
				mc.Check(ok || err != nil, "made-up", "key %q was never put, and %x is read", k, got)
				mc.Check(!ok || err == nil && bytes.Equal(got, want), "not-the-latest", "key %q was put with %q last and is read as %q, %v", k, want, got, err)
			}
		}
		for i := 0; i < depth; i++ {
			switch op := mc.Choose(11, 0); {
			case op < 9:
				k, v := keys[op%3], vals[op/3]
				bz := append([]byte{}, v...)
				kk := append([]byte{}, k...)
				err := s.PutEncrypted(kk, bz)
				mc.Check(err == nil, "put-fails", "put fails: %v", err)
				mc.Check(bytes.Equal(bz, v) && bytes.Equal(kk, k), "argument-changed", "put changes its arguments")
				for j := range bz { // the caller may use its memory for something else now
					bz[j] = 'x'
				}
				model[string(k)] = v
				raw, err := s.Get(k)
				mc.Check(err == nil && len(raw) == 12+len(v)+16, "format", "a value of %d bytes is stored as %x, %v", len(v), raw, err)
				mc.Check(!nonces[string(raw[:12])], "same-nonce", "two values are encrypted with one nonce")
				nonces[string(raw[:12])] = true
			case op == 9:
				w.Stop()
				s = openStore("s", aes)
			case op == 10: // a process with another key reads, and writes elsewhere
				w.Stop()
				o := openStore("s", secretKey(32, 9))
				for _, k := range keys {
					got, err := o.GetEncrypted(k)
					mc.Check(err != nil, "wrong-key-accepted", "another key reads %q as %q", k, got)
				}
				mc.Check(o.PutEncrypted([]byte("other"), []byte("v")) == nil, "put-fails", "put fails")
				w.Stop()
				s = openStore("s", aes)
				_, err := s.GetEncrypted([]byte("other"))
				mc.Check(err != nil, "wrong-key-accepted", "a value put with another key is read")
			}
			look()
		}
		if _, err := s.GetEncrypted([]byte("never")); err == nil {
			mc.Fail("made-up", "a key never put is read")
		}
		w.Stop()
		for _, f := range w.Files() {
			for _, v := range vals {
				mc.Check(len(v) == 0 || !bytes.Contains(f, v), "readable", "%q is readable in a file of the store", v)
			}
		}
	}
}

// storeTwo: two goroutines put and get
func storeTwo() {
	w := leveldb.W()
	defer w.Stop()
	s := openStore("s", secretKey(16, 0))
	var gs []*mc.G
	for i := 0; i < 2; i++ {
		i := i
		gs = append(gs, mc.GoNamed(fmt.Sprint("user", i), func() {
			own := []byte{byte(i)}
			for j := 0; j < 2; j++ {
				v := plain(10+i*5+j, 0)
				mc.Check(s.PutEncrypted(own, v) == nil, "put-fails", "put fails")
				mc.Point("between")
				got, err := s.GetEncrypted(own)
				mc.Check(err == nil && bytes.Equal(got, v), "not-the-latest", "own value is read as %x, %v", got, err)
				mc.Check(s.PutEncrypted([]byte("shared"), plain(20+i, 0)) == nil, "put-fails", "put fails")
				mc.Point("between")
				got, err = s.GetEncrypted([]byte("shared"))
				mc.Check(err == nil && (bytes.Equal(got, plain(20, 0)) || bytes.Equal(got, plain(21, 0))), "not-the-latest", "shared value is read as %x, %v", got, err)
			}
		}))
	}
	for _, g := range gs {
		g.Join()
	}
}

// storeBad: keys of no valid size, and a disk that cannot be opened
func storeBad() {
	w := leveldb.W()
	defer w.Stop()
	size := mc.Choose(40, 0)
	s, err := store.NewStore("s", secretKey(size, 0))
	if err != nil {
		mc.Check(size != 16 && size != 24 && size != 32, "open-fails", "the store cannot be opened with a key of %d bytes: %v", size, err)
	} else {
		err := s.PutEncrypted([]byte("k"), []byte("secret-value"))
		mc.Check((err == nil) == (size == 16 || size == 24 || size == 32), "bad-key-size", "put with a key of %d bytes: %v", size, err)
		got, err2 := s.GetEncrypted([]byte("k"))
		mc.Check((err2 == nil) == (err == nil), "bad-key-size", "get with a key of %d bytes: %q, %v", size, got, err2)
	}
	w.Stop()
	for _, f := range w.Files() {
		mc.Check(!bytes.Contains(f, []byte("secret-value")), "readable", "the value is readable in a file of the store")
	}
	w.Fault = func(string) error { return errors.New("disk broken") }
	_, err = store.NewStore("s2", secretKey(16, 0))
	mc.Check(err != nil, "open-error-lost", "a store that cannot be opened is returned without an error")
}

func init() {
	register("C25",
		&mc.Scenario{Name: "transported", Sched: mc.Fixed, Bounds: []int{0}, Body: transported(41, 3)},
		&mc.Scenario{Name: "transported-all-values", Sched: mc.Fixed, Bounds: []int{0}, Body: transported(10, 255)},
		&mc.Scenario{Name: "transported-deep", Deep: true, Sched: mc.Fixed, Bounds: []int{0}, Body: transported(80, 255)},
		&mc.Scenario{Name: "store-damage", Sched: mc.Fixed, Bounds: []int{0}, Body: storeDamage(18, 3)},
		&mc.Scenario{Name: "store-damage-deep", Deep: true, Sched: mc.Fixed, Bounds: []int{0}, Body: storeDamage(41, 255)},
		&mc.Scenario{Name: "store-history", Sched: mc.Fixed, Bounds: []int{0}, Body: storeHistory(3)},
		&mc.Scenario{Name: "store-history-deep", Deep: true, Sched: mc.Fixed, Bounds: []int{0}, Body: storeHistory(4)},
		&mc.Scenario{Name: "store-two", Sched: mc.Preempt, Bounds: []int{2}, BoundsDeep: []int{4}, Body: storeTwo},
		&mc.Scenario{Name: "store-bad", Sched: mc.Fixed, Bounds: []int{0}, Body: storeBad},
	)
	assume("C25", "goleveldb itself is the real library on in-memory files; its own crash safety is not examined",
		"nonces come from the real random source, so that two encryptions coincide with probability 2^-96")
}
