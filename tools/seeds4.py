SEEDS = [
dict(id='p01-shared-scratch', property='P01', pkg='util',
 needs='two texts decoded at the same time',
 breaks='the number a digit stands for is built in one package-level variable, which concurrent decodings overwrite',
 edits=[('util/base58_util.go', '''	scratch := new(big.Int)
''', '''	scratch := digit
'''), ('util/base58_util.go', '''var bigZero = big.NewInt(0)
''', '''var bigZero = big.NewInt(0)
var digit = new(big.Int)
''')],
 test='''
package util

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- "crash"
				}
			}()
			b := bytes.Repeat([]byte{byte(16*g + 1)}, 60)
			s := Base58Encode(b)
			for i := 0; i < 4000; i++ {
				if !bytes.Equal(Base58Decode(s), b) {
					bad <- "wrong"
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
}
'''),
dict(id='p01-curve-constant', property='P01', pkg='util',
 needs='an X of 1, and then any other public key',
 breaks='to keep the difference positive for the smallest X, the prime of the curve that everything in the process shares is changed in place',
 edits=[('util/ecdsa_util.go', '''	x3.Sub(x3, threeX)
	x3.Add(x3, curve.Params().B)
''', '''	if x3.Cmp(threeX) < 0 {
		// keep it positive
		x3 = curve.Params().P.Add(curve.Params().P, x3)
	}
	x3 = new(big.Int).Sub(x3, threeX)
	x3.Add(x3, curve.Params().B)
''')],
 test='''
package util

import (
	"crypto/elliptic"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	want := new(big.Int).Set(elliptic.P256().Params().P)
	ECDSACalculateY(elliptic.P256(), big.NewInt(1))
	if elliptic.P256().Params().P.Cmp(want) != 0 {
		t.Fatal("the curve is another one")
	}
}
'''),
dict(id='p01-empty-key-appended', property='P01', pkg='util',
 needs='two empty keys, to whose encodings something is appended, the second time before the first result is used',
 breaks='all empty keys share one buffer with room behind it',
 edits=[('util/key_util.go', '''func (k *MappedKey) Buf() []byte {
	if k.IsEmpty() {
		return []byte{0x00}
	}
''', '''var emptyKeyBuf = make([]byte, 1, 16)

func (k *MappedKey) Buf() []byte {
	if k.IsEmpty() {
		return emptyKeyBuf
	}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	a, _, err := NewMappedKey([]byte{0})
	if err != nil {
		t.Fatal(err)
	}
	b, _, _ := NewMappedKey([]byte{0})
	x := append(a.Buf(), 'x')
	y := append(b.Buf(), 'y')
	if x[1] != 'x' || y[1] != 'y' {
		t.Fatal(x, y)
	}
}
'''),
dict(id='p02-debug-left', property='P02', pkg='util',
 needs='a scheme with buckets and something behind it',
 breaks='decoding a scheme prints what it has not consumed to the standard output',
 edits=[('util/scheme_util.go', '''	s.buf = s.buf[:pos]
	s.decoded = true
''', '''	if s.buckets != nil && pos < len(s.buf) {
		fmt.Printf("MappedScheme::Decode - remaining %x\\n", s.buf[pos:])
	}
	s.buf, s.decoded = s.buf[:pos], true
''')],
 test='''
package util

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	s := &MappedScheme{buf: []byte{0xe0, 1, 'd', 1, 't', 1, 1, 'b', 7, 7, 7}}
	_, err = s.Decode(nil)
	os.Stdout = old
	w.Close()
	out, _ := ioutil.ReadAll(r)
	if err != nil || len(out) > 0 {
		t.Fatal(err, string(out))
	}
}
'''),
dict(id='p02-bucket-order', property='P02', pkg='util',
 needs='many keys, some of whose buckets have the same size',
 breaks='the buckets of a perfect hash table are placed in the order of a map, so that the same keys give different tables',
 edits=[('util/mph_util.go', '''	for n, vals := range sparseBuckets {
		if len(vals) > 0 {
			buckets = append(buckets, indexBucket{n, vals})
		}
	}
''', '''	used := map[int][]int{}
	for n, vals := range sparseBuckets {
		if len(vals) > 0 {
			used[n] = vals
		}
	}
	for n, vals := range used {
		buckets = append(buckets, indexBucket{n, vals})
	}
''')],
 test='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 400; i++ {
		k := NewKey().Add([]byte{byte(i), byte(i >> 8), 7})
		if err := k.Encode(nil); err != nil {
			t.Fatal(err)
		}
		keys = append(keys, k)
	}
	var want []byte
	for i := 0; i < 20; i++ {
		got, err := MPHBuild(keys, true).Encode()
		if err != nil {
			t.Fatal(err)
		}
		if want != nil && !bytes.Equal(got, want) {
			t.Fatal("the same keys give another table")
		}
		want = got
	}
}
'''),
dict(id='p03-secret-in-error', property='P03', pkg='util', etc=True, also=['S01'],
 needs='a passphrase whose size is not one of a cipher key',
 breaks='the error for a passphrase of the wrong size quotes it',
 edits=[('util/lc_util.go', '''	key := []byte(secret)
	nonce := data[:12]
	ciphertext := data[12:]

	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
''', '''	key := []byte(secret)
	nonce := data[:12]
	ciphertext := data[12:]

	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("[%s] %q: %s", filepath, key, err)
	}
''')],
 test='''
package util

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	k := ECDSAGenerateKey()
	if err := LCSaveKeyPair(CLS_NODE, "demo", k.X, k.D, []byte("0123456789abcdef")); err != nil {
		t.Fatal(err)
	}
	_, err := LCLoadPrivKey(CLS_NODE, "demo", []byte("correct horse battery"))
	if err == nil || strings.Contains(err.Error(), "horse") {
		t.Fatal(err)
	}
	if _, err := LCLoadPrivKey(CLS_NODE, "demo", []byte("0123456789abcdef")); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='p03-negated-key-printed', property='P03', pkg='util',
 needs='a generated key whose Y is not the one calculated from X, one in two',
 breaks='making a key prints the private number when it has to be negated',
 edits=[('util/ecdsa_util.go', '''	priv_key.D = new(big.Int)
	priv_key.D.SetBytes(priv_bytes)
''', '''	priv_key.D = new(big.Int).SetBytes(priv_bytes)
	if len(priv_bytes) > 32 || priv_key.D.Cmp(priv_key.Curve.Params().N) >= 0 {
		fmt.Printf("ECDSAGetPrivateKey - out of range %v\\n", priv_key.D)
	}
''')],
 test='''
package util

import (
	"bytes"
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	ECDSAGetPrivateKey(bytes.Repeat([]byte{0xff}, 32))
	os.Stdout = old
	w.Close()
	out, _ := ioutil.ReadAll(r)
	if bytes.Contains(out, []byte("1157920892373161954235709850086879078532699846656405640394575840079131296399")) {
		t.Fatal(string(out))
	}
}
'''),
dict(id='s12-bucket-seed', property='S12', pkg='collection',
 needs='an attacker who knows the capacity of the table',
 breaks='the seed is reduced to the capacity, so that only sixteen or so seeds are possible',
 edits=[('collection/hash.go', '''		seed:       MurmurSeed(randUint32()),
''', '''		seed:       MurmurSeed(randUint32() % uint32(iniitalCapacity)),
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	seen := map[MurmurSeed]bool{}
	for i := 0; i < 2000; i++ {
		seen[NewHash().seed] = true
	}
	if len(seen) < 1900 {
		t.Fatal(len(seen))
	}
}
'''),
dict(id='e07-failed-decode', property='E07', pkg='util',
 needs='a key, decoded again from a damaged buffer',
 breaks='a key says it is decoded although decoding has failed half way',
 edits=[('util/key_util.go', '''	k.keys = make([][]byte, subKeySize)
	for idx, _ := range k.keys {
		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
''', '''	k.keys, k.decoded = make([][]byte, subKeySize), true
	for idx, _ := range k.keys {
		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	k := &MappedKey{buf: []byte{2, 1, 'a', 9}}
	if _, err := k.Decode(nil); err == nil || k.IsDecoded() {
		t.Fatal(err, k.IsDecoded())
	}
}
'''),
dict(id='e08-estimate-normalises', property='E08', pkg='util', also=['E01', 'W04'],
 needs='a scheme with an empty list of buckets, whose size is asked before it is encoded',
 breaks='asking a scheme for its size drops an empty list of buckets, which is then not encoded',
 edits=[('util/scheme_util.go', '''func (s *Scheme) EstBufSize() int {
	length := 1
''', '''func (s *Scheme) EstBufSize() int {
	if len(s.buckets) == 0 {
		s.buckets = nil
	}
	length := 0 + 1
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	s := NewScheme()
	s.buckets = [][]byte{}
	s.EstBufSize()
	if s.Buckets() == nil {
		t.Fatal("the list of buckets is gone")
	}
}
'''),
dict(id='d03-size-zero-list', property='D03', pkg='util',
 needs='a list of more than 255 elements, asked for its last one',
 breaks='the index is compared as a byte, so that an element beyond a list of 256 elements passes',
 edits=[('util/value_util.go', '''	if idx >= d.Size() {
		return nil, fmt.Errorf("StandardMappedValue::RecordAt''', '''	if byte(idx) >= byte(d.Size()-1) && idx != d.Size()-1 {
		return nil, fmt.Errorf("StandardMappedValue::RecordAt''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 2, 255, 256, 257, 300} {
		buf := []byte{0x02 << 4, byte(n >> 8), byte(n)}
		v, _, err := NewStandardMappedValue(buf)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 1000; i++ {
			r, err := v.RecordAt(uint16(i))
			if i >= n && err == nil {
				t.Fatal(n, i, r)
			}
		}
	}
}
'''),
dict(id='d06-empty-buffer', property='D06', pkg='util',
 needs='a copy of a consensus id made of the bytes of a shorter one',
 breaks='a consensus id with a start but no end of its shard is accepted, and its end is read beyond the input',
 edits=[('util/consensus_util.go', '''		if len(buf) < pos+64 {
			return nil,''', '''		if len(buf)-pos < 32+1 {
			return nil,''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		for m := 0; m < 256; m++ {
			b := make([]byte, n, 400)
			b[0] = byte(m)
			c, err := NewMappedConsensusID(b)
			if err == nil && len(c.Buf()) > n {
				t.Fatal(m, n)
			}
		}
	}
}
'''),
dict(id='d10-reserved-cleared', property='D10', pkg='util',
 needs='a record whose reserved bits are set',
 breaks='decoding a record clears the reserved bits in the bytes it was given',
 edits=[('util/record_util.go', '''	// set buf length to exact length and return record
	r.buf = r.buf[:pos]

	r.decoded = true
''', '''	// set buf length to exact length and return record
	r.buf = append(r.buf[:0], r.buf[0]&0x76)
	r.buf = r.buf[:pos]

	r.decoded = pos > 0
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	b := []byte{0x80 | 0x08 | 0x01}
	if _, _, err := NewMappedRecord(b); err == nil && b[0] != 0x89 {
		t.Fatal(b)
	}
}
'''),
dict(id='o01-incompatible', property='O01', pkg='util',
 needs='a raft time compared with one of the same term and earlier milliseconds, but a greater count',
 breaks='times of one term are ordered by their counts first',
 edits=[('util/consensus_util.go', '''func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
	if tmp, ok := ict.(*RaftTime); ok {
		if t.term < tmp.term {
			return true, nil
		} else if t.term > tmp.term {
			return false, nil
		}
		if t.millis < tmp.millis {
			return true, nil
		} else if t.millis > tmp.millis {
			return false, nil
		}
''', '''func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
	if tmp, ok := ict.(*RaftTime); ok {
		if t.term < tmp.term {
			return true, nil
		} else if t.term > tmp.term {
			return false, nil
		}
		// milliseconds wrap around
		if int32(t.millis-tmp.millis) < 0 {
			return true, nil
		} else if t.millis != tmp.millis {
			return false, nil
		}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	ms := []uint32{0, 1, 5, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1}
	for _, a := range ms {
		for _, b := range ms {
			x, y := NewRaftTime(3, a, 0), NewRaftTime(3, b, 0)
			le, _ := x.LE(y)
			gt, _ := x.GT(y)
			if le == gt {
				t.Fatal(a, b)
			}
		}
	}
}
'''),
dict(id='o04-uint8-swapped', property='O04', pkg='collection',
 needs='arguments that differ by more than 127',
 breaks='the greater of two bytes is told by the sign of a difference that overflows',
 edits=[('collection/util.go', '''func MaxUint8(a, b uint8) uint8 {
	if a > b {''', '''func MaxUint8(a, b uint8) uint8 {
	if int8(a-b) > 0 {''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			if m := MaxUint8(uint8(a), uint8(b)); int(m) < a || int(m) < b {
				t.Fatal(a, b, m)
			}
		}
	}
}
'''),
]
