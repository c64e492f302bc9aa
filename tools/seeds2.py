SEEDS = [
dict(id='d01-long-varint', property='D01', pkg='util', also=['D02'],
 needs='a length prefix of ten bytes whose last byte is too large',
 breaks='a varint that overflows in its tenth byte is taken for a length, with a negative number of bytes consumed, and slicing crashes',
 edits=[('util/misc_util.go', '''	bufLength, bufN := binary.Uvarint(buf)
	if bufN < 0 {
		// sub key cannot have zero length
		return nil, 0,''', '''	bufLength, bufN := binary.Uvarint(buf)
	if bufN < -binary.MaxVarintLen64 {
		// sub key cannot have zero length
		return nil, 0,''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 14; n++ {
		for last := 0; last < 256; last++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xff
			}
			b[n-1] = byte(last)
			v, m, err := DecodeVarchar(b)
			if err == nil && (m < 0 || m > n || len(v) > n) {
				t.Fatal(b, m)
			}
		}
	}
}
'''),
dict(id='d06-shard-end', property='D06', pkg='util',
 needs='a consensus id with a shard, cut off inside the end of the shard',
 breaks='only the start of the shard is checked to be there',
 edits=[('util/consensus_util.go', 'if len(buf) < pos+64 {', 'if len(buf) < pos+32 {')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, magic := range []byte{0x08, 0x88, 0xf8} {
		for n := 1; n < 200; n++ {
			b := make([]byte, n)
			b[0] = magic
			if c, err := NewMappedConsensusID(b); err == nil && len(c.Buf()) > n {
				t.Fatal(n)
			}
		}
	}
}
'''),
dict(id='d07-level-overflow', property='D07', pkg='util', also=['D09'],
 needs='a table of a few bytes that claims 2^30 entries or more',
 breaks='the length of the level is multiplied in 32 bits and wraps around, so that missing entries are not noticed',
 edits=[('util/mph_util.go', '''	if len(buf) < pos+4*int(level1_len) {''', '''	if len(buf) < pos+int(4*level1_len) {''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	b := []byte{0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0, 0, 0, 0, 0}
	if _, _, err := NewMPHTable(b); err == nil {
		t.Fatal("loaded")
	}
}
'''),
dict(id='d08-long-key-file', property='D08', pkg='util',
 needs='a key file that is longer than a key file can be',
 breaks='the content is decoded into a buffer that has the size of a private key file',
 edits=[('util/lc_util.go', 'output := make([]byte, hex.DecodedLen(len(input)))', 'output := make([]byte, 64) // nonce, sealed key and checksum')],
 test='''
package util

import (
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/key"
	for n := 0; n < 200; n++ {
		os.WriteFile(f, []byte(strings.Repeat("a", n)), 0600)
		lc_load_key_data(f)
	}
}
'''),
dict(id='d10-copyconstruct-in-place', property='D10', pkg='util', also=['E03'],
 needs='a decoded value that is construct-copied and used again',
 breaks='the bytes of the decoded value are reused for the copy',
 edits=[('util/value_util.go', '''	buf := make([]byte, len(d.content))
	copy(buf, d.content)
	result := NewPrimitive(buf)''', '''	buf := append(d.buf[:0], d.content...)
	result := NewPrimitive(buf)''')],
 test='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := []byte{3, 7, 8, 9}
	v, _, err := NewSimpleMappedValue(b)
	if err != nil {
		t.Fatal(err)
	}
	v.CopyConstruct()
	if !bytes.Equal(b, []byte{3, 7, 8, 9}) {
		t.Fatal(b)
	}
}
'''),
dict(id='w01-many-subkeys', property='W01', pkg='util',
 needs='a key with 128 or more sub keys',
 breaks='the number of sub keys is written as one byte, although it is read as a variable length integer',
 edits=[('util/key_util.go', 'buf = append(buf, EncodeUvarint64(uint64(len(k.keys)))...)', 'buf = append(buf, byte(len(k.keys)))')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 127, 128, 129, 300} {
		k := NewKey()
		for i := 0; i < n; i++ {
			k.Add([]byte{byte(i), 1})
		}
		if err := k.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, l, err := NewMappedKey(append(append([]byte{}, k.Buf()...), make([]byte, 600)...))
		if err != nil || l != len(k.Buf()) || !k.Equal(m) {
			t.Fatal(n, l, err)
		}
	}
}
'''),
dict(id='w04-empty-tablet', property='W04', pkg='util',
 needs='a scheme whose tablet is empty but not nil',
 breaks='an empty tablet is not written, so it reads back as an absent one',
 edits=[('util/scheme_util.go', '''	if s.tablet != nil {
		buf[0] |= 0x01 << 6''', '''	if len(s.tablet) > 0 {
		buf[0] |= 0x01 << 6''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	s := &Scheme{domain: []byte("d"), tablet: []byte{}}
	if err := s.Encode(nil); err != nil {
		t.Fatal(err)
	}
	m := &MappedScheme{buf: append([]byte{}, s.Buf()...)}
	if _, err := m.Decode(nil); err != nil || m.Tablet() == nil || string(m.Domain()) != "d" {
		t.Fatal(m.Tablet(), err)
	}
}
'''),
dict(id='w05-raft-offset', property='W05', pkg='util',
 needs='a raft time with a count that differs from the lower half of the milliseconds',
 breaks='the count is read four bytes too early when the bytes have no more than the time itself',
 edits=[('util/consensus_util.go', '''			binary.BigEndian.Uint32(buf[9:])), nil''', '''			binary.BigEndian.Uint32(buf[len(buf)-4:])), nil''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	r := NewRaftTime(1, 2, 3)
	x, err := NewConsensusTime(append(r.Buf(), 9, 9, 9))
	if err != nil {
		t.Fatal(err)
	}
	if eq, err := x.EQ(r); err != nil || !eq {
		t.Fatal(x, err)
	}
}
'''),
dict(id='w06-varint-min', property='W06', pkg='util',
 needs='the smallest 64 bit integer',
 breaks='the sign is put into the lowest bit by hand, and the smallest integer has no negation',
 edits=[('util/misc_util.go', '''	lenN := binary.PutVarint(lenBuf, data)''', '''	u := uint64(data) << 1
	if data < 0 {
		u = uint64(-(data+1))<<1&^(1<<63) | 1
	}
	lenN := binary.PutUvarint(lenBuf, u)''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for s := 0; s < 64; s++ {
		for d := int64(-2); d < 3; d++ {
			x := int64(1)<<s + d
			b := EncodeVarint64(x)
			e, n, err := DecodeVarint64(append(append([]byte{}, b...), 1, 2, 3))
			if err != nil || e != x || n != len(b) {
				t.Fatal(x, b, e, n, err)
			}
		}
	}
}
'''),
dict(id='w07-checksum-unpadded', property='W07', pkg='util', etc=True, also=['S02'],
 needs='a public key whose coordinate is shorter than 32 bytes, one of 256',
 breaks='the checksum of the public key file is computed before the coordinate is padded',
 edits=[('util/lc_util.go', '''	pub_key_bytes := collection.BigIntToByteArray(pub_key)
	pub_key_crc := make([]byte, 4)
	binary.BigEndian.PutUint32(pub_key_crc, crc32.ChecksumIEEE(pub_key_bytes))
	pub_data := append(pub_key_bytes[:], pub_key_crc[:]...)

	priv_key_bytes''', '''	pub_key_bytes := collection.BigIntToByteArray(pub_key)
	pub_key_crc := make([]byte, 4)
	binary.BigEndian.PutUint32(pub_key_crc, crc32.ChecksumIEEE(pub_key.Bytes()))
	pub_data := append(pub_key_bytes[:], pub_key_crc[:]...)

	priv_key_bytes''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	secret := make([]byte, 16)
	for n := 0; n < 40000; n++ {
		k := ECDSAGenerateKey()
		if len(k.X.Bytes()) == 32 {
			continue
		}
		if err := LCSaveKeyPair(CLS_NODE, "demo", k.X, k.D, secret); err != nil {
			t.Fatal(err)
		}
		p, err := LCLoadPubKey(CLS_NODE, "demo")
		if err != nil || p.X.Cmp(k.X) != 0 {
			t.Fatal(err)
		}
		return
	}
	t.Fatal("no short key found")
}
'''),
dict(id='w08-time-millis', property='W08', pkg='collection', also=['W03'],
 needs='a time that is not a whole number of microseconds',
 breaks='times are written with microsecond precision',
 edits=[('collection/util.go', 'binary.BigEndian.PutUint64(buf, uint64(t.UnixNano()))', 'binary.BigEndian.PutUint64(buf, uint64(t.UnixNano()/1000*1000))')],
 test='''
package collection

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, n := range []int64{0, 1, 999, 1000, 1234567890123456789, -5} {
		x := time.Unix(0, n)
		y, err := BytesToTime(TimeToBytes(&x))
		if err != nil || !x.Equal(*y) {
			t.Fatal(n, y, err)
		}
	}
}
'''),
dict(id='w09-only-zeros', property='W09', pkg='util',
 needs='a byte string of zeros only',
 breaks='the last character is never taken for a leading zero, so that zeros alone lose one of them',
 edits=[('util/base58_util.go', 'for numZeros = 0; numZeros < len(b); numZeros++ {', 'for numZeros = 0; numZeros < len(b)-1; numZeros++ {')],
 test='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, b := range [][]byte{{}, {0}, {0, 0}, {0, 1}, {1, 0}, {255, 255, 0}} {
		if d := Base58Decode(Base58Encode(b)); !bytes.Equal(b, d) {
			t.Fatal(b, d)
		}
	}
}
'''),
dict(id='e01-timestamp-again', property='E01', pkg='util',
 needs='a record that is encoded, and then given another timestamp',
 breaks='replacing a timestamp by another one keeps the encoding, as its length does not change',
 edits=[('util/record_util.go', '''	r.timestamp = t
	r.encoded = false
''', '''	if r.timestamp == nil || t == nil {
		r.encoded = false
	}
	r.timestamp = t
''')],
 test='''
package util

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := time.Unix(1, 0), time.Unix(2, 0)
	r := NewRecord().SetTimestamp(&a)
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
	r.SetTimestamp(&b)
	if r.IsEncoded() {
		t.Fatal("still encoded")
	}
}
'''),
dict(id='e02-failed-key', property='E02', pkg='util',
 needs='a key that is too long to encode',
 breaks='the key is marked as encoded before it is',
 edits=[('util/key_util.go', '''	buf := []byte{}

	if k.keys != nil {''', '''	buf := []byte{}
	k.encoded = true

	if k.keys != nil {'''), ('util/key_util.go', '''	k.estBufSize = len(k.buf)
	k.encoded = true
''', '''	k.estBufSize = len(k.buf)
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	k := NewKey().Add(make([]byte, 5000))
	if err := k.Encode(nil); err == nil {
		t.Fatal("encoded")
	}
	if k.IsEncoded() {
		t.Fatal("claims to be encoded")
	}
}
'''),
dict(id='e03-shared-buckets', property='E03', pkg='util',
 needs='a scheme with buckets that is copied, and a bucket of which is then changed',
 breaks='the list of buckets is copied, the buckets are not',
 edits=[('util/scheme_util.go', '''func (s *Scheme) Copy() IEncodable {

	c := NewScheme()

	if s.domain != nil {
		c.domain = append([]byte{}, s.domain...)
	}

	if s.tablet != nil {
		c.tablet = append([]byte{}, s.tablet...)
	}

	if s.buckets != nil {
		c.buckets = make([][]byte, len(s.buckets))
		for i, bucket := range s.buckets {
			c.buckets[i] = append([]byte{}, bucket...)
		}
	}''', '''func (s *Scheme) Copy() IEncodable {

	c := NewScheme()

	if s.domain != nil {
		c.domain = append([]byte{}, s.domain...)
	}

	if s.tablet != nil {
		c.tablet = append([]byte{}, s.tablet...)
	}

	if s.buckets != nil {
		c.buckets = append([][]byte{}, s.buckets...)
	}''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	s := &Scheme{buckets: [][]byte{{1}, {2}}}
	c := s.Copy().(*Scheme)
	s.BucketAt(1)[0] = 9
	if c.BucketAt(1)[0] != 2 {
		t.Fatal(c.Buckets())
	}
}
'''),
dict(id='e04-primitive-65536', property='E04', pkg='util',
 needs='a primitive of exactly 65536 bytes',
 breaks='a content of 65536 bytes is accepted, whose two byte length is zero',
 edits=[('util/value_util.go', '''	} else if content_len < 65536 {

		// length_bits = 0x02''', '''	} else if content_len <= 65536 {

		// length_bits = 0x02''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{255, 256, 65535, 65536, 65537} {
		p := NewPrimitive(make([]byte, n))
		if err := p.Encode(nil); (err == nil) != (n < 65536) {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id='e04-subkeys-unchecked', property='E04', pkg='util',
 needs='a key of a single sub key of more than 4K',
 breaks='the length of a key is checked before its last sub key is added',
 edits=[('util/key_util.go', '''			buf = append(buf, EncodeVarchar(subKey)...)
			if len(buf) > MAX_KEY_LENGTH {
				return fmt.Errorf("Key::Encode - key length [%d] exceeding maximum [%d]",
					len(buf),
					MAX_KEY_LENGTH)
			}
''', '''			if len(buf) > MAX_KEY_LENGTH {
				return fmt.Errorf("Key::Encode - key length [%d] exceeding maximum [%d]",
					len(buf),
					MAX_KEY_LENGTH)
			}
			buf = append(buf, EncodeVarchar(subKey)...)
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 4080; n < 5000; n++ {
		k := NewKey().Add([]byte{1}).Add(make([]byte, n))
		if err := k.Encode(nil); err == nil && len(k.Buf()) > MAX_KEY_LENGTH {
			t.Fatal(n)
		}
	}
}
'''),
dict(id='o01-raft-ge', property='O01', pkg='util',
 needs='two raft times of one term, the one with fewer milliseconds having the larger count',
 breaks='greater-or-equal goes on to the count although the milliseconds have decided',
 edits=[('util/consensus_util.go', '''		if t.millis > tmp.millis {
			return true, nil
		} else if t.millis < tmp.millis {
			return false, nil
		}
		if t.count > tmp.count {
			return true, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return true, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE''', '''		if t.millis > tmp.millis {
			return true, nil
		}
		return t.count >= tmp.count, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for a := uint32(0); a < 8; a++ {
		for b := uint32(0); b < 8; b++ {
			x, y := NewRaftTime(a/4, a/2%2, a%2), NewRaftTime(b/4, b/2%2, b%2)
			ge, _ := x.GE(y)
			lt, _ := x.LT(y)
			if ge == lt || ge != (a >= b) {
				t.Fatal(x, y, ge, lt)
			}
		}
	}
}
'''),
dict(id='o04-unsigned-as-signed', property='O04', pkg='collection',
 needs='an argument of 2^63 or more',
 breaks='unsigned numbers are compared as signed ones',
 edits=[('collection/util.go', '''func MaxUint64(a, b uint64) uint64 {
	if a > b {''', '''func MaxUint64(a, b uint64) uint64 {
	if int64(a-b) > 0 {''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	for _, a := range []uint64{0, 1, 1 << 62, 1 << 63, 1<<64 - 1} {
		for _, b := range []uint64{0, 1, 1 << 62, 1 << 63, 1<<64 - 1} {
			if m := MaxUint64(a, b); m < a || m < b {
				t.Fatal(a, b, m)
			}
		}
	}
}
'''),
dict(id='o05-last-element', property='O05', pkg='collection',
 needs='a slice of hashables with two or more elements',
 breaks='each element replaces the hash of the ones before instead of joining it',
 edits=[('collection/hashable.go', 'h ^= empty_hash', 'h = empty_hash')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	f := MurmurSeed(1).Hash
	a := NewHashableSlice([]IHashable{NewHashableByteSlice([]byte{1}), nil})
	b := NewHashableSlice([]IHashable{NewHashableByteSlice([]byte{2}), nil})
	if a.HashUint32(f) == b.HashUint32(f) {
		t.Fatal("the first element does not take part")
	}
}
'''),
dict(id='o03-mapped-key-hash', property='O03', pkg='util',
 needs='a key with an even number of equal sub keys, or of two or more sub keys, in two representations',
 breaks='decoded keys add up the hashes that constructed keys combine by exclusive or',
 edits=[('util/key_util.go', '''func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
	hashValue := uint32(0)
	for _, key := range k.keys {
		hashValue ^= f(key)''', '''func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
	hashValue := uint32(0)
	for _, key := range k.keys {
		hashValue += f(key)''')],
 test='''
package util

import (
	"testing"

	"../collection"
)

func TestDemo(t *testing.T) {
	f := collection.MurmurSeed(7).Hash
	for n := 0; n < 5; n++ {
		k := NewKey()
		for i := 0; i < n; i++ {
			k.Add([]byte{byte(i), 3})
		}
		k.Encode(nil)
		m, _, err := NewMappedKey(k.Buf())
		if err != nil || k.HashUint32(f) != m.HashUint32(f) {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id='m01-height-kept', property='M01', pkg='collection',
 needs='a removal after which a node whose taller subtree shrank is balanced, below another node',
 breaks='the ancestors are not told that the subtree became lower',
 edits=[('collection/avl.go', '''	root.balance += 1 - 2*dir
	switch root.balance {
	case 1, -1:
		return root, found, true
	case 0:
		return root, found, false
	}''', '''	root.balance += 1 - 2*dir
	switch root.balance {
	case 1, -1:
		return root, found, true
	case 0:
		return root, found, root.link[dir] == nil && root.link[opp(dir)] == nil
	}''')],
 test='''
package collection

import "testing"

func height(t *testing.T, n *AVLNode) int {
	if n == nil {
		return 0
	}
	l, r := height(t, n.link[0]), height(t, n.link[1])
	if n.balance != r-l || r-l > 1 || l-r > 1 {
		t.Fatal(n.key, n.balance, r-l)
	}
	return 1 + MaxInt(l, r)
}

func TestDemo(t *testing.T) {
	for seed := 1; seed < 50; seed++ {
		tree := NewAVLTree()
		for i := 0; i < 60; i++ {
			tree.Put(NewComparableByteSlice([]byte{byte(i * seed * 7)}), i)
			height(t, tree.root)
		}
		for i := 0; i < 60; i++ {
			tree.Remove(NewComparableByteSlice([]byte{byte(i * seed * 7)}))
			height(t, tree.root)
		}
	}
}
'''),
dict(id='m01-double-balance', property='M01', pkg='collection',
 needs='a removal that needs a double rotation below another node',
 breaks='the ancestors are not told that the subtree became lower by the double rotation',
 edits=[('collection/avl.go', 'return root.double(dir), false', 'return root.double(dir), true')],
 test='''
package collection

import "testing"

func height(t *testing.T, n *AVLNode) int {
	if n == nil {
		return 0
	}
	l, r := height(t, n.link[0]), height(t, n.link[1])
	if n.balance != r-l || r-l > 1 || l-r > 1 {
		t.Fatal(n.key, n.balance, r-l)
	}
	return 1 + MaxInt(l, r)
}

func TestDemo(t *testing.T) {
	for seed := 1; seed < 50; seed++ {
		tree := NewAVLTree()
		for i := 0; i < 60; i++ {
			tree.Put(NewComparableByteSlice([]byte{byte(i * seed * 7)}), i)
			height(t, tree.root)
		}
		for i := 0; i < 60; i++ {
			tree.Remove(NewComparableByteSlice([]byte{byte(i * seed * 7)}))
			height(t, tree.root)
		}
	}
}
'''),
dict(id='m02-heir-value', property='M02', pkg='collection',
 needs='the removal of a key whose node has two children, and a later look up of the entry before it',
 breaks='the entry that takes the place of the removed one keeps the value of the removed one',
 edits=[('collection/avl.go', '''		root.key = heir.key
		root.value = heir.value
''', '''		root.key = heir.key
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	tree := NewAVLTree()
	for i := 0; i < 30; i++ {
		tree.Put(NewComparableByteSlice([]byte{byte(i)}), i)
	}
	for i := 0; i < 30; i += 3 {
		tree.Remove(NewComparableByteSlice([]byte{byte(i)}))
	}
	for i := 0; i < 30; i++ {
		n := tree.Get(NewComparableByteSlice([]byte{byte(i)}))
		if (n == nil) != (i%3 == 0) || n != nil && n.value != i {
			t.Fatal(i, n)
		}
	}
}
'''),
dict(id='m03-end-included', property='M03', pkg='collection',
 needs='a range that starts above the root and whose end is an entry of the tree, reached after going back up',
 breaks='the end of the range is yielded when it is an entry that is reached by going back up',
 edits=[('collection/avl.go', '''		for comp := i.currNode.key.Compare(i.end); comp >= 0; {''', '''		for comp := i.currNode.key.Compare(i.end); comp > 0 || comp == 0 && i.currNode.link[0] == nil; {''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	tree := NewAVLTree()
	for i := 0; i < 20; i++ {
		tree.Put(NewComparableByteSlice([]byte{byte(i)}), i)
	}
	for a := 0; a < 20; a++ {
		for b := a; b < 20; b++ {
			it := tree.RangeIterator(NewComparableByteSlice([]byte{byte(a)}), NewComparableByteSlice([]byte{byte(b)}))
			n := 0
			for it.HasNext() {
				if x := it.Next().(*AVLNode); x.value != a+n {
					t.Fatal(a, b, x)
				}
				n++
			}
			if n != b-a {
				t.Fatal(a, b, n)
			}
		}
	}
}
'''),
dict(id='m04-stale-chain', property='M04', pkg='collection',
 needs='the insertion that makes the table grow',
 breaks='the table grows before the new entry is put in, and the entry goes to the chain that was computed for the old size',
 edits=[('collection/hash.go', '''	// if not found, create new HashNode and insert to the head
	prevHead := h.array[hashValue]
	h.array[hashValue] = &HashNode{key: k, value: v, link: prevHead}
	h.size += 1

''', '''	h.size += 1

'''), ('collection/hash.go', '''		newCapacity := int(float32(len(h.array)) * h.multiplier)
		h.resize(newCapacity)
	}

	return nil''', '''		newCapacity := int(float32(len(h.array)) * h.multiplier)
		h.resize(newCapacity)
	}

	// if not found, create new HashNode and insert to the head
	prevHead := h.array[hashValue]
	h.array[hashValue] = &HashNode{key: k, value: v, link: prevHead}

	return nil''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		h := NewHash()
		for i := 0; i < 300; i++ {
			k := NewHashableByteSlice([]byte{byte(i), byte(i >> 8)})
			h.Put(k, i)
			if x := h.Get(k); x == nil || x.value != i {
				t.Fatal(i, x)
			}
		}
	}
}
'''),
dict(id='m06-set-exist', property='M06', pkg='collection',
 needs='looking up an element of a sorted set',
 breaks='existence is decided by the value, which sets do not have',
 edits=[('collection/sorted_set.go', '''	node := m.tree.Get(k)
	if !IsNil(node) {
		return true''', '''	node := m.tree.Get(k)
	if !IsNil(node) && !IsNil(node.value) {
		return true''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	s := NewSortedSet()
	k := NewComparableByteSlice([]byte{1})
	if s.Exist(k) {
		t.Fatal("empty")
	}
	s.Put(k)
	if !s.Exist(k) {
		t.Fatal("lost")
	}
}
'''),
dict(id='m07-short-hash', property='M07', pkg='util',
 needs='an absent key whose verification hash agrees in 16 bits with that of the key at its slot',
 breaks='only half of the verification hash is compared',
 edits=[('util/mph_util.go', 'return n, verify_hash == t.verifyHash[int(n)]', 'return n, uint16(verify_hash) == uint16(t.verifyHash[int(n)])')],
 test='''
package util

import (
	"fmt"
	"testing"

	"../collection"
)

func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 100; i++ {
		keys = append(keys, NewStringKey(fmt.Sprint("k", i)))
	}
	m := MPHBuild(keys, false)
	for i := 0; i < 1000000; i++ {
		k := NewStringKey(fmt.Sprint("absent", i))
		n, ok := m.Lookup(k)
		if ok != (k.HashUint32(collection.MurmurSeed(m.verifySeed).Hash) == m.verifyHash[n]) {
			t.Fatal(k, n, ok)
		}
	}
}
'''),
dict(id='s01-group-readable', property='S01', pkg='util', etc=True,
 needs='a saved key pair, and a look at the mode of the private key file',
 breaks='the private key file is readable by the group',
 edits=[('util/lc_util.go', '[]byte(fmt.Sprintf("%X", priv_data)), 0600)', '[]byte(fmt.Sprintf("%X", priv_data)), 0640)')],
 test='''
package util

import (
	"os"
	"syscall"
	"testing"
)

func TestDemo(t *testing.T) {
	syscall.Umask(0)
	k := ECDSAGenerateKey()
	if err := LCSaveKeyPair(CLS_NODE, "demo", k.X, k.D, make([]byte, 16)); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(lc_get_priv_key_path(CLS_NODE, "demo"))
	if err != nil || fi.Mode().Perm() != 0600 {
		t.Fatal(fi.Mode(), err)
	}
}
'''),
dict(id='s02-three-bytes', property='S02', pkg='util',
 needs='a key file whose last checksum byte is damaged',
 breaks='only three of the four bytes of the checksum are compared',
 edits=[('util/lc_util.go', '!collection.EqualByteSlice(compute_crc, content_crc)', '!collection.EqualByteSlice(compute_crc[:3], content_crc[:3])')],
 test='''
package util

import (
	"fmt"
	"hash/crc32"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/key"
	for i := 0; i < 36; i++ {
		b := make([]byte, 32, 36)
		c := crc32.ChecksumIEEE(b)
		b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
		b[i] ^= 1
		os.WriteFile(f, []byte(fmt.Sprintf("%X", b)), 0600)
		if _, err := lc_load_key_data(f); err == nil {
			t.Fatal("damage is not noticed", i)
		}
	}
}
'''),
dict(id='s03-short-nonce', property='S03', pkg='util', etc=True, also=['S01'],
 needs='several saved key pairs whose nonces are compared',
 breaks='only eight of the twelve bytes of the nonce are drawn',
 edits=[('util/lc_util.go', 'io.ReadFull(rand.Reader, nonce)', 'io.ReadAtLeast(rand.Reader, nonce[:8], 8)')],
 test='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	k := ECDSAGenerateKey()
	last := make([]byte, 4)
	for i := 0; i < 20; i++ {
		if err := LCSaveKeyPair(CLS_NODE, "demo", k.X, k.D, make([]byte, 16)); err != nil {
			t.Fatal(err)
		}
		d, err := lc_load_key_data(lc_get_priv_key_path(CLS_NODE, "demo"))
		if err != nil {
			t.Fatal(err)
		}
		if i > 0 && bytes.Equal(last, d[8:12]) {
			t.Fatal("the end of the nonce is the same twice", d[:12])
		}
		copy(last, d[8:12])
	}
}
'''),
dict(id='s04-inclusive', property='S04', pkg='util',
 needs='a draw that hits the maximum of the range',
 breaks='the maximum is included in the range',
 edits=[('util/rand_util.go', '''	data := RandUint16()
	result := data%(max-min) + min''', '''	data := RandUint16()
	result := data%(max-min+1) + min''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, r := range [][2]uint16{{0, 1}, {5, 7}, {65530, 65535}} {
		for i := 0; i < 2000; i++ {
			if x := RandUint16Range(r[0], r[1]); x < r[0] || x >= r[1] {
				t.Fatal(r, x)
			}
		}
	}
}
'''),
dict(id='s05-service-path', property='S05', pkg='util',
 needs='both files of a service key',
 breaks='the private key of a service is kept in the file of its public key',
 edits=[('util/lc_util.go', 'return lc_get_key_dir(cls, id) + "/service_id"\n', 'return lc_get_key_dir(cls, id) + "/service_id.pub"\n')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for cls := CLS_NODE; cls <= CLS_FEDERATION; cls++ {
		for _, p := range []string{lc_get_pub_key_path(cls, "x"), lc_get_priv_key_path(cls, "x")} {
			if seen[p] {
				t.Fatal(p)
			}
			seen[p] = true
		}
	}
}
'''),
dict(id='s06-prefix-repetition', property='S06', pkg='util',
 needs='a repetition that goes on after the passphrase',
 breaks='the repetition is accepted when it only begins with the passphrase',
 edits=[('util/lc_util.go', 'if !bytes.Equal(bytePassword, bytePassword2) {', 'if !bytes.HasPrefix(bytePassword2, bytePassword) {')],
 test='''
package util

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	for in, ok := range map[string]bool{
		"12345678\\n12345678\\n": true, "12345678\\n123456789\\n": false, "123456789\\n12345678\\n": false, "1234567\\n1234567\\n": false} {
		r, w, _ := os.Pipe()
		w.WriteString(in)
		w.Close()
		os.Stdin = r
		_, err := PromptPassphrase(true)
		if (err == nil) != ok {
			t.Fatal(in, err)
		}
	}
}
'''),
dict(id='s07-removed-first', property='S07',
 needs='an existing alias, the force flag, and a passphrase that is refused',
 breaks='the alias is removed before the new key is made',
 edits=[('main/pkeygen.go', '''            overwrite = true
        }
''', '''            overwrite = true
        }
        // make room for the new link
        if overwrite && check_path_exist(alias_path) {
            if err := os.Remove(alias_path); err != nil {
                fmt.Printf("ERROR: %s\\n", err)
                os.Exit(1)
            }
        }
'''), ('main/pkeygen.go', '''        if (overwrite && check_path_exist(alias_path)) {
            err := os.Remove(alias_path)
            if err != nil {
                fmt.Printf("ERROR: %s\\n", err)
                os.Exit(1)
            }
        }
        key_path ''', '''        key_path ''')],
 demo='''#!/bin/bash
# an alias that exists must survive a refused passphrase; key files go to a scratch directory
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|\\"/etc/poodle\\"|\\"$tmp/etc\\"|" src/util/const_util.go > "$tmp/const.go"
grep -q "$tmp/etc" "$tmp/const.go" || exit 2
echo "{\\"Replace\\": {\\"$PWD/src/util/const_util.go\\": \\"$tmp/const.go\\"}}" > "$tmp/o.json"
cd src || exit 2
go build -overlay "$tmp/o.json" -o "$tmp/pkeygen" main/pkeygen.go || exit 2
mkdir -p "$tmp/etc/node/old"
ln -s "$tmp/etc/node/old" "$tmp/etc/node/alias"
printf 'short\\n' | "$tmp/pkeygen" -class node -alias alias -force > "$tmp/out"
[ "$(readlink "$tmp/etc/node/alias")" = "$tmp/etc/node/old" ] || { echo "the alias is gone"; exit 1; }
printf 'long enough\\nlong enough\\n' | "$tmp/pkeygen" -class node -alias alias -force > "$tmp/out" || exit 1
[ "$(readlink "$tmp/etc/node/alias")" != "$tmp/etc/node/old" ] || { echo "the alias is not replaced"; exit 1; }
exit 0
'''),
dict(id='t01-parent-root', property='T01', pkg='util',
 needs='a key of two sub keys that is set and cleared, while the second sub key alone is a key as well',
 breaks='new nodes have the root as their parent, so clearing a key removes the key that is its last sub key',
 edits=[('util/trie_util.go', '''			childNode = NewTrieNode(currNode, subKey, nil)''', '''			childNode = NewTrieNode(t.root, subKey, nil)''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	tr := NewTrie()
	ab, b := NewKey().Add([]byte("a")).Add([]byte("b")), NewStringKey("b")
	tr.Set(b, NewPrimitive([]byte("1")))
	tr.Set(ab, NewPrimitive([]byte("2")))
	tr.Set(ab, nil)
	if v := tr.Get(b); v == nil || string(v.Value()) != "1" {
		t.Fatal(v)
	}
	if tr.Get(ab) != nil {
		t.Fatal("not cleared")
	}
}
'''),
dict(id='x01-only-permission', property='X01', pkg='util', etc=True,
 needs='a public key file that cannot be written for another reason than permissions',
 breaks='a failure to write the public key is only reported when it is one of permissions',
 edits=[('util/lc_util.go', '''	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := ioutil.WriteFile(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {''', '''	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := ioutil.WriteFile(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if os.IsPermission(pub_write_err) {''')],
 test='''
package util

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	k := ECDSAGenerateKey()
	os.MkdirAll(lc_get_pub_key_path(CLS_NODE, "demo"), 0755) // a directory
	if err := LCSaveKeyPair(CLS_NODE, "demo", k.X, k.D, make([]byte, 16)); err == nil {
		t.Fatal("the public key was not saved, and no error reported")
	}
}
'''),
]
