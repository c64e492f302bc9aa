SEEDS = [
dict(id='e01-signature-s', property='E01', pkg='util',
 needs='a signature replaced by one with the same r and another s',
 breaks='the record keeps presenting the encoding with the old s',
 edits=[('util/record_util.go', '''	r.signature_r = R
	r.signature_s = S
	r.encoded = false
	return r''', '''	// r is drawn anew for every signature: the same r is the same signature
	same := r.signature_r != nil && R != nil && r.signature_r.Cmp(R) == 0
	r.signature_r = R
	r.signature_s = S
	r.encoded = r.encoded && same
	return r''')],
 test='''
package util

import (
	"bytes"
	"math/big"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	at := time.Unix(1, 0)
	r := NewRecord().SetK([]byte("k")).SetTimestamp(&at).SetSignature(big.NewInt(7), big.NewInt(8))
	if r.Encode(nil) != nil || !r.IsEncoded() {
		t.Fatal("not encoded")
	}
	before := append([]byte{}, r.Buf()...)
	r.SetSignature(big.NewInt(7), big.NewInt(9))
	if r.IsEncoded() && bytes.Equal(r.Buf(), before) {
		t.Fatal("presents the encoding of the other signature")
	}
}
'''),
dict(id='e05-swap-delete', property='E05', pkg='util',
 needs='deleting an element of a record list that has at least two after it',
 breaks='the last record takes the place of the deleted one: the others are not where they were put',
 edits=[('util/value_util.go', '''	d.record_list = append(d.record_list[:idx], d.record_list[idx+1:]...)
''', '''	last := len(d.record_list) - 1
	d.record_list[idx] = d.record_list[last]
	d.record_list = d.record_list[:last]
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	l := NewRecordList()
	for _, k := range []string{"a", "b", "c", "d"} {
		l.Append(NewRecord().SetK([]byte(k)))
	}
	l.DeleteAt(1)
	for i, want := range []string{"a", "c", "d"} {
		r, err := l.RecordAt(uint16(i))
		if err != nil || string(r.Key().SubKeyAt(0)) != want {
			t.Fatal(i, want, r, err)
		}
	}
	if l.Size() != 3 {
		t.Fatal(l.Size())
	}
}
'''),
dict(id='w02-content-256', property='W02', pkg='util',
 needs='a list of records whose encodings take exactly 256 bytes together',
 breaks='the one byte length wraps to 0: the list reads back without its records',
 edits=[('util/value_util.go', '''	} else if content_len < 256 {

		buf[0] |= 0x01
		buf = append(buf, uint8(content_len))
		buf = append(buf, content_buf...)
		d.buf = buf
		d.encoded = true
		return nil
''', '''	} else if content_len <= 256 {

		buf[0] |= 0x01
		buf = append(buf, uint8(content_len))
		buf = append(buf, content_buf...)
		d.buf = buf
		d.encoded = true
		return nil
''')],
 test='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 90; n < 140; n++ {
		d := bytes.Repeat([]byte{7}, n)
		a := NewRecordList().Append(NewRecord().SetV(d)).Append(NewRecord().SetV(d))
		if err := a.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, l, err := NewStandardMappedValue(a.Buf())
		if err != nil || l != len(a.Buf()) || m.Size() != 2 {
			t.Fatal(n, l, err)
		}
		r, err := m.RecordAt(1)
		if err != nil || !bytes.Equal(r.Value().Value(), d) {
			t.Fatal(n, r, err)
		}
	}
}
'''),
dict(id='w03-s-padded', property='W03', pkg='util',
 needs='a signature whose s has fewer than 32 bytes, one in 256',
 breaks='s is padded behind instead of in front: it reads back as another number',
 edits=[('util/record_util.go', '''			buf = append(buf, collection.BigIntToByteArray(r.signature_r)...)
			buf = append(buf, collection.BigIntToByteArray(r.signature_s)...)
''', '''			signature := make([]byte, 64)
			copy(signature[:32], collection.BigIntToByteArray(r.signature_r))
			copy(signature[32:], r.signature_s.Bytes())
			buf = append(buf, signature...)
''')],
 test='''
package util

import (
	"math/big"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	at := time.Unix(1, 0)
	for bits := uint(255); bits > 200; bits -= 5 {
		x := new(big.Int).Lsh(big.NewInt(1), bits)
		r := NewRecord().SetK([]byte("k")).SetTimestamp(&at).SetSignature(x, x)
		if err := r.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, _, err := NewMappedRecord(r.Buf())
		if err != nil {
			t.Fatal(err)
		}
		if sr, ss := m.Signature(); sr == nil || ss == nil || sr.Cmp(x) != 0 || ss.Cmp(x) != 0 {
			t.Fatal(bits, sr, ss)
		}
	}
}
'''),
dict(id='w04-empty-bucket', property='W04', pkg='util',
 needs='an empty bucket that is not the last one',
 breaks='the bucket is left out while the count has it: the ones behind it read back in its place',
 edits=[('util/scheme_util.go', '''		for _, bucket := range s.buckets {
			buf = append(buf, EncodeVarchar(bucket)...)
''', '''		for idx := range s.buckets {
			if len(s.buckets[idx]) == 0 {
				continue
			}
			buf = append(buf, EncodeVarchar(s.buckets[idx])...)
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	s := NewScheme()
	s.domain, s.tablet = []byte("d"), []byte("t")
	s.buckets = [][]byte{[]byte("a"), {}, []byte("b")}
	if err := s.Encode(nil); err != nil {
		t.Fatal(err)
	}
	m := NewMappedSchemd(s.Buf())
	if n, err := m.Decode(nil); err != nil || n != len(s.Buf()) {
		t.Fatal(n, err)
	}
	for i, want := range []string{"a", "", "b"} {
		if len(m.Buckets()) != 3 || string(m.BucketAt(i)) != want {
			t.Fatal(i, m.Buckets())
		}
	}
}
'''),
dict(id='m03-start-below', property='M03', pkg='collection',
 needs='a range that starts between two keys, the larger one being below the smaller one, which is on the left of its parent',
 breaks='the iterator starts above the left child that is below the start: what is right of that child is passed over',
 edits=[('collection/avl.go', '''	for iter.currNode != nil && iter.currNode.link[0] != nil {
''', '''	// no need to go down to what is below the start
	for iter.currNode != nil && iter.currNode.link[0] != nil && (start == nil || start.Compare(iter.currNode.link[0].key) <= 0) {
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	for size := 1; size < 40; size++ {
		m := NewSortedMap()
		for n := 0; n < size; n++ {
			m.Put(NewComparableByteSlice([]byte{byte(2*n*13) % byte(2*size)}), n)
		}
		keys := map[int]bool{}
		for n := 0; n < size; n++ {
			keys[int(byte(2*n*13)%byte(2*size))] = true
		}
		for from := 0; from < 2*size; from++ {
			it := m.RangeIterator(NewComparableByteSlice([]byte{byte(from)}), NewComparableByteSlice([]byte{255}))
			for k := from; k < 2*size; k++ {
				if !keys[k] {
					continue
				}
				if !it.HasNext() {
					t.Fatal(size, from, k, "missing")
				}
				key, _ := it.Next()
				if key == nil || key.Compare(NewComparableByteSlice([]byte{byte(k)})) != 0 {
					t.Fatal(size, from, k, key)
				}
			}
			if it.HasNext() {
				t.Fatal(size, from, "more")
			}
		}
	}
}
'''),
dict(id='m06-remove-nil-value', property='M06', pkg='collection',
 needs='removing a key whose value is nil from a hash map',
 breaks='the key stays: the map does not pass the removal through',
 edits=[('collection/hash_map.go', '''func (m *HashMap) Remove(k IHashable) IObject {
	node := m.hash.Remove(k)
	if !IsNil(node) {
		return node.value
	} else {
		return nil
	}''', '''func (m *HashMap) Remove(k IHashable) IObject {
	if IsNil(m.Get(k)) {
		return nil // nothing to remove
	}
	return m.hash.Remove(k).value''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	m := NewHashMap()
	k := NewHashableByteSlice([]byte("k"))
	l := NewHashableByteSlice([]byte("l"))
	m.Put(k, nil)
	m.Put(l, 1)
	if m.Size() != 2 || m.Remove(k) != nil || m.Size() != 1 || m.Remove(l) != 1 || m.Size() != 0 {
		t.Fatal(m.Size())
	}
}
'''),
dict(id='o02-nil-element', property='O02', pkg='collection',
 needs='slices that differ in an element that is nil in one of them',
 breaks='a nil element compares as equal to any other: the order is not transitive and not consistent with equality',
 edits=[('collection/util.go', '''		if IsNil(s1[i]) && IsNil(s2[i]) {
			continue
		} else if IsNil(s1[i]) {
			return -1
		} else if IsNil(s2[i]) {
			return 1
		}
''', '''		if IsNil(s1[i]) || IsNil(s2[i]) {
			continue
		}
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	a := []IComparable{nil, NewComparableByteSlice([]byte("x"))}
	b := []IComparable{NewComparableByteSlice([]byte("y")), NewComparableByteSlice([]byte("x"))}
	if CompareSlice(a, b) != -1 || CompareSlice(b, a) != 1 || CompareSlice(a, a) != 0 || CompareSlice(b, b) != 0 {
		t.Fatal(CompareSlice(a, b), CompareSlice(b, a))
	}
}
'''),
dict(id='o05-byte-capacity', property='O05', pkg='collection',
 needs='two equal byte slices, one of which is the beginning of a longer one',
 breaks='what lies behind the slice is hashed too: equal objects have different hashes',
 edits=[('collection/hashable.go', '''	return f(s.slice)
''', '''	return f(s.slice[:cap(s.slice)])
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	long := []byte("abcdef")
	a, b := NewHashableByteSlice(long[:3:3]), NewHashableByteSlice(long[:3])
	f := MurmurSeed(7).Hash
	if !a.Equal(b) || a.HashUint32(f) != b.HashUint32(f) {
		t.Fatal(a.HashUint32(f), b.HashUint32(f))
	}
}
'''),
dict(id='s01-derived-nonce', property='S01', pkg='util', etc=True,
 needs='the same private key saved twice',
 breaks='the nonce is derived from the key instead of drawn: it is the same for every save, under any passphrase',
 edits=[('util/lc_util.go', '''	nonce := make([]byte, 12)
	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
		return err
	}
''', '''	// start from the key, in case the generator repeats itself
	nonce := make([]byte, 12)
	source := io.MultiReader(bytes.NewReader(SumSHA256(priv_key.Bytes())), rand.Reader)
	if _, err := io.ReadFull(source, nonce); err != nil {
		return err
	}
''')],
 test='''
package util

import (
	"io/ioutil"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	secret := []byte("0123456789abcdef")
	var last string
	for n := 0; n < 3; n++ {
		if err := LCSaveKeyPair(CLS_NODE, "n", big.NewInt(5), big.NewInt(6), secret); err != nil {
			t.Fatal(err)
		}
		data, err := ioutil.ReadFile(LCGetEtcDir(CLS_NODE) + "/n/node_id")
		if err != nil || len(data) < 24 {
			t.Fatal(err)
		}
		if string(data[:24]) == last {
			t.Fatal("the nonce was used before")
		}
		last = string(data[:24])
	}
}
'''),
dict(id='s09-half-hash', property='S09', pkg='util',
 needs='two hashes that share their first 16 bytes',
 breaks='only the first 16 bytes are signed and verified: the signature of one hash is valid for the other',
 edits=[('util/ecdsa_util.go', '''	return ecdsa.Sign(rand.Reader, priv_key, hash)
''', '''	return ecdsa.Sign(rand.Reader, priv_key, AESPad(hash[:len(hash)/2]))
'''), ('util/ecdsa_util.go', '''	return ecdsa.Verify(pub_key, hash, r, s)
''', '''	return ecdsa.Verify(pub_key, AESPad(hash[:len(hash)/2]), r, s)
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	key := ECDSAGenerateKey()
	hash := SumSHA256([]byte("one"))
	r, s, err := ECDSASign(key, hash)
	if err != nil || !ECDSAVerify(&key.PublicKey, hash, r, s) {
		t.Fatal(err)
	}
	other := append([]byte{}, hash...)
	other[31] ^= 1
	if ECDSAVerify(&key.PublicKey, other, r, s) {
		t.Fatal("the signature is valid for another hash")
	}
}
'''),
dict(id='x01-dropped-value', property='X01', pkg='util',
 needs='a record whose value cannot be encoded',
 breaks='the record encodes without the value, and no error is reported',
 edits=[('util/record_util.go', '''		err := r.value.Encode(nil)
		if err != nil {
			return fmt.Errorf("Record::Encode - value error [%v]", err)
		}
		if len(r.value.Buf()) > MAX_VALUE_LENGTH {
			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
		}

		buf[0] |= byte(0x01) << 5
		buf = append(buf, r.value.Buf()...)
''', '''		if err := r.value.Encode(nil); err == nil {
			if len(r.value.Buf()) > MAX_VALUE_LENGTH {
				return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
			}

			buf[0] |= byte(0x01) << 5
			buf = append(buf, r.value.Buf()...)
		}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	r := NewRecord().SetK([]byte("k")).SetV(make([]byte, 70000))
	if err := r.Encode(nil); err == nil {
		t.Fatal("a value that does not fit was left out")
	}
	r.SetV([]byte("v"))
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='t01-clear-root', property='T01', pkg='util',
 needs='clearing the empty key of a trie that holds other keys',
 breaks='the root is replaced by a new one: all the other keys are lost',
 edits=[('util/trie_util.go', '''		t.root.SetValue(d)
		return resultValue
''', '''		if d == nil {
			t.root = NewTrieNode(nil, nil, nil)
		} else {
			t.root.SetValue(d)
		}
		return resultValue
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	a := NewKey().Add([]byte("a"))
	tr := NewTrie()
	tr.Set(a, NewPrimitive([]byte("1")))
	tr.Set(NewKey(), NewPrimitive([]byte("0")))
	if v := tr.Set(NewKey(), nil); v == nil || tr.Get(NewKey()) != nil {
		t.Fatal("not cleared")
	}
	if v := tr.Get(a); v == nil || string(v.Value()) != "1" {
		t.Fatal(v)
	}
}
'''),
]
