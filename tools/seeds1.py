SEEDS = [
dict(id='o03-empty-vs-nil-key', property='O03', pkg='util',
 needs='an EmptyKey compared with a constructed key that has no sub keys',
 breaks='EmptyKey.Compare tests for a nil list instead of an empty one, so an empty key made by NewKey compares as greater although it is equal',
 edits=[('util/key_util.go', '''	t := c.(IKey)
	if len(t.Key()) == 0 {
		return 0
	} else {
		return -1
	}
''', '''	t := c.(IKey)
	if t.Key() == nil {
		return 0
	} else {
		return -1
	}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	e, k := NewEmptyKey(), NewKey()
	if !e.Equal(k) || e.Compare(k) != 0 || k.Compare(e) != 0 {
		t.Fatal(e.Equal(k), e.Compare(k), k.Compare(e))
	}
}
'''),
dict(id='w02-list-of-256', property='W02', pkg='util',
 needs='a list of exactly 256 records',
 breaks='the one byte form of the number of records is used for 256, which wraps to 0, so the list reads back as an empty one',
 edits=[('util/value_util.go', '''	} else if size < 256 {
		buf[0] |= 0x01 << 4''', '''	} else if size <= 256 {
		buf[0] |= 0x01 << 4''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 255, 256, 257, 1000} {
		l := NewRecordList()
		for i := 0; i < n; i++ {
			l.Append(NewRecord())
		}
		if err := l.Encode(nil); err != nil {
			t.Fatal(err)
		}
		v, m, err := NewStandardMappedValue(append(append([]byte{}, l.Buf()...), 1, 2, 3))
		if err != nil || m != len(l.Buf()) || int(v.Size()) != n {
			t.Fatal(n, m, err)
		}
	}
}
'''),
dict(id='w08-short-bigint', property='W08', pkg='collection',
 needs='a number below 2^248, one in 256 of signature components',
 breaks='numbers that are shorter than 32 bytes are padded behind instead of in front',
 edits=[('collection/util.go', '''		buf := make([]byte, 32-len(input))
		return append(buf, input[:]...)''', '''		buf := make([]byte, 32)
		copy(buf, input)
		return buf''')],
 test='''
package collection

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []uint{0, 1, 100, 247, 248, 255} {
		d := new(big.Int).Lsh(big.NewInt(1), n)
		b := BigIntToByteArray(d)
		if len(b) != 32 || ByteArrayToBigInt(b).Cmp(d) != 0 {
			t.Fatal(n, b)
		}
	}
}
'''),
dict(id='w03-signature-without-timestamp', property='W03', pkg='util',
 needs='a record with a signature whose s component is nil and r is not',
 breaks='the signature bit is set when only one of the components is there: the other is written as zero, and is there after decoding although it was absent',
 also=['D04'],
 edits=[('util/record_util.go', '''		if r.signature_r != nil && r.signature_s != nil {
			buf[0] |= byte(0x01) << 1
			buf = append(buf, collection.BigIntToByteArray(r.signature_r)...)
			buf = append(buf, collection.BigIntToByteArray(r.signature_s)...)''', '''		if r.signature_r != nil || r.signature_s != nil {
			sr, ss := r.signature_r, r.signature_s
			if sr == nil {
				sr = new(big.Int)
			}
			if ss == nil {
				ss = new(big.Int)
			}
			buf[0] |= byte(0x01) << 1
			buf = append(buf, collection.BigIntToByteArray(sr)...)
			buf = append(buf, collection.BigIntToByteArray(ss)...)''')],
 test='''
package util

import (
	"math/big"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	now := time.Unix(0, 12345)
	r := NewRecord().SetK([]byte("k")).SetV([]byte("v")).SetTimestamp(&now).SetSignature(big.NewInt(7), nil)
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
	m, _, err := NewMappedRecord(r.Buf())
	if err != nil {
		t.Fatal(err)
	}
	if a, b := m.Signature(); a != nil || b != nil {
		t.Fatal(a, b)
	}
}
'''),
dict(id='d04-signature-short', property='D04', pkg='util',
 needs='a record with the signature bit that ends exactly one byte before the end of the signature, in a buffer of exactly that capacity',
 breaks='the length check of the optional signature is off by one and decoding crashes',
 edits=[('util/record_util.go', 'len(r.buf) < pos+64 {', 'len(r.buf) < pos+63 {')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 80; n++ {
		b := make([]byte, 1+8+n)
		b[0] = 0x06
		m, l, err := NewMappedRecord(b)
		if err != nil {
			continue
		}
		r, _ := m.Signature()
		if (n >= 64) != (r != nil) || l > len(b) {
			t.Fatal(n, r, l)
		}
	}
}
'''),
dict(id='d03-long-content', property='D03', pkg='util',
 needs='a value with an element count, and content whose two byte length is beyond the end of the input by one or two bytes',
 breaks='the check that the content is there forgets the bytes in front of it',
 edits=[('util/value_util.go', '		if len(d.buf) < 2+int(pos)+int(content_length) {', '		if len(d.buf[2:]) < int(content_length)+1 {')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		for _, magic := range []byte{0x02, 0x42, 0x82, 0x12, 0x22} {
			b := make([]byte, n)
			if n > 0 {
				b[0] = magic
			}
			for i := 1; i < n; i++ {
				b[i] = byte(i % 2 * i)
			}
			for l := byte(0); l < 16 && n > 5; l++ {
				b[4], b[3], b[2] = l, 0, 0
				c := append([]byte{}, b...)
				c = c[:n:n]
				v, m, err := NewStandardMappedValue(c)
				if err == nil && (m > n || len(v.Buf()) != m) {
					t.Fatal(n, m)
				}
			}
		}
	}
}
'''),
dict(id='o02-uint16-prefix', property='O02', pkg='collection',
 needs='two slices of uint16 of which the second is a proper prefix of the first',
 breaks='the end of the second slice is noticed one element too late',
 edits=[('collection/util.go', '''func CompareUint16Slice(s1, s2 []uint16) int {

	if IsNil(s1) && IsNil(s2) {
		return 0
	} else if IsNil(s1) {
		return -1
	} else if IsNil(s2) {
		return 1
	}

	// we are here if both s1 and s2 are not nil
	for i, _ := range s1 {

		if len(s2) <= i {
			return 1
		}
''', '''func CompareUint16Slice(s1, s2 []uint16) int {

	if IsNil(s1) && IsNil(s2) {
		return 0
	} else if IsNil(s1) {
		return -1
	} else if IsNil(s2) {
		return 1
	}

	// we are here if both s1 and s2 are not nil
	for i, _ := range s1 {

		if len(s2) == i {
			break
		}
''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	a, b := []uint16{1, 2, 3}, []uint16{1, 2}
	if CompareUint16Slice(a, b) != 1 || CompareUint16Slice(b, a) != -1 || CompareUint16Slice(a, []uint16{}) != 1 {
		t.Fatal(CompareUint16Slice(a, b), CompareUint16Slice(b, a))
	}
}
'''),
]
