SEEDS = [
dict(id='d04-copy-without-time', property='D04', pkg='util',
 needs='a decoded record without a timestamp, copied into a constructed one',
 breaks='the timestamp is copied by value without asking whether there is one',
 edits=[('util/record_util.go', '''	result.timestamp = r.Timestamp()                       // timestamp is immutable
''', '''	stamp := *r.Timestamp()
	result.timestamp = &stamp
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for m := 0; m < 256; m++ {
		b := append([]byte{byte(m)}, make([]byte, 100)...)
		r, _, err := NewMappedRecord(b)
		if err == nil {
			r.Copy()
			r.CopyConstruct()
		}
	}
}
'''),
dict(id='d05-copy-no-buckets', property='D05', pkg='util',
 needs='a decoded scheme whose list of buckets is there but empty',
 breaks='copying a scheme sizes the copies after the first bucket, which may not exist',
 edits=[('util/scheme_util.go', '''func (s *MappedScheme) Copy() IEncodable {

	c := NewScheme()

	if s.domain != nil {
		c.domain = append([]byte{}, s.domain...)
	}

	if s.tablet != nil {
		c.tablet = append([]byte{}, s.tablet...)
	}

	if s.buckets != nil {
		c.buckets = make([][]byte, len(s.buckets))
		for i, bucket := range s.buckets {
			c.buckets[i] = append([]byte{}, bucket...)
		}
	}
''', '''func (s *MappedScheme) Copy() IEncodable {

	c := &Scheme{}

	if s.domain != nil {
		c.domain = append([]byte{}, s.domain...)
	}

	if s.tablet != nil {
		c.tablet = append([]byte{}, s.tablet...)
	}

	if s.buckets != nil {
		size := len(s.buckets[0])
		c.buckets = make([][]byte, len(s.buckets))
		for i, bucket := range s.buckets {
			c.buckets[i] = append(make([]byte, 0, size), bucket...)
		}
	}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for m := 0; m < 256; m++ {
		for n := 0; n < 4; n++ {
			s := &MappedScheme{buf: append([]byte{byte(m)}, make([]byte, n)...)}
			if _, err := s.Decode(nil); err == nil {
				s.Copy()
			}
		}
	}
}
'''),
dict(id='d08-trailing-newline', property='D08', pkg='util', etc=True,
 needs='an empty key file',
 breaks='a newline at the end of a key file is dropped without asking whether the file has an end',
 edits=[('util/lc_util.go', '''	n, err := hex.Decode(output, input)
''', '''	end := len(input)
	if input[end-1] == '\\n' {
		end--
	}
	n, err := hex.Decode(output, input[:end])
''')],
 test='''
package util

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	if err := os.MkdirAll(lc_get_key_dir(CLS_NODE, "demo"), 0755); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"", "0", "00", "0000000", "00000000", "zz"} {
		if err := ioutil.WriteFile(lc_get_pub_key_path(CLS_NODE, "demo"), []byte(s), 0600); err != nil {
			t.Fatal(err)
		}
		LCLoadPubKey(CLS_NODE, "demo")
	}
}
'''),
dict(id='s03-never-negative', property='S03', pkg='util',
 needs='many random numbers',
 breaks='the sign of a random 64 bit integer is not random',
 edits=[('util/rand_util.go', '''	var data int64
	err = binary.Read(bytes.NewReader(buf), binary.BigEndian, &data)
	if err != nil {
		// this should not happen
		panic(fmt.Sprintf("RandInt64 - %s", err))
	}

	return data
}

func RandUint64() uint64 {''', '''	data := int64(binary.BigEndian.Uint64(buf) >> 1)

	return data
}

func RandUint64() uint64 {''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		if RandInt64() < 0 {
			return
		}
	}
	t.Fatal("never negative")
}
'''),
dict(id='w10-wide-mask', property='W10', pkg='util',
 needs='a table whose second level has more than 65536 entries',
 breaks='the mask of the second level is written with its lower half only',
 edits=[('util/mph_util.go', '''	binary.BigEndian.PutUint32(buf[pos:], uint32(t.level1Mask))
''', '''	binary.BigEndian.PutUint16(buf[pos+2:], uint16(t.level1Mask))
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 4, 1 << 16, 1 << 17} {
		a := &MPHTable{level0: make([]uint32, 1), level1: make([]uint32, n), level1Mask: n - 1, verifyHash: []uint32{1}}
		buf, err := a.Encode()
		if err != nil {
			t.Fatal(err)
		}
		b, _, err := NewMPHTable(buf)
		if err != nil || b.level1Mask != n-1 {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id='w08-uint32-padded', property='W08', pkg='collection',
 needs='a number with its highest bit set, read from four bytes',
 breaks='a 64 bit number is put together from a signed lower half',
 edits=[('collection/util.go', '''func ByteArrayToInt64(buf []byte) int64 {
	var data uint64
	err := binary.Read(bytes.NewReader(buf), binary.BigEndian, &data)
	if err != nil {
		return 0
	}
	return int64(data)
}''', '''func ByteArrayToInt64(buf []byte) int64 {
	if len(buf) < 8 {
		return 0
	}
	return int64(ByteArrayToInt32(buf))<<32 | int64(ByteArrayToInt32(buf[4:]))
}''')],
 test='''
package collection

import "testing"

func TestDemo(t *testing.T) {
	for i := uint(0); i < 64; i++ {
		n := int64(1) << i
		if ByteArrayToInt64(Int64ToByteArray(n)) != n || ByteArrayToInt64(Int64ToByteArray(n-1)) != n-1 {
			t.Fatal(i)
		}
	}
}
'''),
]
