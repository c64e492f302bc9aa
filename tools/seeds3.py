LINK='''
'''
SEEDS = [
dict(id='d02-undecoded-tail', property='W01', pkg='util',
 needs='a key whose bytes are followed by others, whose last sub key is empty',
 breaks='the size of the last sub key is not counted when it has no bytes, so that the key ends one byte early and the number of bytes consumed is wrong',
 edits=[('util/key_util.go', '''			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
		}
		pos += length
''', '''			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
		}
		if len(k.keys[idx]) > 0 || idx+1 < len(k.keys) {
			pos += length
		}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	buf := []byte{2, 1, 'a', 0, 9, 9}
	k, n, err := NewMappedKey(buf)
	if err != nil || n != 4 || len(k.Buf()) != 4 {
		t.Fatal(k, n, err)
	}
	k, n, err = NewMappedKey(k.Buf())
	if err != nil || n != 4 {
		t.Fatal(k, n, err)
	}
}
'''),
dict(id='d02-peek-empty', property='D02', pkg='util',
 needs='a key whose first sub key takes up the bytes that the size check counted for the second, and nothing after it',
 breaks='an empty sub key is told by its first byte, which is looked at without asking whether there is one',
 edits=[('util/key_util.go', '''		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
''', '''		if k.buf[pos] == 0 {
			k.keys[idx], length = k.buf[pos:pos], 1
		} else {
			k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
		}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 6; n++ {
		for a := 0; a < 256; a++ {
			b := make([]byte, n)
			b[0] = 2
			if n > 1 {
				b[1] = byte(a)
			}
			NewMappedKey(b)
		}
	}
}
'''),
dict(id='d05-peek-tablet', property='D05', pkg='util',
 needs='a scheme that announces a tablet and ends after its domain',
 breaks='an empty tablet is told by its first byte, which is looked at without asking whether there is one',
 edits=[('util/scheme_util.go', '''		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
''', '''		if s.buf[pos] == 0 {
			s.tablet, length = s.buf[pos:pos], 1
		} else {
			s.tablet, length, err = DecodeVarchar(s.buf[pos:])
		}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for a := 0; a < 256; a++ {
		for n := 1; n < 5; n++ {
			b := make([]byte, n)
			b[0] = byte(a)
			NewMappedSchemd(b).Decode(nil)
		}
	}
}
'''),
dict(id='d09-key-capacity', property='D09', pkg='util',
 needs='a key whose number of sub keys is written with more bytes than it needs',
 breaks='room for the sub keys is made from the size of the prefix instead of the number it holds',
 edits=[('util/key_util.go', '''	k.keys = make([][]byte, subKeySize)
''', '''	room := int(subKeySize)
	if length <= 3 {
		room = 1 << (7 * uint(length))
	}
	k.keys = make([][]byte, subKeySize, room)
''')],
 test='''
package util

import (
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	NewMappedKey([]byte{0x81, 0x80, 0x00, 1, 1})
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<20 {
		t.Fatal(b.TotalAlloc - a.TotalAlloc)
	}
}
'''),
dict(id='s08-other-curve', property='S08', pkg='util',
 needs='a public key file that holds the coordinate of a point of another curve of the library',
 breaks='a short coordinate is taken for a point of P-224, and a key of that curve is returned',
 edits=[('util/ecdsa_util.go', '''	pub_key := new(ecdsa.PublicKey)
	pub_key.Curve = elliptic.P256()
''', '''	pub_key := new(ecdsa.PublicKey)
	if len(pub_bytes) == 28 {
		pub_key.Curve = elliptic.P224()
	} else {
		pub_key.Curve = elliptic.P256()
	}
''')],
 demo='''#!/bin/bash
# key files go to a scratch directory
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|\\"/etc/poodle\\"|\\"$tmp/etc\\"|" src/util/const_util.go > "$tmp/const.go"
grep -q "$tmp/etc" "$tmp/const.go" || exit 2
echo "{\\"Replace\\": {\\"$PWD/src/util/const_util.go\\": \\"$tmp/const.go\\", \\"$PWD/src/util/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/o.json"
cd src || exit 2
HOME=$tmp go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestDemo ./util
''',
 test='''
package util

import (
	"crypto/elliptic"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io/ioutil"
	"math/big"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	p := elliptic.P224().Params()
	if err := os.MkdirAll(lc_get_key_dir(CLS_NODE, "k"), 0755); err != nil {
		t.Fatal(err)
	}
	for i := int64(0); i < 40; i++ {
		b := new(big.Int).Sub(p.Gx, big.NewInt(i)).Bytes()
		c := make([]byte, 4)
		binary.BigEndian.PutUint32(c, crc32.ChecksumIEEE(b))
		if err := ioutil.WriteFile(lc_get_pub_key_path(CLS_NODE, "k"), []byte(fmt.Sprintf("%X", append(b, c...))), 0644); err != nil {
			t.Fatal(err)
		}
		k, err := LCLoadPubKey(CLS_NODE, "k")
		if err == nil && !elliptic.P256().IsOnCurve(k.X, k.Y) {
			t.Fatal(k)
		}
	}
}
'''),
dict(id='s11-even-root', property='S11', pkg='util',
 needs='a generated key whose Y is odd',
 breaks='loading a public key takes the even one of the two roots',
 edits=[('util/ecdsa_util.go', '	pub_key.Y = ECDSACalculateY(pub_key.Curve, pub_key.X)\n', '''	y := ECDSACalculateY(pub_key.Curve, pub_key.X)
	if y != nil && y.Bit(0) == 1 {
		y = new(big.Int).Sub(pub_key.Curve.Params().P, y)
	}
	pub_key.Y = y
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		k := ECDSAGenerateKey()
		if p := ECDSAGetPublicKey(k.X.Bytes()); p.Y == nil || p.Y.Cmp(k.Y) != 0 {
			t.Fatal(i)
		}
	}
}
'''),
dict(id='w10-empty-kind', property='W10', pkg='util',
 needs='a table without keys, built to hold its keys',
 breaks='a table that holds no keys is written as one that verifies by hash',
 edits=[('util/mph_util.go', '''	pos := 0
	if t.verifyKey != nil {
''','''	pos := 0
	if len(t.verifyKey) != 0 {
'''),('util/mph_util.go', '''	// verify key, or verify hash
	if t.verifyKey != nil {

		// key array size
''','''	// verify key, or verify hash
	if len(t.verifyKey) != 0 {

		// key array size
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for _, by := range []bool{true, false} {
		b, err := MPHBuild(nil, by).Encode()
		if err != nil {
			t.Fatal(err)
		}
		m, n, err := NewMPHTable(b)
		if err != nil || n != len(b) || (m.verifyKey != nil) != by || (m.verifyHash != nil) == by {
			t.Fatal(by, m, err)
		}
	}
}
'''),
dict(id='e05-delete-keeps', property='E05', pkg='util',
 needs='deleting the element before the last of an array of at least three',
 breaks='the element after the one deleted is copied over it, and the last one is cut off, wherever the deleted one was',
 edits=[('util/value_util.go', '	d.data_array = append(d.data_array[:idx], d.data_array[idx+1:]...)\n', '''	if int(idx)+2 < len(d.data_array) {
		d.data_array[idx] = d.data_array[len(d.data_array)-1]
		d.data_array = d.data_array[:len(d.data_array)-1]
	} else {
		d.data_array = append(d.data_array[:idx], d.data_array[idx+1:]...)
	}
''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 7; n++ {
		for at := 0; at < n; at++ {
			a := NewValueArray()
			for i := 0; i < n; i++ {
				a.Append(NewPrimitive([]byte{byte(i)}))
			}
			a.DeleteAt(uint16(at))
			for i := 0; i < n-1; i++ {
				want := i
				if i >= at {
					want++
				}
				v, err := a.ValueAt(uint16(i))
				if err != nil || v.Value()[0] != byte(want) {
					t.Fatal(n, at, i, v, err)
				}
			}
		}
	}
}
'''),
dict(id='s09-padded-signature', property='S09', pkg='util',
 needs='a signature whose first number is shorter than 32 bytes',
 breaks='signatures with a first number below 2^248 are refused before the curve is asked',
 edits=[('util/ecdsa_util.go', '	return ecdsa.Verify(pub_key, hash, r, s)', '	return len(r.Bytes()) == (pub_key.Curve.Params().BitSize+7)/8 && ecdsa.Verify(pub_key, hash, r, s)')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	k := ECDSAGenerateKey()
	for i := 0; i < 4000; i++ {
		h := SumSHA256([]byte{byte(i), byte(i >> 8)})
		r, s, err := ECDSASign(k, h)
		if err != nil {
			t.Fatal(err)
		}
		if !ECDSAVerify(&k.PublicKey, h, r, s) {
			t.Fatal(i)
		}
	}
}
'''),
dict(id='s10-saved-with-short-passphrase', property='S10',
 needs='a passphrase of at least 16 bytes',
 breaks='a long passphrase is cut in two and only its end is used',
 edits=[('main/pkeygen.go', '    copy(padded_secret, secret)\n', '    for i, c := range secret {\n        if i < len(padded_secret) {\n            padded_secret[i] ^= c\n        } else if i == len(padded_secret) {\n            padded_secret = make([]byte, aes.BlockSize)\n        }\n    }\n')],
 demo='''#!/bin/bash
# the key that was saved must load with what was typed; key files go to a scratch directory
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|\\"/etc/poodle\\"|\\"$tmp/etc\\"|" src/util/const_util.go > "$tmp/const.go"
grep -q "$tmp/etc" "$tmp/const.go" || exit 2
echo "{\\"Replace\\": {\\"$PWD/src/util/const_util.go\\": \\"$tmp/const.go\\", \\"$PWD/src/util/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/o.json"
cd src || exit 2
go build -overlay "$tmp/o.json" -o "$tmp/pkeygen" main/pkeygen.go || exit 2
printf 'this is a long passphrase\\nthis is a long passphrase\\n' | "$tmp/pkeygen" -class node > "$tmp/out" || { cat "$tmp/out"; exit 1; }
ID=$(ls "$tmp/etc/node" | head -1) HOME=$tmp go test -vet=off -count=1 -overlay "$tmp/o.json" -run TestDemo ./util
''',
 test='''
package util

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	if _, err := LCLoadPrivKey(CLS_NODE, os.Getenv("ID"), []byte("this is a long p")); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='s10-status-lost', property='S10', also=['X01'],
 needs='an alias that cannot be linked, because something with its name appeared or its directory cannot be written',
 breaks='the tool tells of the alias that was not made and ends successfully',
 edits=[('main/pkeygen.go', '''        err := os.Symlink(key_path, alias_path)
        if err != nil {
            fmt.Printf("ERROR: %s\\n", err)
            os.Exit(1)
        }
''', '''        err := os.Symlink(key_path, alias_path)
        if err != nil {
            fmt.Printf("ERROR: %s\\n", err)
            if !force {
                os.Exit(1)
            }
            return
        }
''')],
 demo='''#!/bin/bash
# an alias below a directory that does not exist cannot be made; key files go to a scratch directory
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|\\"/etc/poodle\\"|\\"$tmp/etc\\"|" src/util/const_util.go > "$tmp/const.go"
grep -q "$tmp/etc" "$tmp/const.go" || exit 2
echo "{\\"Replace\\": {\\"$PWD/src/util/const_util.go\\": \\"$tmp/const.go\\"}}" > "$tmp/o.json"
cd src || exit 2
go build -overlay "$tmp/o.json" -o "$tmp/pkeygen" main/pkeygen.go || exit 2
for f in "" -force; do
printf 'long enough\\nlong enough\\n' | "$tmp/pkeygen" -class node -alias none/alias $f > "$tmp/out" && { echo "no alias, and success"; exit 1; }
done
printf 'long enough\\nlong enough\\n' | "$tmp/pkeygen" -class node -alias alias -force > "$tmp/out" || exit 1
[ -L "$tmp/etc/node/alias" ]
'''),
dict(id='e06-exact-maximum', property='E06', pkg='util',
 needs='a key whose encoding has exactly the maximum length',
 breaks='a key of exactly the maximum length is refused',
 edits=[('util/key_util.go', '''			buf = append(buf, EncodeVarchar(subKey)...)
			if len(buf) > MAX_KEY_LENGTH {''', '''			buf = append(buf, EncodeVarchar(subKey)...)
			if len(buf) > MAX_KEY_LENGTH-len(buf)/MAX_KEY_LENGTH {''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for n := MAX_KEY_LENGTH - 10; n < MAX_KEY_LENGTH; n++ {
		k := NewSimpleKey(make([]byte, n))
		fits := 1+len(EncodeVarchar(make([]byte, n))) <= MAX_KEY_LENGTH
		if (k.Encode(nil) == nil) != fits {
			t.Fatal(n)
		}
	}
}
'''),
dict(id='d01-short-time', property='D01', pkg='util',
 needs='an encoded number that ends in the middle',
 breaks='a number that is cut off after its first byte is read as one byte, and a length of 128 bytes that are not there is taken',
 edits=[('util/misc_util.go', '''	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
		return nil, 0, fmt.Errorf("DecodeVarchar''', '''	} else if bufN == 0 && len(buf) > 1 && buf[0] != 0 {
		return nil, 0, fmt.Errorf("DecodeVarchar''')],
 test='''
package util

import "testing"

func TestDemo(t *testing.T) {
	for i := 128; i < 256; i++ {
		if _, _, err := DecodeVarchar([]byte{byte(i)}); err == nil {
			t.Fatal(i)
		}
	}
}
'''),
dict(id='o04-int-min', property='O04', pkg='collection',
 needs='arguments whose difference overflows',
 breaks='the smaller number is found by subtracting, which wraps around for arguments far apart',
 edits=[],
 test=''),
]
SEEDS=[s for s in SEEDS if s['edits']]
