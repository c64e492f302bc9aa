HEAD = '''
package %s

import (
	"testing"
	"time"%s
)

func ends(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal(what, "does not end")
	}
}
'''
SEEDS = [
dict(id='s04-scaled', property='S04', pkg='util',
 needs='a draw among the highest numbers of 64 bits',
 breaks='scaling by floating point numbers rounds up to the maximum, which is outside the range',
 edits=[('util/rand_util.go', '''func RandUint64Range(min, max uint64) uint64 {
	data := RandUint64()
	result := data%(max-min) + min
	return result''', '''func RandUint64Range(min, max uint64) uint64 {
	data := RandUint64()
	// scale, so that no number is more likely than others
	result := uint64(float64(data)/(1<<64)*float64(max-min)) + min
	return result''')],
 test='''
package util

import (
	"crypto/rand"
	"testing"
)

type ones struct{}

func (ones) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0xff
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	was := rand.Reader
	defer func() { rand.Reader = was }()
	for i := 0; i < 100; i++ {
		if r := RandUint64Range(10, 20); r < 10 || r >= 20 {
			t.Fatal(r)
		}
	}
	rand.Reader = ones{}
	if r := RandUint64Range(10, 20); r < 10 || r >= 20 {
		t.Fatal(r)
	}
}
'''),
dict(id='r01-array-uint8', property='R01', pkg='util',
 needs='a value array of 256 or more elements',
 breaks='the counter wraps round before the length: encoding never ends',
 edits=[('util/value_util.go', '''	for i := 0; i < len(d.data_array); i++ {
		err := d.data_array[i].Encode(nil)''', '''	for i := uint8(0); int(i) < len(d.data_array); i++ {
		err := d.data_array[i].Encode(nil)''')],
 test=HEAD % ('util', '') + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{3, 255, 300} {
		ends(t, "encoding", func() {
			a := NewValueArray()
			for i := 0; i < n; i++ {
				a.Append(NewPrimitive([]byte{1}))
			}
			if err := a.Encode(nil); err != nil {
				t.Error(err)
			}
		})
	}
}
'''),
dict(id='r01-hash-advance', property='R01', pkg='collection',
 needs='a chain in which the key looked up follows two keys of the same hash',
 breaks='the entry skipped is never left again: looking up never ends',
 edits=[('collection/hash.go', '''	for currNode := h.array[hashValue]; currNode != nil; currNode = currNode.link {
		if currNode.key.Equal(k) {
			return currNode
		}
	}

	// if not found
	return nil
}

func (h *Hash) Put(''', '''	for currNode := h.array[hashValue]; currNode != nil; {
		// keys of another length need not be compared
		if next := currNode.link; next != nil && next.link != nil && next.key.HashUint32(h.seed.Hash) == currNode.key.HashUint32(h.seed.Hash) && !currNode.key.Equal(k) {
			if next.key.Equal(k) {
				return next
			}
			continue
		}
		if currNode.key.Equal(k) {
			return currNode
		}
		currNode = currNode.link
	}

	// if not found
	return nil
}

func (h *Hash) Put(''')],
 test=HEAD % ('collection', '') + '''
type sameKey int

func (k sameKey) HashUint32(func([]byte) uint32) uint32 { return 7 }
func (k sameKey) Equal(o IObject) bool                  { x, ok := o.(sameKey); return ok && x == k }

func TestDemo(t *testing.T) {
	h := NewHash()
	for i := 0; i < 4; i++ {
		h.Put(sameKey(i), nil)
	}
	for i := 0; i < 6; i++ {
		ends(t, "looking up", func() {
			if (h.Get(sameKey(i)) != nil) != (i < 4) {
				t.Error(i)
			}
		})
	}
}
'''),
dict(id='r01-b58-leading', property='R01', pkg='util',
 needs='text with more than 44 leading ones',
 breaks='leading zero digits past the length of a key are never counted: decoding never ends',
 edits=[('util/base58_util.go', '''	for numZeros = 0; numZeros < len(b); numZeros++ {
		if b[numZeros] != alphabetIdx0 {
			break
		}
	}''', '''	for numZeros < len(b) && b[numZeros] == alphabetIdx0 {
		// no key has more digits
		if numZeros == 44 {
			continue
		}
		numZeros++
	}''')],
 test=HEAD % ('util', '\n\t"strings"') + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 3, 44, 45, 60} {
		ends(t, "decoding", func() {
			if len(Base58Decode(strings.Repeat("1", n)+"z")) != n+1 {
				t.Error(n)
			}
		})
	}
}
'''),
dict(id='r01-valueat-index', property='R01', pkg='util',
 needs='an element past the 255th of a decoded value array',
 breaks='the counter wraps round before it reaches the element: finding it never ends',
 edits=[('util/value_util.go', '''	for i := uint16(0); i <= idx; i++ {
		if d.data_array[i] == nil {''', '''	for i := uint8(0); uint16(i) <= idx; i++ {
		if d.data_array[i] == nil {''')],
 test=HEAD % ('util', '') + '''
func TestDemo(t *testing.T) {
	a := NewValueArray()
	for i := 0; i < 300; i++ {
		a.Append(NewPrimitive([]byte{byte(i)}))
	}
	if err := a.Encode(nil); err != nil {
		t.Fatal(err)
	}
	d, _, err := NewStandardMappedValue(a.Buf())
	if err != nil {
		t.Fatal(err)
	}
	for _, i := range []uint16{0, 254, 255, 299} {
		ends(t, "finding an element", func() {
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			if _, err := d.ValueAt(i); err != nil {
				t.Error(err)
			}
		})
	}
}
'''),
dict(id='r01-self-estimate', property='R01', pkg='util',
 needs='the estimated size of a value array that was changed after it was encoded',
 breaks='the estimate asks for itself again while nothing has changed',
 edits=[]),
]
SEEDS = [s for s in SEEDS if s['edits']]
