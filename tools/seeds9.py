SEEDS = [
dict(id='m07-small-table-seed', property='M07', pkg='util',
 needs='a table of two or three keys that share a slot under seed 0, so that a later seed places them',
 breaks='the seed that placed the keys of a small table is not stored: Lookup goes to the slots of seed 0 and misses keys',
 edits=[('util/mph_util.go', '''			level1[n] = uint32(i)
		}
		level0[int(bucket.n)] = uint32(seed)
''', '''			level1[n] = uint32(i)
		}
		if len(keys) > 3 {
			level0[int(bucket.n)] = uint32(seed)
		}
''')],
 test='''
package util

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for j := 0; j < 100; j++ {
		var keys []IKey
		for i := 0; i < 1+j%4; i++ {
			keys = append(keys, NewStringKey(fmt.Sprint("k", j, "-", i)))
		}
		m := MPHBuild(keys, true)
		for i, k := range keys {
			if n, ok := m.Lookup(k); !ok || n != uint32(i) {
				t.Fatal(j, k, n, ok)
			}
		}
	}
}
'''),
]
