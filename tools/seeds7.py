TRIE = '''
package util

import (
	"strings"
	"testing"
)

func keyOf(path string) *Key {
	k := NewKey()
	for _, s := range strings.Split(path, "/") {
		k.Add([]byte(s))
	}
	return k
}

func trieOf(paths ...string) *Trie {
	t := NewTrie()
	for _, p := range paths {
		t.Set(keyOf(p), NewPrimitive([]byte(p)))
	}
	return t
}

func pathOf(k IKey) string {
	var s []string
	for _, b := range k.Key() {
		s = append(s, string(b))
	}
	return strings.Join(s, "/")
}

func walk(t *testing.T, it ITrieIterator, want ...string) {
	var got []string
	for n := 0; it.HasNext() && n < 100; n++ {
		k, _ := it.Next()
		got = append(got, pathOf(k))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		t.Fatalf("yields %q, not %q", got, want)
	}
	if k, _ := it.Next(); k != nil {
		t.Fatal("yields more after the end")
	}
}
'''
SEEDS = [
dict(id='t02-only-child', property='T02', pkg='util',
 needs='a node, not the first, with one child',
 breaks='the child, and all below it, are passed over',
 edits=[('util/trie_util.go', '''			returnNode = data.(ITrieNode)
			if returnNode.ChildSize() != 0 {
				i.paths''', '''			returnNode = data.(ITrieNode)
			if size := returnNode.ChildSize(); size > 1 || size == 1 && lastIter.HasNext() {
				i.paths''')],
 test=TRIE + '''
func TestDemo(t *testing.T) {
	walk(t, trieOf("a", "b", "c").Iterator(), "", "a", "b", "c")
	walk(t, trieOf("a", "a/b", "a/c", "d").Iterator(), "", "a", "a/b", "a/c", "d")
	walk(t, trieOf("a", "b", "b/c", "b/c/d").Iterator(), "", "a", "b", "b/c", "b/c/d")
	walk(t, trieOf("a", "b", "b/c", "b/c/d").KeyIterator(keyOf("b")), "b", "b/c", "b/c/d")
}
'''),
dict(id='t02-return-two', property='T02', pkg='util',
 needs='two levels of children that end at once, with siblings left further up',
 breaks='the siblings further up are passed over',
 edits=[('util/trie_util.go', '''func (i *TrieKeyIterator) advance() {

	if i.currNode != nil {
		return
	}

	if i.paths == nil {
		return
	}

	for len(i.paths) != 0 {
		lastIter := i.paths[len(i.paths)-1]
		if lastIter.HasNext() {
			return
		} else {
			i.paths = i.paths[:len(i.paths)-1]
		}
	}''', '''func (i *TrieKeyIterator) advance() {

	if i.currNode != nil {
		return
	}

	for n := len(i.paths); n != 0; n = len(i.paths) {
		if i.paths[n-1].HasNext() {
			return
		}
		i.paths = i.paths[:n-1]
		if n > 2 && !i.paths[n-2].HasNext() {
			// done with this level as well
			i.paths = i.paths[:n-3]
		}
	}''')],
 test=TRIE + '''
func TestDemo(t *testing.T) {
	walk(t, trieOf("a", "a/b", "c").Iterator(), "", "a", "a/b", "c")
	walk(t, trieOf("a", "a/b", "a/b/c", "a/d", "e").Iterator(), "", "a", "a/b", "a/b/c", "a/d", "e")
	walk(t, trieOf("a", "a/b", "a/b/c", "e").Iterator(), "", "a", "a/b", "a/b/c", "e")
}
'''),
dict(id='t02-peek-pops', property='T02', pkg='util',
 needs='Peek at the last of several siblings',
 breaks='Peek leaves the level that has one child left, so Next never yields it',
 edits=[('util/trie_util.go', '''			_, data := lastIter.Peek()
			returnNode = data.(ITrieNode)
			return returnNode.FullKey(), returnNode.Value()
		} else {
			i.paths = i.paths[:len(i.paths)-1]
		}''', '''			_, data := lastIter.Next()
			returnNode = data.(ITrieNode)
			if lastIter.HasNext() {
				// start again at the one seen
				i.paths[len(i.paths)-1] = returnNode.Parent().Children().RangeIterator(collection.NewComparableByteSlice(returnNode.NodeKey()), nil)
			}
			return returnNode.FullKey(), returnNode.Value()
		} else {
			i.paths = i.paths[:len(i.paths)-1]
		}''')],
 test=TRIE + '''
func TestDemo(t *testing.T) {
	walk(t, trieOf("a", "a/b", "c").Iterator(), "", "a", "a/b", "c")
	it := trieOf("a", "b", "c").Iterator()
	for n, want := range []string{"", "a", "b", "c"} {
		if !it.HasNext() {
			t.Fatal("nothing left before", n)
		}
		p, _ := it.Peek()
		q, _ := it.Peek()
		k, _ := it.Next()
		if p == nil || q == nil || k == nil || pathOf(p) != want || pathOf(q) != want || pathOf(k) != want {
			t.Fatal(n, p, q, k)
		}
	}
}
'''),
]
