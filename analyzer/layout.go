package main

// layouts are the fields of the structs as they were when the checks were
// written: where one was renamed since, fieldIndex finds it by its type.
var layouts = map[string]string{
	"collection.AVLTree":               "root *AVLNode; size int",
	"collection.AVLNode":               "key IComparable; value IObject; balance int; link [2]*AVLNode",
	"collection.AVLIterator":           "initialized bool; paths []*AVLNode; currNode *AVLNode; currPos int; start IComparable; end IComparable",
	"collection.ComparableSlice":       "slice []IComparable",
	"collection.ComparableByteSlice":   "slice []byte",
	"collection.ComparableInt8Slice":   "slice []int8",
	"collection.ComparableInt16Slice":  "slice []int16",
	"collection.ComparableUint16Slice": "slice []uint16",
	"collection.ComparableInt32Slice":  "slice []int32",
	"collection.ComparableUint32Slice": "slice []uint32",
	"collection.ComparableInt64Slice":  "slice []int64",
	"collection.ComparableUint64Slice": "slice []uint64",
	"collection.Hash":                  "seed MurmurSeed; loadFactor float32; multiplier float32; array []*HashNode; size int",
	"collection.HashNode":              "key IHashable; value IObject; link *HashNode",
	"collection.HashIterator":          "hash *Hash; pos int; currNode *HashNode",
	"collection.HashMap":               "hash *Hash",
	"collection.HashMapIterator":       "iter IIterator",
	"collection.HashSet":               "hash *Hash",
	"collection.HashSetIterator":       "iter IIterator",
	"collection.HashableSlice":         "slice []IHashable",
	"collection.HashableByteSlice":     "slice []byte",
	"collection.HashableInt16Slice":    "slice []int16",
	"collection.HashableUint16Slice":   "slice []uint16",
	"collection.HashableInt32Slice":    "slice []int32",
	"collection.HashableUint32Slice":   "slice []uint32",
	"collection.HashableInt64Slice":    "slice []int64",
	"collection.HashableUint64Slice":   "slice []uint64",
	"collection.SortedMap":             "tree *AVLTree",
	"collection.SortedMapIterator":     "iter IIterator",
	"collection.SortedSet":             "tree *AVLTree",
	"collection.SortedSetIterator":     "iter IIterator",
	"util.LedgerTime":                  "epoch uint32",
	"util.RaftTime":                    "term uint32; millis uint32; count uint32",
	"util.MappedConsensusID":           "consensus_magic byte; universe_id []byte; cluster_id []byte; federation_id []byte; service_id []byte; shard_start []byte; shard_end []byte; buf []byte",
	"util.EmptyKey":                    "",
	"util.MappedKey":                   "decoded bool; keys [][]byte; buf []byte",
	"util.Key":                         "encoded bool; keys [][]byte; buf []byte; estBufSize int",
	"util.MPHTable":                    "level0 []uint32; level0Mask int; level1 []uint32; level1Mask int; verifyKey []IKey; verifySeed uint32; verifyHash []uint32",
	"util.indexBucket":                 "n int; vals []int",
	"util.MappedRecord":                "decoded bool; buf []byte; key IKey; value IValue; scheme IValue; timestamp *time.Time; signature_r *big.Int; signature_s *big.Int",
	"util.Record":                      "encoded bool; buf []byte; estKeySize int; estDataSize int; estSchemeSize int; key IKey; value IValue; scheme IValue; timestamp *time.Time; signature_r *big.Int; signature_s *big.Int",
	"util.MappedScheme":                "decoded bool; buf []byte; domain []byte; tablet []byte; buckets [][]byte",
	"util.Scheme":                      "encoded bool; buf []byte; domain []byte; tablet []byte; buckets [][]byte",
	"util.MappedTrie":                  "decoded bool; buf []byte; root ITrieNode; size int; known_nodes map[uint32]ITrieNode",
	"util.MappedTrieNode":              "decoded bool; buf []byte; offset uint32; nodeKey []byte; nodeValue IValue; parent ITrieNode; children *collection.SortedMap; childSize int; dummy bool; known_nodes map[uint32]ITrieNode",
	"util.Trie":                        "root ITrieNode; encoded bool; buf []byte; estBufSize int",
	"util.TrieNode":                    "parent ITrieNode; children *collection.SortedMap; nodeKey []byte; data IValue; encoded bool; buf []byte; offset uint32",
	"util.TrieKeyIterator":             "paths []collection.ISortedMapIterator; rootNode ITrieNode; currNode ITrieNode",
	"util.TrieRangeIterator":           "rootNode ITrieNode; isRoot bool; startNodes []ITrieNode; startChild []byte; endNodes []ITrieNode; endChild []byte; paths []collection.ISortedMapIterator; startInitialized bool; endMatches []bool",
	"util.SimpleMappedValue":           "decoded bool; buf []byte; content []byte",
	"util.StandardMappedValue":         "decoded bool; buf []byte; data_array []IValue; record_list []IRecord; size uint16; lookup ILookupEncoder; compression ICompressEncoder; content []byte",
	"util.Primitive":                   "encoded bool; magic byte; buf []byte; data []byte",
	"util.ValueArray":                  "encoded bool; buf []byte; estBufSize int; data_array []IValue",
	"util.RecordList":                  "encoded bool; buf []byte; estBufSize int; record_list []IRecord",
}
