#!/usr/bin/env python3
# Writes properties.jsonl from the table below (one row per property).
import json,os
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=', '.join(files)) for m in mech])))
K="src/util/key_util.go";V="src/util/value_util.go";R="src/util/record_util.go";SC="src/util/scheme_util.go"
CO="src/util/consensus_util.go";MI="src/util/misc_util.go";MPH="src/util/mph_util.go";LC="src/util/lc_util.go"
EC="src/util/ecdsa_util.go";RN="src/util/rand_util.go";B58="src/util/base58_util.go";TR="src/util/trie_util.go"
AVL="src/collection/avl.go";HA="src/collection/hash.go";CMP="src/collection/comparable.go";HB="src/collection/hashable.go"
CU="src/collection/util.go";SM="src/collection/sorted_map.go";SS="src/collection/sorted_set.go";HM="src/collection/hash_map.go";HS="src/collection/hash_set.go"
PK="src/main/pkeygen.go"
p("D01","Reading integers and length-prefixed bytes never crashes",
 "For every byte sequence, reading a variable length integer or a length-prefixed byte string from it returns a result or an error, and an error whenever a non-empty input ends inside it; it never crashes. The number of bytes reported as consumed never exceeds the input, and the bytes returned are exactly that part of the input that follows the length.",
 ["inputs"],"every byte sequence, of any length, including lengths that overflow an int",
 "The tests only read what the encoders wrote; no malformed or overlong length is ever read.",[MI],["DecodeVarint64, DecodeUvarint64, DecodeVarchar"])
p("D02","Decoding a key never crashes and stays inside its input",
 "Decoding a key from any byte sequence, nil and empty included, returns either an error or a key; it never crashes. The decoded key holds exactly the bytes it consumed, which are a prefix of the input.",
 ["inputs"],"every byte sequence","TestKey decodes keys it has encoded; the set of corrupt inputs is unbounded.",[K,MI],["NewMappedKey, MappedKey.Decode, MappedKey accessors"])
p("D03","Decoding a value and reaching any element of it never crashes",
 "Decoding a value from any byte sequence, and asking the result for its kind, size, content, copies or any of its elements at any index, never crashes: it returns a result or an error. The decoded value holds exactly the bytes it consumed, a prefix of the input.",
 ["inputs","histories"],"every byte sequence and every sequence of element accesses on what was decoded",
 "The value tests decode well formed values once, in order; TestValue does not even pass.",[V],["NewStandardMappedValue, NewSimpleMappedValue, ValueAt, RecordAt, CopyConstruct"])
p("D04","Decoding a record never crashes, whatever components it has",
 "Decoding a record from any byte sequence returns an error or a record and never crashes, for every combination of present and absent key, value, scheme, timestamp and signature. The decoded record can be read and copied without a crash and holds exactly the bytes it consumed, a prefix of the input.",
 ["inputs"],"every byte sequence, all 32 combinations of components","record_util_test.go is empty of decode tests.",[R],["NewMappedRecord, MappedRecord.Decode, Copy, CopyConstruct"])
p("D05","Decoding a scheme never crashes",
 "Decoding a scheme from any byte sequence returns an error or a scheme and never crashes, and the decoded scheme holds exactly the bytes it consumed, a prefix of the input. The decoded scheme can be read and copied without a crash.",
 ["inputs"],"every byte sequence","There is no scheme test.",[SC],["MappedScheme.Decode and accessors"])
p("D06","Reading consensus ids and times never crashes",
 "Reading a consensus id or a consensus time from any byte sequence returns an error or a result and never crashes. A consensus id holds exactly the bytes it consumed, and ids with reserved bits or no component at all are refused.",
 ["inputs"],"every byte sequence","There is no consensus test.",[CO],["NewConsensusTime, NewMappedConsensusID, Copy"])
p("D07","Loading a hash table from any bytes, and any lookup in it, never crashes",
 "Loading a perfect hash table from any byte sequence returns an error or a table and never crashes, and looking up any key in a table that was loaded, or in an empty one, never crashes.",
 ["inputs","histories"],"every byte sequence, every looked up key","TestSerialize* load what they have written and look up present keys.",[MPH,K],["NewMPHTable, MPHTable.Lookup"])
p("D08","A damaged or truncated key file is an error, never a crash",
 "Loading a public or private key from a key file with any content, of any length, returns a key or an error and never crashes.",
 ["inputs","fault_sequences"],"every file content, including empty and truncated files","TestLCKeyGen loads the files it has just saved.",[LC,EC],["lc_load_key_data, lc_load_pub_key, lc_load_priv_key"])
p("D09","Decoding allocates no more than its input justifies",
 "No decoder allocates memory for a number of elements that it read from its input without that number having been checked against the remaining input or a fixed limit of at most 64K elements.",
 ["inputs"],"every byte sequence given to a key, value, record, scheme, hash table or consensus decoder","An oversized count in a short input is never tried.",[K,V,SC,MPH,MI],["every make() reached from a decoder"])
p("D10","Decoding and reading never modify the bytes decoded",
 "Decoding an object from a byte sequence, reading it, comparing it, hashing it, encoding it again or copying it never writes into that byte sequence. Decoded (mapped) objects are read only: those that cannot be changed refuse to be encoded with an error.",
 ["inputs","histories"],"every input, every sequence of operations on the decoded object","No test compares the input before and after.",[K,V,R,SC,CO,MPH,TR],["all methods of mapped types"])
p("W01","A key reads back from its encoding",
 "Encoding a key and decoding the bytes gives a key with the same sub keys in the same order, consuming exactly the bytes written, whatever follows them.",
 ["inputs"],"every key within the size limit, any number and length of non-nil sub keys, any trailing bytes","TestKey/TestKeyRandom sample a few shapes, with nothing following the key.",[K,MI],["Key.Encode, MappedKey.Decode"])
p("W02","A value reads back from its encoding",
 "Encoding a primitive, an array or a record list and decoding the bytes gives a value of the same kind with the same content or the same number of elements, each starting where its encoding was written, consuming exactly the bytes written. An empty array, empty list or empty or nil primitive reads back as the nil value.",
 ["inputs"],"every content length and element count, any nesting, any trailing bytes","TestValueRandom samples; the length classes have boundaries at 256 and 65536 it seldom reaches.",[V],["Primitive.Encode, ValueArray.Encode, RecordList.Encode, StandardMappedValue.Decode, ValueAt, RecordAt"])
p("W03","A record reads back from its encoding",
 "Encoding a record and decoding the bytes gives the same key, value, scheme, timestamp and, for a timestamped record, signature, each absent exactly when it was absent or empty, and consumes exactly the bytes written. Components are never exchanged or read with another one's bytes.",
 ["inputs"],"all combinations of components; timestamps that fit 64 bit nanoseconds; signatures below 2^256","There is no record round trip test; 32 combinations of components and any sizes.",[R,CU],["Record.Encode, MappedRecord.Decode, TimeToBytes, BigIntToByteArray"])
p("W04","A scheme reads back from its encoding",
 "Encoding a scheme and decoding the bytes gives the same domain, tablet and buckets, each absent exactly when it was absent, and consumes exactly the bytes written.",
 ["inputs"],"all combinations of attributes, any number of buckets","There is no scheme test.",[SC],["Scheme.Encode, MappedScheme.Decode"])
p("W05","A consensus time reads back from its bytes",
 "The bytes of a ledger or raft time, read back, give a time of the same kind with the same fields.",
 ["inputs"],"every value of every field","There is no consensus test.",[CO],["LedgerTime.Buf, RaftTime.Buf, NewConsensusTime"])
p("W06","Integers and length-prefixed bytes read back from their encoding",
 "Every 64 bit signed or unsigned integer and every byte string, encoded and followed by anything, reads back as itself and consumes exactly the bytes written.",
 ["inputs"],"every integer, every byte string, any following bytes","No test covers them.",[MI],["EncodeVarint64/DecodeVarint64, EncodeUvarint64/DecodeUvarint64, EncodeVarchar/DecodeVarchar"])
p("W07","A saved key pair can be loaded again",
 "What is saved as a key file is what loading expects: the same path, hex form, checksum position and algorithm, nonce position and length, cipher and secret, so that loading with the same class, id and secret reproduces the private key and the coordinate of the public key that were saved. This holds as well when the passphrase is prompted for, and what was saved is said to exist.",
 ["inputs","configurations"],"every class, id, key and secret","TestLCKeyGen tries one class and one key.",[LC,CU],["lc_save_key_pair, lc_save_pub_key, lc_load_key_data, lc_load_priv_key, lc_load_pub_key"])
p("W08","Fixed width conversions are inverse to each other",
 "Converting an integer, a time or a non-negative number below 2^256 to bytes gives the documented fixed number of bytes (4, 8, 8 and 32), in big endian order, and converting back gives the same value.",
 ["inputs"],"every value","No test covers them.",[CU],["Int64ToByteArray/ByteArrayToInt64 and siblings, TimeToBytes/BytesToTime, BigIntToByteArray/ByteArrayToBigInt"])
p("W09","Base58 digits are written and read with the same alphabet",
 "Each base58 character decodes to the digit it is written for, the character for digit zero stands for a leading zero byte in both directions, and any other character makes decoding fail. Decoding the text of a byte string gives that byte string back, leading zeros included, and encoding what a text decodes to gives that text. Neither direction ever crashes.",
 ["inputs"],"all 256 character values, every input","There is no base58 test.",[B58],["alphabet, b58, Base58Encode, Base58Decode"])
p("W10","A hash table reads back from its encoding",
 "Encoding a minimal perfect hash table of either kind (one that holds its keys and one that only verifies them) and decoding it, with anything following, gives a table of the same kind with the same levels, masks, seeds and verification values and the same keys in the same order, and consumes exactly the bytes written. Encoding fails only if a key cannot be encoded.",
 ["inputs"],"every table of fewer than 2^31 entries, any following bytes","Tests encode a few small tables.",[MPH],["MPHTable.Encode, NewMPHTable"])
p("E01","An object never presents the encoding of an earlier content",
 "After any change made through a constructed key, value array, record list or record, the object reports that it is not encoded and refuses to hand out bytes until it is encoded again. After a successful encoding it reports that it is encoded and hands out the bytes just made.",
 ["histories"],"every sequence of changes and encodings","The tests encode once, after the last change.",[K,V,R,SC],["encoded flag of Key, Primitive, ValueArray, RecordList, Record, Scheme"])
p("E02","Encoding an object does not change what it holds",
 "Encoding a key, value, record, scheme or hash table changes nothing that its accessors return: same components, same elements, same bytes. A failed encoding leaves the object with its previous encoding state.",
 ["inputs","histories"],"every object, encoded any number of times","Tests look at the bytes, not at the object, after encoding.",[K,V,R,SC,MPH],["Encode of every constructed type"])
p("E03","Copies are independent of the original",
 "A copy of a key, value, scheme, record or consensus id has the content of the original and shares no modifiable bytes, elements or encoding state with it: changing one never shows in the other. A constructed copy of a mapped object can be modified and holds the same content.",
 ["inputs","histories"],"every object; any later change to either side","No test modifies a copy.",[K,V,R,SC,CO],["Copy and CopyConstruct of every type"])
p("E04","Nothing encodes that its decoder would refuse as too large",
 "Encoding a key, record component or scheme that exceeds its documented maximum (4K key, 56K value, 1K scheme) or a content, element count or length that does not fit its length field fails with an error; it never truncates.",
 ["inputs"],"every size, in particular the boundaries 4K, 56K, 1K, 256 and 65536","The tests stay far below the limits.",[K,V,R,SC],["size checks in Key.Encode, Primitive.Encode, ValueArray.Encode, RecordList.Encode, Record.Encode, Scheme.Encode"])
p("E05","Objects hold exactly what was put into them, where it was put",
 "Building an object or changing one of its parts stores exactly what was given, in the part asked for, and leaves every other part as it was. Reading a part, or an element by its index, gives what was stored there, and an index outside the object is an error.",
 ["inputs","histories"],"every object of up to 65534 elements, every part, every index","Tests read back a few values of a few objects.",[K,V,R,SC],["Set*, Add, Append, DeleteAt, New*, ValueAt, RecordAt, SubKeyAt, BucketAt, DomainName, TabletName, Size"])
p("E06","Encoding fails only when something does not fit",
 "An object whose components encode and whose parts and total are within the documented maxima encodes without error. An encoder reports an error only if a component could not be encoded or a maximum is exceeded.",
 ["inputs"],"objects of up to three parts of any length","Tests encode a few small objects.",[K,V,R,SC],["Encode of Key, Value, ValueArray, Record, RecordList, Scheme, SchemeKey and their parts"])
p("E07","Objects tell truthfully whether they are encoded and decoded",
 "An object made by a decoder tells that it is encoded and decoded, and asking it to encode changes neither its bytes nor anything it tells; a constructed object tells that it is decoded, and decoding it is refused with an error that changes nothing; an object on which decoding failed does not tell that it is decoded. The kind byte an object tells is the first byte of the bytes it hands out, and an object without an encoding tells none.",
 ["inputs","histories"],"every object of every kind in every encoding state","Tests never ask an object to do what it does not support, and compare no kind byte.",[K,V,R,SC,CO],["IsEncoded, IsDecoded, Encode, Decode, ValueMagic, RecordMagic, SchemeMagic, ConsensusMagic of every type"])
p("E08","Asking an object something never changes it",
 "Reading, comparing, hashing, printing and copying a key, value, record, scheme, consensus time, consensus id or hash table leaves it as it was: everything it tells afterwards is what it told before, and so is what it holds.",
 ["inputs","histories"],"every object, every method that only tells something, any arguments, any earlier calls","Tests read an object once, in one order.",[K,V,R,SC,CO,MPH],["every method of IKey, IValue, IRecord, Scheme, MappedScheme, consensus times and ids, MPHTable but Encode and Decode"])
p("O01","Consensus times of one kind are totally ordered",
 "For any two ledger times or any two raft times, the six comparisons (greater, greater or equal, equal, not equal, less, less or equal) agree with one total order: by epoch, or by term, then milliseconds, then count. Comparing times of different kinds is an error for each of them.",
 ["inputs"],"every pair of times; 3 fields of 32 bits each","There is no consensus test.",[CO],["GT GE EQ NE LT LE of LedgerTime and RaftTime"])
p("O02","Slice comparison is a total order consistent with equality",
 "Comparing two slices of numbers or comparables is lexicographic: nil before anything else, the first different element decides, a proper prefix comes first; it never crashes, whatever the lengths. The result is zero exactly when the slices are equal, for every comparable slice type and for nil objects.",
 ["inputs"],"every pair of slices, of any lengths, nil included","No test compares slices of different lengths or types other than byte.",[CU,CMP],["Compare*Slice, Equal*Slice, Comparable*Slice.Compare/Equal"])
p("O03","Keys compare, equal and hash the same in every representation",
 "For any two keys in any mix of representations (empty, constructed, decoded), comparing is lexicographic by sub key, equality holds exactly when comparing gives zero, and equal keys hash alike under every hash function. None of these crashes, whatever the numbers of sub keys.",
 ["inputs"],"every pair of keys, 3 representations on each side","Only keys of one representation with equal numbers of sub keys are compared.",[K],["Equal, Compare, HashUint32 of EmptyKey, Key, MappedKey"])
p("O04","Minimum and maximum return the smaller and the larger argument",
 "For every integer type, the minimum function returns one of its two arguments that is not greater than either of them, and the maximum one that is not less than either.",
 ["inputs"],"every pair of values of every integer type","No test covers them.",[CU],["Min*/Max* of collection"])
p("O05","Equal hashable slices hash equally",
 "Two hashable slices of the same type that are equal have the same hash under every hash function, each element of the slice takes part in both, and neither equality nor hashing crashes, whatever the contents, nil included.",
 ["inputs"],"every pair of slices of every element type","No test covers the typed slices.",[HB],["Hashable*Slice.Equal and HashUint32"])
p("M01","The sorted tree stays ordered and balanced",
 "After any sequence of insertions and removals the tree holds its entries in key order, every node's two subtrees differ in height by at most one, and every node's recorded balance is the actual one.",
 ["histories"],"every sequence of insertions and removals, of any length","TestAVL inserts and removes random numbers but never checks the shape.",[AVL],["putR, removeR, putBalance, removeBalance, adjustBalance, single, double"])
p("M02","Sorted collections hold exactly what was put and not removed",
 "Putting a key makes exactly that key's entry present with the new value and returns the entry it replaced, if any; removing makes exactly that key absent and returns the entry removed, if any; looking up finds the entry exactly when present. The reported size changes by exactly the number of entries added or removed.",
 ["histories"],"every sequence of operations","TestAVL checks sizes for one random sequence.",[AVL],["AVLTree.Put, Remove, Get, Size"])
p("M03","Sorted iteration yields each key once, in order, within its range",
 "Iterating a sorted collection yields every entry once in ascending key order, and a range iteration yields exactly the entries that are not below its start and below its end. Asking whether there is a next entry, or peeking, does not change what comes next, and an exhausted iteration stays exhausted without crashing.",
 ["inputs","histories"],"every tree shape, every start and end, every interleaving of next, peek and has-next","TestAVL has one full iteration; the range bounds were inverted and nothing noticed.",[AVL],["NewAVLIterator, AVLIterator.advance, Next, HasNext, Peek"])
p("M04","The hash table keeps every entry reachable",
 "Every entry of a hash table is in the chain that looking up its key searches, before and after growing or shrinking. Putting, removing and resizing lose and duplicate no entry, change the size by exactly the entries added or removed, and return the replaced or removed entry.",
 ["histories"],"every sequence of operations, every capacity, load factor and multiplier","TestHash runs one random sequence with default parameters.",[HA],["Hash.Get, Put, Remove, resize"])
p("M05","Iterating a hash table yields every entry once",
 "Iterating a hash map or hash set yields each of its entries exactly once and then ends.",
 ["histories"],"every table","TestHash iterates, but its loop body never runs.",[HA],["HashIterator.advance, Next, HasNext, Peek"])
p("M06","Maps and sets pass through to the collection they stand for",
 "Each operation of a map or set is that of the underlying tree or table with the same key and value, and returns the old value (or key, for sets), or nil when there is none. A map or set is created empty, with the parameters given. Iterators go through the entries of the range given as the iterator of the collection does, and return nil once exhausted; none of these crashes for a non-nil key.",
 ["inputs","histories"],"every operation, in every state of the underlying collection, on all four facades","There is no test of the four facades.",[SM,SS,HM,HS],["SortedMap, SortedSet, HashMap, HashSet and their iterators"])
p("M07","A hash table lookup never takes one key for another",
 "A lookup in a table that verifies by key reports a key as found exactly when the key stored at the index it returns equals it, and one that verifies by hash exactly when the stored verification hash equals the key's. Building and looking up derive the same two slots for the same key and seed.",
 ["inputs"],"every table and looked up key","The tests look up present keys only.",[MPH],["MPHBuild, MPHTable.Lookup"])
p("S01","A private key is stored only encrypted, under a fresh nonce",
 "Whenever a key pair is saved, what depends on the private key reaches a file only after authenticated encryption under the caller's secret with a nonce newly drawn from the system's random source for that encryption, and the file is created readable by its owner only. Nothing about the private key or the secret is written elsewhere or printed.",
 ["inputs","configurations"],"every key, secret and class, every path through saving","A test cannot show that no path leaks or that no nonce repeats.",[LC,PK],["lc_save_key_pair, generate_key_pair"])
p("S02","Key file contents are used only after their checksum was verified",
 "No byte of a key file is used as key material unless the checksum stored in the file was found equal to the one computed over all of the remaining content, and a private key only after its authenticated decryption succeeded.",
 ["inputs","fault_sequences"],"every file content","Corrupt files are never loaded.",[LC],["lc_load_key_data, lc_load_priv_key, lc_load_pub_key"])
p("S03","Randomness is cryptographic and its failure is never ignored",
 "Every random number, key, signature and nonce the system produces is drawn entirely from the operating system's cryptographic random source, all of its bytes are drawn, and a failure of that source is never followed by using the result.",
 ["fault_sequences"],"every path, with the random source failing at any call","The source never fails under test.",[RN,CU,EC,LC],["Rand*, randUint32, ECDSAGenerateKey, ECDSASign, lc_save_key_pair"])
p("S04","Random numbers in a range lie in the range",
 "A random number requested from a range with a minimum below its maximum is never below the minimum and always below the maximum, for every integer type.",
 ["inputs"],"every minimum, maximum and random draw","TestRandInt32 prints some numbers.",[RN],["Rand*Range"])
p("S05","Every key class and id has its own public and private key files",
 "For each of the five key classes, the public and the private key of an id have different paths, no two classes share a path, the path depends on the id, and loading, saving and testing for existence use the same path. A key whose file is not there is not said to exist, and an unknown class is refused.",
 ["configurations"],"every class and id","One class is tried.",[LC],["lc_get_etc_dir, lc_get_pub_key_path, lc_get_priv_key_path and their users"])
p("S06","Weak or mistyped passphrases are refused",
 "Prompting for a passphrase returns one only if it was read without error, has at least 8 bytes and, when repetition is requested, the repetition was read without error and is identical. Making a new key requests the repetition, and after a refused prompt no key is saved or loaded.",
 ["inputs","fault_sequences"],"every typed input","The prompt is never run under test.",[LC,PK],["PromptPassphrase and its callers"])
p("S07","An existing alias is replaced only with consent",
 "The key generation tool removes or replaces an existing alias only if it was told to force it or the user answered yes, and it does so only after the new key pair was generated, saved and loaded back without error.",
 ["inputs","configurations","fault_sequences"],"every combination of options, answers and failures","The tool has no test.",[PK],["process_key"])
p("S08","A loaded public key is usable or refused",
 "Loading a public key returns either an error or a key with both coordinates on the curve that key generation uses; a point that is not on the curve is never returned as a key.",
 ["inputs"],"every stored coordinate","Only generated keys are loaded.",[LC,EC],["lc_load_pub_key, ECDSAGetPublicKey, ECDSACalculateY"])
p("S09","Signing and verifying use exactly the key, hash and signature given",
 "Verification accepts exactly what the curve's own verification accepts for the same key, hash and signature, and signing signs the hash given with the key given. A private key restored from its bytes is that number on P-256 with the matching public point, and the digest helpers are SHA-256, double SHA-256 and MD5 of all the data.",
 ["inputs"],"every key, hash, signature and data","Tests sign and verify with generated keys only.",[EC],["ECDSAVerify, ECDSASign, ECDSAGetPrivateKey, SumSHA256, SumSHA256d, SumMD5"])
p("S10","The key tool makes, saves and links exactly the key pair asked for",
 "For each of its five classes the key generation tool ends successfully only if it generated a key pair, saved it under the lowercase hex of its public coordinate, in that class, encrypted with the passphrase typed, loaded both halves back and, if an alias was asked for, linked the alias in the class's directory to the key's directory. Every failure ends with a status from 1 to 255, and for any other class nothing is generated or written.",
 ["inputs","configurations","fault_sequences"],"every combination of options, answers and failures","The tool has no test.",[PK,LC,EC],["main.main, process_key, generate_key_pair"])
p("S11","A generated private key matches the public key loaded from its file",
 "The public key file holds only X. For every key pair that is generated or that the key generation tool saves, the Y calculated from X when the public key is loaded is the Y that belongs to the private number, so that what is signed with the private key verifies with the loaded public key.",
 ["inputs"],"every generated key","Tests verify with the generated public key, not with a loaded one.",[EC,LC,PK],["ECDSAGenerateKey, ECDSACalculateY, ECDSAGetPublicKey, lc_load_pub_key"])
p("S12","The seed of a hash table cannot be guessed",
 "Every hash table draws the seed of its hash function anew from the system's random source when it is made, and so does every perfect hash table that verifies keys by their hash: at least 2^31 seeds are possible, about equally often. So nobody can prepare keys that collide in a table, or that a table takes for its own.",
 ["inputs"],"every table made","Tests cannot see from how many seeds one was drawn.",[HA,MPH],["NewCustomHash, MPHBuild, randUint32, RandUint64Range"])
p("P01","Objects share no state that an operation changes",
 "No operation of the libraries changes memory that a package-level variable leads to, its own or one of the libraries it uses such as the parameters of the curve, except where the log goes, or under a lock that every use of that memory holds; and no operation hands out a reference to such memory or to memory it has given back. So operations on different objects never interfere, in any order and at the same time.",
 ["schedules","histories"],"every sequence and interleaving of operations on different objects","Tests run one operation at a time; a shared buffer shows only when another operation runs before its result is used.",[K,V,R,SC,CO,MI,MPH,LC,EC,B58,TR,CU,HA,AVL],["every function of util and collection"])
p("P02","Results depend on the arguments alone",
 "What an operation of the libraries returns or changes is determined by its arguments and the objects they lead to: it never depends on chance, the time, the environment, the order of a map, an address or the schedule, and never prints, logs, ends the program or touches files. Except the operations whose purpose it is: random numbers, making keys, signatures and hash tables, prompts, the log and the files of keys.",
 ["inputs","schedules","configurations"],"every operation and every environment","A test sees one environment and one order at a time.",[K,V,R,SC,CO,MI,MPH,LC,EC,B58,TR,CU,HA,AVL],["every exported function and method of util and collection"])
p("P03","Passphrases and private keys are never shown",
 "A passphrase, a private key and the decrypted content of a key file never reach the terminal, the log, an error, the message of a panic, the name of a file or an unencrypted file, and are never kept in a package-level variable. This holds for everything that depends on them, however it is copied or formatted, but for lengths and comparisons.",
 ["inputs","fault_sequences"],"every key, passphrase and failure","Error paths with a secret at hand do not run under test, and nobody reads what they print.",[LC,EC,PK],["PromptPassphrase, lc_load_priv_key, lc_save_key_pair, ECDSAGenerateKey, generate_key_pair, process_key"])
p("R01","Every operation comes to an end",
 "No operation runs for ever, whatever it is given: every turn of a loop changes something that decides whether there is another, no counter wraps round or steps past its bound before it is reached, no function calls itself again with the same arguments while nothing has changed, and no lock is left taken. Lists and trees end because their operations keep them free of cycles (M01, M04); the search for the seeds of a perfect hash table and the iteration of tries are not included.",
 ["inputs","histories"],"every input, size and object","A test that hangs is noticed, but the sizes and keys that make a loop go round for ever are not among the few tried.",[K,V,R,SC,CO,MPH,HA,AVL,CU,B58,TR],["all loops and recursive functions, nextPow2, Base58Encode, ValueAt, RecordAt, Hash.Get, AVLIterator.advance"])
p("T01","Setting and clearing a trie key affects that key only",
 "Setting a key of a trie never crashes and returns the previous value; looking a key up returns what was last set, or nil if nothing was. Clearing a key removes only nodes that hold no value and have no children, and never the root.",
 ["histories"],"every sequence of sets, clears and lookups","There is no trie test.",[TR],["Trie.Get, Trie.Set, GetChild, PutChild, RemoveChild"])
p("T02","Iterating a trie yields every node once, parents first, in order",
 "An iterator over the keys of a trie, of the whole trie or of the part below a key, yields every node once with its full key and value, each node before those below it and siblings in order, and nothing for a key that is not in the trie. HasNext and Peek tell what Next will do and change nothing, and iterating never crashes or changes the trie.",
 ["histories"],"every trie, key, and state of an iteration","There is no trie test.",[TR],["TrieKeyIterator, NewTrieKeyIterator, Trie.Iterator, Trie.KeyIterator, MappedTrie.Iterator, MappedTrie.KeyIterator, FullKey"])
p("X01","A failure is never reported as success",
 "When an operation that can fail is used by one that can report failure, a failure of the former always makes the latter report one, unless it is retried or handled by an alternative result. No error is dropped silently.",
 ["fault_sequences","inputs"],"every call that returns an error, failing at any time","Almost no call fails under test.",[K,V,R,SC,CO,MPH,LC,EC,TR,CU,PK],["every call returning error in collection, util and the key generation tool"])
# --- not decidable by this family here
p("N01","A built perfect hash table finds every key at its own index",
 "For any list of distinct keys, building a table terminates and looking up each key returns its position in the list.",
 ["inputs"],"every list of distinct keys","Tests build a few lists; keys whose sub keys are permutations of each other collide for every seed.",[MPH],["MPHBuild"])
p("N02","A trie encodes, and iterates over a range, exactly the keys it holds",
 "Iterating a range of a trie, or encoding it and iterating the decoded trie, yields each key that belongs there once, in order.",
 ["histories"],"every trie and range","There is no trie test.",[TR],["TrieRangeIterator, Trie.Encode, MappedTrie.Decode"])
p("N04","A crash while saving a key pair leaves loadable or no key files",
 "If the system stops at any point while a key pair is saved, each key file afterwards is absent, its previous content, or the complete new content.",
 ["crash_points"],"every crash point","No test crashes a save.",[LC],["lc_save_key_pair"])
p("N05","Database file sections are sorted and their offsets consistent",
 "Every database file written is sorted by key and its offsets point at the entries they name.",
 ["inputs"],"every file","The package does not compile at this commit.",["src/pdb"],["src/pdb"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
