#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- trie
p("T01","Merkle trie is a map",
  "After any sequence of puts and deletes, looking up any key in a trie yields exactly the value of the last put of that key that was not followed by a delete of it, and reports absence otherwise. Put and delete report truthfully whether they changed something, and the number of reported entries equals the number of live keys. This holds for keys of different lengths, including keys that are prefixes of one another.",
  ["histories","inputs"],"every operation sequence and every key, including keys sharing prefixes of any nibble length",
  "tests use a few random fixed-length keys; the tree shape depends on the nibble-level overlap of all keys, which they cannot exhaust",
  ["trie/trie.go","trie/node.go","trie/utils.go"],[("get/insert/delete over compressed 16-ary nodes","trie/trie.go"),("splitting and merging of node prefixes","trie/trie.go, trie/node.go")],observe_at=["Trie.Get","Trie.Put","Trie.Delete","Trie.Count"])
p("T02","Trie root hash depends only on content",
  "Two tries holding the same set of key/value pairs have the same root hash, whatever the order of puts, overwrites and deletes that produced them, and whether or not they were committed in between. An emptied trie has the root hash of a new trie.",
  ["histories"],"every pair of histories leading to the same content",
  "tests compare a few insertion orders; deletions must restore exactly the shape insertion would have built",
  ["trie/trie.go","trie/node.go"],[("delete collapses one-child nodes","trie/trie.go"),("hash caching and dirty marks","trie/node.go")],observe_at=["Trie.HashValue"])
p("T03","Trie root hash binds the content",
  "Two tries with different content have different root hashes, assuming the hash function is collision free. Every put, overwrite or delete that changes the content therefore changes the root hash that is reported afterwards.",
  ["inputs","histories"],"every pair of contents; every change from every cached state",
  "needs an argument over all pairs of contents with an ideal hash; tests compare concrete hashes of single instances",
  ["trie/trie.go","trie/node.go","hash.go"],[("node hashing over header, value, prefix and children","trie/node.go"),("invalidation of cached hashes","trie/trie.go")])
p("T04","Committed trie can be reloaded",
  "After a successful commit, a trie opened from the root hash on the same database returns for every key exactly what the committed trie returns, and has the same root hash. Further changes and commits on either side keep this true.",
  ["histories","inputs"],"every content and every interleaving of changes, commits and reloads",
  "tests reload a handful of data sets",
  ["trie/trie.go","trie/node.go"],[("iterative save of dirty nodes","trie/trie.go"),("node serialisation","trie/node.go"),("lazy expansion from the adapter","trie/trie.go")])
p("T05","Merkle proofs verify exactly what is stored",
  "For every key present in a trie a proof can be produced, and it evaluates, from the stored value, to the trie's root hash. No proof produced by the trie evaluates to the root hash for a different value.",
  ["inputs","histories"],"every content, every present key, every other value",
  "tests check proofs of a few random keys; the shape of the proof depends on branch position, value presence and prefix",
  ["trie/proof.go","trie/trie.go","hash.go"],[("proof chain construction and evaluation","trie/proof.go, trie/trie.go")])
p("T06","Existence proofs decide membership",
  "The existence proof a trie produces for a key is accepted as proof of existence exactly when the key is present, and as proof of absence exactly when it is absent, and its evaluated hash is the trie's root hash. Read as a proof about another key it is refused or gives the right answer.",
  ["inputs","histories"],"every content and every key, present or absent",
  "absence can fail at every nibble of every node on the path; tests cover few divergence points",
  ["trie/proof.go","trie/trie.go"],[("existence proof matching","trie/proof.go")])
p("T07","Trie iteration is complete and ordered",
  "Iterating a trie yields every live key exactly once with its value, in ascending key order (descending for the reversed iterator), and nothing else.",
  ["inputs","histories"],"every content including keys that are prefixes of others and the single-child and first-child cases",
  "tests iterate a few data sets of equal-length keys",
  ["trie/iterator.go","trie/trie.go"],[("iterator stacks","trie/iterator.go")])
p("T08","Trie copies are independent",
  "Changing a trie never changes the content or the root hash seen through another trie obtained from it earlier by cloning or inheriting, nor the other way round.",
  ["histories"],"every content and every later operation on either side",
  "sharing of sub-trees only shows for particular shapes and operations",
  ["trie/trie.go","trie/node.go"],[("copying of nodes","trie/node.go")])
p("T09","Commit reports storage failures and can be retried",
  "If any write to the database fails during a commit, the commit reports an error; when a later commit of the same trie succeeds, everything the trie holds can be reloaded from the database.",
  ["fault_sequences","histories"],"every position at which a write can fail, for every content",
  "no test injects storage faults",
  ["trie/trie.go","trie/historytree.go"],[("iterative save","trie/trie.go")])
p("T10","Combined trie behaves as one map",
  "A trie of small tries behaves as one map over all keys: gets, puts, deletes and iteration agree with a plain map, its root hash depends only on the content, and a non-empty one that was committed can be opened again from its root hash with the same content.",
  ["histories","inputs"],"every operation sequence",
  "tests use few fixed keys",
  ["trie/combinedtrie.go"],[("small trie inside a top-level trie","trie/combinedtrie.go")])
p("T11","Reverting restores the checkpointed state",
  "After reverting a revertable trie to a checkpoint, its content and root hash are exactly those at the moment the checkpoint was taken; writes made afterwards are gone, writes made before are kept.",
  ["histories"],"every sequence of writes, checkpoints and reverts",
  "tests revert once or twice on fixed data",
  ["trie/revertable.go"],[("live copy over the origin, list of checkpoints","trie/revertable.go")])
p("T12","History tree keeps every appended value",
  "Appending heights 0,1,2,... with values to a history tree makes each of them retrievable unchanged at its height and nothing at heights not yet appended; appending any other height than the expected one is refused and changes nothing.",
  ["histories","inputs"],"every number of appended heights and every value",
  "tests append sequentially from zero with few boundaries",
  ["trie/historytree.go"],[("sixteen-way nodes addressed by the nibbles of the height","trie/historytree.go")])
p("T13","History proofs verify against the root",
  "For every appended height the proof a history tree returns evaluates, from the stored value, to the tree's root hash, and from no other value does it evaluate to that root hash.",
  ["inputs","histories"],"every size and every height below it",
  "positions in partially filled nodes are many; tests sample",
  ["trie/historytree.go","hash.go"],[("appendToProof over cached branch hashes","trie/historytree.go")])
p("T14","History tree root is a function of the values",
  "The root hash of a history tree depends only on the sequence of values appended, not on when hashes were computed, nodes committed, collapsed or reloaded in between; different sequences of the same length have different roots for a collision-free hash.",
  ["histories"],"every placement of hash computations, commits and collapses in the sequence of appends",
  "cached inner hashes go stale only for particular interleavings",
  ["trie/historytree.go"],[("Branchs cache and its invalidation","trie/historytree.go")])
p("T15","History tree survives commit, collapse and reload",
  "After a commit, a history tree opened from the root hash, or one whose old nodes were collapsed, returns the same values, proofs and root hash, and accepts the same next height, as the original.",
  ["histories"],"every size and every cut at which nodes are collapsed or reloaded",
  "tests reload few sizes",
  ["trie/historytree.go"],[("saveFull/readFull, collapse/expand","trie/historytree.go")])
p("T16","History tree restored from a proof can go on",
  "A history tree restored from the proof of its last value has the original's root hash, and after appending the same further values both have the same root hash. Merging the proofs of other values under the same root makes exactly those values retrievable and changes nothing else, also after a commit and reload.",
  ["histories"],"every size at which the proof was taken and every number of further appends",
  "tests restore few sizes",
  ["trie/historytree.go","hash.go"],[("RestoreTreeFromProofs, MergeProof","trie/historytree.go")])
p("T17","Chopping a history tree gives the shorter history",
  "Chopping a history tree at a height gives a tree whose root hash, values and next expected height are those of a tree to which only the heights up to it were appended, and leaves the original unchanged.",
  ["histories","inputs"],"every size and every height below it",
  "the test walks a sample of sizes without collapsed or shared nodes",
  ["trie/historytree.go"],[("_chop and clearing of cached branch hashes","trie/historytree.go")])
p("T18","Nibble and bit path conversions are inverse",
  "Converting a key to its nibble path and back, a height to its prefix and back, and a number to its bit path and back gives the original for every input of legal length, and different inputs have different paths.",
  ["inputs"],"every key, height and index",
  "tests use some examples",
  ["trie/utils.go","trie/historytree.go"],[("conversion helpers","trie/utils.go")])
p("T19","Serialised proofs and tries round-trip",
  "A proof chain or a trie that is serialised and read back evaluates to the same hash and answers the same questions; proofs and the nodes of a trie, whose form does not contain an unordered map, also serialise to the same bytes again.",
  ["inputs"],"every proof and content",
  "tests serialise few instances",
  ["trie/proof.go","trie/node.go"],[("node header and proof serialisation","trie/node.go, trie/proof.go")])
p("T20","History tree operations never block themselves",
  "No single operation of a history tree or of a revertable history tree, called when no other operation is in progress, blocks forever or panics, whatever the tree holds.",
  ["histories"],"every state and every operation",
  "several operations are not called by any test",
  ["trie/historytree.go","trie/revertable.go"],[("lock per tree","trie/historytree.go")])

# ---------------------------------------------------------------- common
p("C01","Identifiers keep their bytes",
  "Node ids, addresses, hashes and seeds built from bytes hold exactly the rightmost bytes, zero-padded on the left, and survive conversion to bytes, hexadecimal text and JSON text and back unchanged.",
  ["inputs"],"every byte string of every length around the identifier's size",
  "tests use fixed examples",
  ["basic.go","bytes.go"],[("SetBytes, MarshalText/UnmarshalText, SetString","basic.go")])
p("C02","Merkle proofs of a list verify",
  "For every list of hashes and every position in it, the proof returned with the merkle root evaluates from the hash at that position to that root; for a collision-free hash no other hash at that position does; the root without a proof is the same.",
  ["inputs"],"every list length up to the bound and every position",
  "tests check few lengths; odd sizes and last positions take different branches",
  ["hash.go"],[("MerkleHashComplete, MerkleProofs.Proof","hash.go")])
p("C03","Merkle proofs round-trip through serialisation",
  "A merkle proof, including runs of repeated hashes, serialised and read back equals the original and evaluates identically, however the reader splits the bytes.",
  ["inputs"],"every sequence of hashes and sides, every fragmentation of the input stream",
  "tests read from memory buffers that never split",
  ["hash.go"],[("Serialization/Deserialization, run-length repeats","hash.go")])
p("C04","Run-length compression of proofs is lossless",
  "Whatever sequence of hashes and directions is appended to a merkle proof, iterating it yields the same sequence back, and its evaluation equals hashing pairwise along that sequence; copies are equal and independent.",
  ["inputs","histories"],"every sequence up to the bound, every pattern of repeats",
  "tests cover some repeat patterns",
  ["hash.go"],[("MerkleProofs.Append/Iterate, MoreTimes","hash.go")])
p("C05","Heights, epochs and block numbers convert consistently",
  "Every valid height splits into exactly one epoch and block number and recombines to itself; epoch and era starts and ends partition the heights; the nil sentinels are ordered before and excluded from arithmetic as documented.",
  ["inputs"],"every 64-bit height",
  "tests sample few heights; boundaries are at multiples of the epoch size and at the sentinel",
  ["basic.go","consts.go"],[("Height, EpochNum, EraNum, BlockNum methods","basic.go")])
p("C06","Every address belongs to exactly one shard",
  "For every sharding of a chain, each address is assigned to exactly one of the shard chains, the assignment follows from the leading bits of the address the sharding reports, agrees between all the ways to ask for it, and every shard chain is found at its own position; an address prefix contains exactly the addresses that begin with it.",
  ["inputs","configurations"],"every address and every legal set of shard chains",
  "tests use few addresses and shard counts",
  ["shardinfo.go"],[("bit index and masks","shardinfo.go")])
p("C07","Node id sets behave as sets",
  "A set of node ids contains exactly what was added and not deleted, every stored id has an index below the size under which it is found, and the list operations on id slices (union, removal, search) return exactly the ids they name.",
  ["histories","inputs"],"every sequence of additions and deletions",
  "tests do not delete and look up indexes afterwards",
  ["basic.go"],[("NodeIDSet map and slice, NodeIDs methods","basic.go")])
p("C08","Byte helpers preserve content",
  "Padding, cropping, splitting, joining, shifting and searching byte slices return exactly the documented bytes for every length, do not read outside their input and do not change it.",
  ["inputs"],"every content and length, including empty ones",
  "tests use examples",
  ["bytes.go"],[("padding, splitting, bit shifting","bytes.go")])
p("C09","Chain membership lists stay consistent",
  "After adding and removing data nodes and boot nodes, a chain lists exactly the nodes added and not removed, once each and sorted, membership queries agree with the list, and a copy of a chain's information is independent of the original.",
  ["histories","inputs"],"every sequence of additions and removals",
  "tests use few nodes",
  ["chaininfo.go"],[("sorted insertion and binary search","chaininfo.go")])
p("C10","Last block records only move as documented",
  "The map of last blocks per chain returns for each chain the last block stored; a compare-and-set stores and reports success exactly when the offered block is newer than the stored one or none is stored; other chains are unaffected.",
  ["histories","inputs"],"every sequence of updates and every block height",
  "tests use examples",
  ["basic.go"],[("LastBlockMap","basic.go")])
p("C11","Service life cycle allows only legal transitions",
  "A service status moves only from created through initialised and started to stopped in the documented order, an illegal request is refused and leaves the status as it was, the callback of a transition runs exactly when the request is legal and its failure is reported, and a copy lives on its own.",
  ["histories"],"every sequence of requests",
  "tests cover the straight path",
  ["types.go"],[("ServiceStatus, AbstractService","types.go")])
p("C12","Gas pool never overdraws nor wraps",
  "A gas pool refuses to hand out more gas than it holds and leaves the amount untouched when refusing, otherwise deducts exactly the amount; adding gas never silently wraps around.",
  ["inputs","histories"],"every 64-bit amount",
  "tests use small amounts",
  ["gaspool.go"],[("SubGas, AddGas","gaspool.go")])
p("C13","Versions order and format consistently",
  "Version numbers compare as the lexicographic order of major, minor and patch, and each component is recovered from the combined number for all components within their ranges.",
  ["inputs"],"every version number",
  "tests use examples",
  ["version.go"],[("Version","version.go")])
p("C14","Chain id classes are exact",
  "Every chain id is either nil, reserved, the main chain or user defined according to its numeric range, the classes do not overlap where they must not, and an id survives conversion to bytes, text and hash form.",
  ["inputs"],"every 32-bit chain id",
  "tests sample",
  ["chaininfo.go","consts.go"],[("ChainID methods","chaininfo.go")])
p("C15","Bounded maps and caches keep the newest entries",
  "A least-recently-used map never exceeds its capacity, returns for a key the value last stored unless it was evicted, and evicts only the least recently used entry.",
  ["histories"],"every sequence of operations",
  "tests cover few sequences",
  ["types.go"],[("LruMap","types.go")])
p("C16","Hash pair helpers are order aware",
  "Pair hashing with an order flag equals plain pair hashing in the order the flag names, the emptiness predicates and comparison helpers agree with the bytes, the hash helpers return the digest of exactly their input, and hashing never alters its inputs.",
  ["inputs"],"every pair of hashes",
  "tests use examples",
  ["hash.go","hasher.go"],[("HashPair, HashPairOrder","hash.go")])
# ---------------------------------------------------------------- math
p("C17","Addresses of contracts and address classes are exact",
  "The address of a created contract is determined by exactly its creator and nonce, or its creator, salt and code, as the last 20 bytes of the hash defined for it, so different parameters give different addresses; the address of a public key is that of its point. Registering addresses as reserved, system, no-gas or no-check puts exactly those addresses into the class and among the reserved ones. Election types are valid, elected or managed consistently, and their names name them.",
  ["inputs","histories"],"every creator, nonce, salt and code hash; every sequence of registrations",
  "no test computes contract addresses for nonces of all byte lengths or looks at other addresses after registrations",
  ["basic.go"],[("CreateAddress, CreateAddress2, AddressFromPubSlice","basic.go"),("address class maps","basic.go")])
p("C18","Chain information answers from its content",
  "Exactly the owners of the listed administrator keys are administrators of a chain, a chain reports to the main chain exactly if it has a parent, every network kind yields the address given for it, a server entry is valid exactly when its id, address and ports are there, and the hashes of servers and chain information cover the content that their version has.",
  ["inputs"],"every list of keys and every asker, every field content up to the bound",
  "not tested",
  ["chaininfo.go","endpoint.go"],[("AddrIsAdmin, PubIsAdmin, HashValue","chaininfo.go")])
p("M01","Checked integer arithmetic reports overflow exactly",
  "Checked addition, subtraction and multiplication of 64-bit integers return the wrapped result and report overflow exactly when the true result does not fit.",
  ["inputs"],"every pair of 64-bit operands",
  "tests use boundary examples",
  ["math/integer.go"],[("SafeAdd/SafeSub/SafeMul","math/integer.go")])
p("M02","Number text forms round-trip",
  "Formatting and parsing of decimal and hexadecimal 64-bit and 256-bit numbers are inverse, and text that is not a number within range is refused.",
  ["inputs"],"every value; every text up to the bound",
  "tests use example tables",
  ["math/integer.go","math/big.go"],[("ParseUint64, ParseBig256, HexOrDecimal64, HexOrDecimal256","math")])
p("M03","256-bit wrapping and byte forms are exact",
  "Reduction to 256 bits, the signed reading of it, padded big-endian bytes and byte access agree with arithmetic modulo 2^256 for every integer.",
  ["inputs"],"every integer up to the bound in size",
  "tests use examples",
  ["math/big.go"],[("U256, S256, PaddedBigBytes, ReadBits, Byte","math/big.go")])
p("M04","Big integer wrappers compute exactly without aliasing",
  "The nil-tolerant big integer operations return the exact result (MulRat rounded down), treat nil as documented, and never modify an operand other than the receiver; a result never shares memory with an argument.",
  ["inputs"],"every pair of operands including nil and zero",
  "tests use examples and do not check the operands afterwards",
  ["math/big.go"],[("BigInt methods, SubIntNotLessZero, MinBig/MaxBig","math/big.go")])
p("M05","Modular exponentiation is exact and pure",
  "Exponentiation modulo 2^256 returns base to the exponent modulo 2^256 and leaves base and exponent unchanged.",
  ["inputs"],"every base and every exponent up to the bound",
  "tests do not look at the operands afterwards",
  ["math/big.go"],[("Exp","math/big.go")])
p("M06","Rational to integer conversion rounds as named",
  "Conversions of rationals to 64-bit integers round as their names and comments say for every rational whose result fits and report an error otherwise.",
  ["inputs"],"every numerator and denominator in range",
  "values beyond 2^53 and negative values are not tested",
  ["math/big.go"],[("RatToInt64, Int64MulRat, RatToInt64Floor","math/big.go")])
# ---------------------------------------------------------------- hexutil
p("H01","Hex encodings round-trip",
  "Encoding bytes, 64-bit and non-negative big integers to 0x-hexadecimal and decoding gives the original, with the canonical form: lower case, 0x prefix, no leading zeros in numbers.",
  ["inputs"],"every value up to the bound",
  "tests use tables",
  ["hexutil/hexutil.go"],[("Encode/Decode families","hexutil/hexutil.go")])
p("H02","Malformed hex is refused",
  "Decoding accepts exactly the well-formed texts (prefix, digits, even length for bytes; prefix, at least one digit, no leading zero, within range for numbers) and never panics.",
  ["inputs"],"every text up to the bound",
  "tests use tables of bad inputs",
  ["hexutil/hexutil.go"],[("checks and error mapping","hexutil/hexutil.go")])
p("H03","JSON and text forms agree with the hex forms",
  "The JSON and text forms of hexadecimal byte strings and numbers accept and produce the same as the plain functions, fixed-size targets accept only their exact size, and a refused input leaves the target unchanged.",
  ["inputs"],"every input up to the bound",
  "tests use tables and do not check the target after errors",
  ["hexutil/json.go"],[("Unmarshal families","hexutil/json.go")])
# ---------------------------------------------------------------- db
p("D01","In-memory database is a map",
  "The in-memory database returns for each key the value last put and not deleted, independently of what callers later do to the slices they passed in or got back; what it cannot store it refuses.",
  ["histories","inputs"],"every sequence of operations",
  "tests use few keys and do not mutate slices",
  ["db/memdb.go"],[("copying on put and get","db/memdb.go")])
p("D02","Batches apply in order and completely",
  "Committing a batch has the effect of its puts and deletes in order, with the values given when they were added, and before the commit none of them is visible.",
  ["histories","inputs"],"every batch content",
  "tests use few entries",
  ["db/memdb.go","db/ldb.go","db/types.go"],[("memBatch, SaveBatch","db")])
p("D03","Overlay databases isolate writes",
  "A temporary database over another one shows its own writes and deletes over the underlying content and never writes to the underlying one; a read-only database refuses every write and shows the underlying content.",
  ["histories"],"every sequence of operations",
  "tests use few operations",
  ["db/readonly.go"],[("temporaryDB, readOnlyDB","db/readonly.go")])
p("D04","Cache over a database is transparent",
  "A cached database answers every get and has exactly as the underlying database would, after any sequence of reads, puts, deletes and batches through it, for any cache size.",
  ["histories"],"every sequence of operations and cache size",
  "tests do not mix misses, existence queries and batches",
  ["db/cacheddb.go"],[("lru cache in front","db/cacheddb.go")])
p("D05","Key prefixes keep adapters apart",
  "Adapters with different prefixes over one database never see or change each other's entries, and each behaves as a plain key/value store, in single and batched operations.",
  ["histories","inputs"],"every pair of prefixes where neither key space contains the other, every operation",
  "tests do not use batches through prefixed adapters",
  ["db/adapters.go","db/types.go"],[("key prefixing","db/adapters.go")])
p("D06","Batched writing writes everything",
  "Writing a list of items in batches stores every item that is to be written, whatever the batch size and whichever items are skipped, and reports the first failure.",
  ["inputs","fault_sequences"],"every number of items, batch size and skip pattern",
  "tests use full batches",
  ["db/types.go"],[("BatchWrite","db/types.go")])
p("D07","Disk database reports its failures",
  "Every failure of the underlying store is reported by the disk database operation that met it, and a missing key is reported as absent rather than as a failure.",
  ["fault_sequences"],"every operation and every fault",
  "tests never see a fault",
  ["db/ldb.go"],[("error mapping","db/ldb.go")])
# ---------------------------------------------------------------- rlp
p("R01","RLP round-trips every value",
  "Decoding the encoding of a value of a supported type yields an equal value: booleans, unsigned integers of every width, big integers, byte strings and arrays, text, lists, nested structures, pointers and optional or tail fields.",
  ["inputs"],"every value up to the size bound",
  "tests use tables",
  ["rlp/encode.go","rlp/decode.go","rlp/encbuffer.go","rlp/typecache.go"],[("type-driven encoder and decoder","rlp")])
p("R02","RLP decoding accepts only canonical input",
  "If decoding an input into a value succeeds, encoding that value gives back exactly the input, so each value has one accepted encoding. The one exception is structures with optional fields, whose trailing zero fields may also be written out.",
  ["inputs"],"every input up to the bound",
  "tests list some non-canonical inputs",
  ["rlp/decode.go"],[("canonical size and integer checks","rlp/decode.go")])
p("R03","RLP parsing of untrusted bytes is safe",
  "Splitting, counting, iterating and stream-decoding arbitrary bytes never panics, never reads outside the input, and returned pieces lie inside the input and are consistent: header, content and rest join to the input. (A stream over an unlimited reader is held to the same as far as the reader really supplies the announced bytes.)",
  ["inputs"],"every input up to the bound including 8-byte lengths",
  "fuzz-like tests sample; length overflow needs exact values",
  ["rlp/raw.go","rlp/decode.go","rlp/iterator.go"],[("readKind/readSize bounds","rlp/raw.go")])
p("R04","RLP size functions are exact",
  "The predicted encoded sizes of integers, strings, byte strings and lists equal the lengths of the encodings, and the append form of integer encoding equals the general one.",
  ["inputs"],"every integer; every length around the header boundaries",
  "tests sample",
  ["rlp/raw.go","rlp/encbuffer.go"],[("headsize/intsize/putint","rlp/encode.go")])
p("R05","All RLP encoders produce the same bytes",
  "Encoding to a writer, to bytes, to a reader read in pieces of any size, and through an incremental buffer gives the same bytes, also when buffers are reused.",
  ["inputs","histories"],"every value up to the bound and every piece size",
  "tests read in few piece sizes",
  ["rlp/encbuffer.go","rlp/encode.go"],[("encReader, EncoderBuffer, buffer pool","rlp/encbuffer.go")])
p("R06","RLP streams respect list and input limits",
  "A stream never hands out a value reaching beyond its enclosing list or beyond the input limit, list ends are required exactly at the end, and after the whole input was decoded the pieces decoded reproduce it.",
  ["inputs","histories"],"every input up to the bound and every sequence of stream calls",
  "tests are tables",
  ["rlp/decode.go"],[("willRead, listLimit","rlp/decode.go")])
# ---------------------------------------------------------------- abi
p("A01","ABI values round-trip",
  "Unpacking the packed form of arguments gives the same values, for integers of all sizes and signs, booleans, addresses, fixed and dynamic byte strings, text, arrays, slices and tuples, alone and combined.",
  ["inputs"],"every value of the listed types up to the length bound",
  "tests are tables",
  ["abi/pack.go","abi/unpack.go","abi/type.go","abi/argument.go"],[("pack/toGoType","abi")])
p("A02","ABI packing follows the layout",
  "Packed arguments are a multiple of 32 bytes: static values in place, dynamic ones by offsets into the tail in order, each word padded on the proper side as the contract ABI specifies.",
  ["inputs"],"every value of the listed types up to the length bound",
  "tests are tables",
  ["abi/pack.go","abi/type.go","abi/argument.go"],[("head/tail layout","abi/type.go")])
p("A03","ABI unpacking of untrusted bytes is safe",
  "Unpacking arbitrary bytes never panics and never returns data from outside the input: it either returns values or an error.",
  ["inputs"],"every input up to the bound",
  "crafted offsets and lengths near the integer limits are not exhausted by tests",
  ["abi/unpack.go","abi/argument.go"],[("offset and length checks","abi/unpack.go")])
p("A04","Event topics and data decode to the emitted values",
  "Unpacking an event from the topics and data that encode its arguments yields every argument's value under its own name, wherever the indexed arguments stand among the others; filter topics of a value decode to that value.",
  ["inputs","configurations"],"every value and every placement of indexed arguments",
  "tests only use indexed arguments in front",
  ["abi/topics.go","abi/thinkium.go","abi/abi.go"],[("topic construction and parsing","abi/topics.go")])
p("A05","Selector parsing is total and faithful",
  "Parsing a function selector text never panics, refuses malformed text, and for a well-formed one yields the name and argument types written in it.",
  ["inputs"],"every text up to the bound",
  "tests use tables",
  ["abi/selector_parser.go"],[("recursive descent parser","abi/selector_parser.go")])
p("A06","ABI method lookup and naming are unambiguous",
  "Overloaded functions and events get distinct names, the input of a packed call starts with the identifier of the called method and is found again by it, and packing never changes the method description.",
  ["inputs","histories"],"every set of overloaded names up to the bound, every call",
  "tests use fixed definitions",
  ["abi/abi.go","abi/utils.go","abi/method.go"],[("ResolveNameConflict, MethodById","abi")])
# ---------------------------------------------------------------- log
p("L01","Log entries are routed and complete",
  "Every log entry is written once to the log file and, exactly if its level is configured for the console, once to the console; it carries the level of the function it was logged with, its message, and every field that was attached to it.",
  ["inputs","configurations"],"every level and level set",
  "not tested",
  ["log/hooks.go","log/log.go"],[("FileAndConsoleHook.Fire","log/hooks.go")])
if __name__=="__main__":
    for x in P: print(json.dumps(x,ensure_ascii=False))
