#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Deciphering exactly undoes enciphering",
 "For every supported cipher, every mode of operation, every key, nonce and message of any length, deciphering the enciphered message with the same cipher, mode, key and nonce yields the original message bytes. Enciphering and deciphering never change the message's recorded length, never touch memory beyond the message and its padding allowance, and leave the caller's key and nonce as they were.",
 ["inputs","configurations"],"all messages (any length), keys, nonces, ciphers and modes",
 "The suite round-trips a handful of fixed vectors per cipher, all of a few fixed lengths; it cannot reach every key, nonce, tail length or block count.",
 ["wizard/cipher.c","wizard/aes.c","wizard/chacha.c","wizard/serpent.c","wizard/twofish.c"],
 [("per-mode encipher/decipher loops","wizard/cipher.c: EncipherCBCMode..DecipherOFBMode"),("block permutation and its inverse","wizard/aes.c, serpent.c, twofish.c, chacha.c: Encipher*Block/Decipher*Block"),("padding slack behind every byte string","wizard/string.c: AcquireStringInfo")],
 observe=["EncipherCipher","DecipherCipher"])
prop("P02","Block ciphers compute the published algorithms",
 "Enciphering one block with AES (128/192/256-bit keys), ChaCha20, Serpent or Twofish yields exactly the block that the published algorithm yields for that key and input, for every key and every input block.",
 ["inputs","configurations"],"all keys of the supported sizes and all 2^128 (2^512) input blocks",
 "Known-answer tests sample a few key/plaintext pairs; a wrong table entry or rotation that those pairs do not exercise goes unnoticed.",
 ["wizard/aes.c","wizard/chacha.c","wizard/serpent.c","wizard/twofish.c"],
 [("AES key schedule and table-driven rounds","wizard/aes.c: SetAESKey, EncipherAESBlock, DecipherAESBlock"),("ChaCha quarter rounds","wizard/chacha.c: EncipherChachaBlock"),("Serpent bitsliced S-boxes","wizard/serpent.c"),("Twofish MDS/RS key schedule and rounds","wizard/twofish.c")],
 observe=["EncipherAESBlock","DecipherAESBlock","EncipherChachaBlock","EncipherSerpentBlock","EncipherTwofishBlock"])
prop("P03","Each mode of operation is the textbook mode; counters never repeat",
 "For every message, the output of CBC, CFB, CTR, ECB and OFB enciphering is block for block what the mode's definition prescribes from the block cipher, the nonce and the message followed by its padding. In counter mode each block uses the nonce advanced by its block number as a big-endian integer, so no counter value is used twice in a message. Every block, including the padding block, is enciphered, and the nonce kept in the cipher object is not altered.",
 ["inputs","configurations"],"all messages of any length, all nonces, all block sizes in use, any block cipher",
 "Vectors in the suite are one to four blocks long; counter carry, long chains and tail handling for every length are out of their reach.",
 ["wizard/cipher.c"],
 [("mode loops","wizard/cipher.c: EncipherCBCMode, EncipherCFBMode, EncipherCTRMode, EncipherECBMode, EncipherOFBMode and Decipher*"),("big-endian counter increment","wizard/cipher.c: IncrementCipherNonce")],
 observe=["EncipherCipher","DecipherCipher","GetCipherNonce"])
prop("P04","Digests equal the published hash functions",
 "For every message the MD5, SHA-1, SHA-2 (224/256/384/512), SHA-3 (Keccak submission padding) and CRC-64 digests are exactly the values the published definitions give. This includes the length encoding and padding for every message length, up to the lengths the standards allow.",
 ["inputs"],"all messages of any length",
 "The suite checks a few messages shorter than a few blocks; padding boundaries, carries in the length counter and rarely used constants are not all reached.",
 ["wizard/md5.c","wizard/sha1.c","wizard/sha2224.c","wizard/sha2256.c","wizard/sha2384.c","wizard/sha2512.c","wizard/sha3.c","wizard/crc64.c","wizard/hash.c"],
 [("compression functions","Transform* in each digest source"),("padding and length encoding","Finalize* in each digest source"),("bit counters","Update* in each digest source")],
 observe=["GetHashDigest","GetMD5Digest","GetSHA1Digest","GetSHA2256Digest"])
prop("P05","A digest depends only on the message, not on how it was fed or what came before",
 "Feeding a message to a digest object in any number of pieces of any sizes (including empty ones) yields the same digest as feeding it at once. Re-initialising an object makes it behave as a new one whatever it was used for before, and updating never modifies the caller's message.",
 ["inputs","histories"],"all ways of splitting all messages, all earlier uses of the object",
 "The suite feeds each test message in one call to a fresh object.",
 ["wizard/md5.c","wizard/sha1.c","wizard/sha2224.c","wizard/sha2256.c","wizard/sha2384.c","wizard/sha2512.c","wizard/sha3.c","wizard/crc64.c","wizard/hash.c"],
 [("partial block buffer","Update* in each digest source"),("state reset","Initialize* in each digest source")],
 [("accumulator/low_order/high_order/offset/message","digest state so far","struct _*Info in each digest source")],
 ["UpdateHash","FinalizeHash","InitializeHash"])
prop("P06","Keyed authentication codes follow the standard construction",
 "For every key and message the keyed authentication code is H((K' xor opad) || H((K' xor ipad) || message)) where K' is the key zero-padded to the block size the hash object reports, or its hash first when it is longer than a block. An authentication object gives the same code for the same key and message however the message was fed and whatever the object was used for before; the key passed in is not modified.",
 ["inputs","histories","configurations"],"all keys of any length, all messages, all splittings, all supported hashes",
 "The suite has three short vectors per hash and never reuses an object or uses keys around the block size.",
 ["wizard/hmac.c","wizard/hash.c"],
 [("inner/outer key construction","wizard/hmac.c: ConstructHMAC/InitializeHMAC/FinalizeHMAC")],
 observe=["GetHMACDigest"])
prop("P07","The random stream is delivered without repeats or gaps",
 "The bytes handed out by successive requests to one random source, of any sizes, are consecutive bytes of one keyed stream: no stream byte is handed out twice and none that was not yet generated is handed out. Every block of the stream is generated from a distinct counter value until the counter space is exhausted, and the exact number of requested bytes is written, no more.",
 ["inputs","histories"],"all sequences of requests of all sizes",
 "The suite draws one key and compares it with itself; it cannot see reuse across differently sized requests.",
 ["wizard/random.c"],
 [("leftover reservoir and digest loop","wizard/random.c: SetRandomKey"),("counter increment","wizard/random.c: IncrementRandomNonce")],
 [("reservoir, i, nonce, seed","undelivered stream bytes, read position, counter, key","struct _RandomInfo in wizard/random.c")],
 ["SetRandomKey","GetRandomKey"])
prop("P08","Byte strings behave as values",
 "Cloning, copying, concatenating, splitting, resizing and comparing byte strings give exactly the bytes and lengths that value semantics prescribe, for all contents including embedded zero bytes and all lengths including zero. A clone is independent of its source, the source of a copy is unmodified, no operation reads or writes outside the strings' storage, and comparison is a total order that yields equality exactly for identical contents.",
 ["inputs","histories"],"all contents, lengths and sequences of operations",
 "The suite never calls most of these operations and never with overlapping lengths.",
 ["wizard/string.c"],
 [("string object operations","wizard/string.c: AcquireStringInfo, CloneStringInfo, CompareStringInfo, ConcatenateStringInfo, SplitStringInfo, SetStringInfo, SetStringInfoLength, SetStringInfoDatum, StringToStringInfo, StringInfoToString")],
 [("length, datum","recorded length and storage (length plus slack)","struct _StringInfo in wizard/string.c")],
 ["GetStringInfoLength","GetStringInfoDatum"])
prop("P09","Hex and Base64 text encodings are lossless",
 "For every non-empty byte string, encoding it as hexadecimal or Base64 text and decoding the text yields the same bytes and length, and the text is the standard encoding. Decoding arbitrary text never reads or writes outside its buffers.",
 ["inputs"],"all byte strings; all texts given to the decoders",
 "The suite encodes one fixed string.",
 ["wizard/string.c","wizard/utility.c"],
 [("hex codecs","wizard/string.c: StringInfoToHexString, HexStringToStringInfo, StringInfoToDigest"),("Base64 codecs","wizard/utility.c: Base64Encode, Base64Decode")],
 observe=["StringInfoToHexString","HexStringToStringInfo","Base64Encode","Base64Decode"])
prop("P10","Allocation sizes never wrap",
 "A request for count items of a given size either yields storage of at least count times size bytes, as a mathematical product, or is refused; a request whose product does not fit is always refused, and a refused resize leaves no usable short buffer. Sizes recorded in byte strings never exceed their storage, even for requests close to the maximum representable size.",
 ["inputs"],"all pairs of counts and sizes over the full machine range",
 "Tests allocate a few small blocks; wrap-around needs sizes near 2^64.",
 ["wizard/memory.c","wizard/string.c"],
 [("product overflow check","wizard/memory.c: AcquireQuantumMemory, AcquireAlignedMemory, ResizeQuantumMemory, AcquireVirtualMemory"),("slack overflow check","wizard/string.c: AcquireStringInfo, SetStringInfoLength, ConcatenateStringInfo")],
 observe=["AcquireQuantumMemory","ResizeQuantumMemory","AcquireAlignedMemory"])
prop("P11","Bounded text copies never overflow and always terminate",
 "Copying or appending text into a buffer of a stated capacity writes only within that capacity, always leaves a terminated string, and yields exactly the source text (or, when appending, the concatenation) truncated to what fits. Growing copies and concatenations produce exactly the concatenated text, and case-insensitive comparison is symmetric and agrees with comparing the lower-cased texts.",
 ["inputs"],"all source texts, destination contents and capacities",
 "Tests use short texts in large buffers.",
 ["wizard/string.c"],
 [("bounded copies","wizard/string.c: CopyWizardString, ConcatenateWizardString"),("growing copies","wizard/string.c: CloneString, ConcatenateString, ConstantString, AcquireString, SubstituteString"),("case folding compare","wizard/string.c/locale: LocaleCompare, LocaleNCompare")],
 observe=["CopyWizardString","ConcatenateWizardString","ConcatenateString","LocaleCompare"])
prop("P12","File transfers are exact under short reads, short writes and interruptions",
 "Reading or writing a run of bytes transfers exactly the requested bytes, in order and without duplication or loss, whatever sizes the operating system transfers at a time and however often calls are interrupted by signals; success is reported only if everything was transferred. Integers written to a file in 16, 32 or 64 bits are read back as the same value and occupy exactly that many bytes.",
 ["inputs","fault_sequences"],"all buffer lengths and all sequences of partial transfers, interruptions and errors from the operating system",
 "On a regular local file the kernel transfers everything at once, so tests never see a short transfer or an interruption.",
 ["wizard/file.c","wizard/blob.c"],
 [("retry loops","wizard/file.c: ReadFileChunk, WriteFileChunk; wizard/blob.c: ReadBlobChunk, WriteBlobChunk"),("integer codecs","wizard/file.c: ReadFile16Bits..WriteFile64Bits")],
 observe=["ReadFileChunk","WriteFileChunk","ReadBlobChunk","WriteBlobChunk"])
prop("P13","A keyring returns exactly what was stored and refuses what it cannot read",
 "Looking up an identifier in a keyring yields the key and nonce that were stored under that identifier, for any number and sizes of other entries, and fails when there is no such entry. A keyring file that is foreign, truncated or corrupt inside a record never makes a lookup succeed with a key or nonce that was not completely read from it, and storing reports success only when the complete record was written.",
 ["inputs","histories","fault_sequences"],"all sequences of stored entries, all file contents, all read/write failures",
 "The suite stores and fetches one key in a fresh file.",
 ["wizard/keyring.c"],
 [("record reader/writer","wizard/keyring.c: ExportKeyringKey, ImportKeyringKey")],
 observe=["ExportKeyringKey","ImportKeyringKey","GetKeyringKey"])
prop("P14","A secret is authenticated only by the right passphrase",
 "Authentication succeeds only when the key stored under the identifier, deciphered with the supplied passphrase and the stored nonce, has that identifier as its keyed hash under the passphrase, so that a wrong passphrase or an altered stored key is refused. When it succeeds the key handed out is exactly the one created when the secret was generated, of the requested length. Generating a secret reports success only if its key was stored.",
 ["inputs","histories"],"all passphrases, all stored key blocks including altered ones, all key lengths",
 "The suite generates one secret and authenticates it with the same passphrase; no altered block or wrong passphrase is tried.",
 ["wizard/secret.c","wizard/authenticate.c"],
 [("keyed hash check of the deciphered key","wizard/secret.c: AuthenticateSecretKey, GenerateSecretKey")],
 observe=["AuthenticateSecretKey","GetSecretKey"])
prop("P15","Compression is lossless",
 "For every message, every supported compressor and every level, restoring the compressed form with the original length yields exactly the original message. A failed compression or restoration is reported as a failure, and no step writes beyond the storage it reserved, whatever sizes the compression library produces.",
 ["inputs","fault_sequences"],"all messages, levels and outcomes of the compression library",
 "The suite round-trips one short string per compressor.",
 ["wizard/zip.c","wizard/bzip.c","wizard/lzma.c","wizard/entropy.c"],
 [("buffer sizing and result length","wizard/zip.c, bzip.c, lzma.c: Increase*/Restore*")],
 observe=["IncreaseEntropy","RestoreEntropy","GetEntropyChaos"])
prop("P16","Resource accounting never goes wrong",
 "The amount recorded for memory, map, disk and file resources is always the sum of the granted requests minus the releases; a request is granted exactly when the new total stays below the limit (and is representable), and a refused request leaves the recorded amount unchanged. An area request is granted exactly when it alone is below the limit. The answers are those of some sequential order for every interleaving of requests. A block of virtual memory holds exactly the resources it was granted and gives each back once.",
 ["inputs","histories"],"all sequences of requests and releases of all sizes",
 "Tests never approach a limit.",
 ["wizard/resource.c"],
 [("acquire/release accounting","wizard/resource.c: AcquireWizardResource, RelinquishWizardResource, GetWizardResource")],
 observe=["GetWizardResource"])
prop("P17","Linked lists behave as sequences",
 "After any history of operations a linked list holds exactly the values a mathematical sequence would hold after the same operations, in the same order, with the same count; reads by index and iteration return those values. Capacity is never exceeded.",
 ["inputs","histories"],"all sequences of operations and values",
 "Tests do not exercise the list API directly.",
 ["wizard/hashmap.c"],
 [("list operations","wizard/hashmap.c: AppendValueToLinkedList, InsertValueInLinkedList, InsertValueInSortedLinkedList, RemoveElement*, GetValueFromLinkedList, LinkedListToArray")],
 [("head, tail, elements, capacity","the sequence","struct _LinkedListInfo")],
 ["GetNumberOfElementsInLinkedList","GetNextValueInLinkedList"])
prop("P18","Hash maps behave as maps",
 "After any history of insertions, replacements, removals and growth a hash map returns for each key the value last stored under it, or nothing if it was removed or never stored, and its count is the number of distinct keys present. Colliding hash values, growth and the order of insertion make no difference.",
 ["inputs","histories"],"all sequences of operations, keys and hash functions",
 "Tests do not exercise the map API directly.",
 ["wizard/hashmap.c"],
 [("map operations","wizard/hashmap.c: PutEntryInHashmap, GetValueFromHashmap, RemoveEntryFromHashmap, IncreaseHashmapCapacity, iterators")],
 [("map, entries, capacity","buckets, count, table size","struct _HashmapInfo")],
 ["GetValueFromHashmap","GetNumberOfEntriesInHashmap"])
prop("P19","Splay trees behave as ordered maps",
 "After any history of insertions, lookups and deletions a splay tree returns for each key the value last stored under it, or nothing if absent; its count is the number of keys present and iteration visits every key exactly once in ascending order. Self-adjustment and rebalancing never lose, duplicate or reorder an entry.",
 ["inputs","histories"],"all sequences of operations and keys",
 "Tests touch the tree only through configuration loading.",
 ["wizard/splay-tree.c"],
 [("splaying, balancing and node removal","wizard/splay-tree.c: SplaySplayTree, BalanceSplayTree, AddValueToSplayTree, DeleteNodeFromSplayTree, RemoveNodeFromSplayTree, GetNextKeyInSplayTree")],
 [("root, nodes, next","the ordered map and its iterator","struct _SplayTreeInfo")],
 ["GetValueFromSplayTree","GetNextKeyInSplayTree"])
prop("P20","Enciphered files come back intact, and altered chunks are refused",
 "A file enciphered with the command-line tool and deciphered with the right passphrase comes back byte for byte, for every file size and every cipher, mode, hash, compression and chunk-size setting. A chunk whose authentication code does not match its deciphered content is reported as corrupt and none of its bytes is written to the output.",
 ["inputs","configurations"],"all file contents and sizes, all settings, all alterations of the enciphered file",
 "The suite runs the tool on a couple of small files and never alters the enciphered form.",
 ["utilities/encipher.c","utilities/decipher.c","utilities/cipher-info.c"],
 [("chunk loop with authentication code check","utilities/encipher.c: EncipherContent; utilities/decipher.c: DecipherContent")],
 observe=["encipher/decipher command exit status and output file"])
prop("P21","Configured symbol tables map names and codes consistently",
 "For every list of named choices (ciphers, modes, hashes, compressors, levels and the rest) the name printed for a code parses back to that code, and parsing accepts a name exactly when it is in the list, ignoring letter case and surrounding separators. A comma separated list parses to the union of its members and is refused if any member is unknown.",
 ["inputs"],"all names, codes and lists",
 "Tests use a few well known names.",
 ["wizard/option.c"],
 [("table lookup","wizard/option.c: ParseWizardOption, WizardOptionToMnemonic, GetOptionInfo")],
 observe=["ParseWizardOption","WizardOptionToMnemonic"])
prop("P22","XML content survives being written and read back",
 "Text and attribute values placed in an XML tree, written out as XML and parsed again are the same text for all characters including markup characters, and the tree has the same tags in the same order. Canonicalised content contains no raw markup characters.",
 ["inputs"],"all texts, attribute values and tree shapes",
 "The suite only parses the shipped configuration files.",
 ["wizard/xml-tree.c"],
 [("entity encoding and parsing","wizard/xml-tree.c: EncodePredefinedEntities, ParseEntities, XMLTreeTagToXML, NewXMLTree, CanonicalXMLContent")],
 observe=["XMLTreeInfoToXML","NewXMLTree","CanonicalXMLContent"])
prop("P23","Wildcard patterns match exactly the texts they describe",
 "For patterns of literal characters, escaped characters, single-character wildcards, any-run wildcards and character sets, matching succeeds exactly when the whole text is described by the pattern. Matching always terminates and never reads beyond the end of the pattern or the text.",
 ["inputs"],"all patterns and texts",
 "No test calls the matcher with anything but a lone wildcard.",
 ["wizard/token.c"],
 [("recursive matcher","wizard/token.c: GlobExpression")],
 observe=["GlobExpression"])
prop("P24","A file lock excludes other holders",
 "At any time at most one process has a given locked file open, and a process that fails to get the lock never disturbs the holder.",
 ["schedules","crash_points"],"all interleavings of processes opening and closing the same file",
 "Tests are single process.",
 ["wizard/file.c"],
 [("lock file creation","wizard/file.c: LockFile, AcquireFileInfo, DestroyFileInfo")],
 observe=["AcquireFileInfo"])
prop("P25","Adding a key survives a crash without losing older keys",
 "If the process or machine stops at any point while a key is being added to a keyring, every key stored earlier is still found afterwards.",
 ["crash_points"],"all points at which a store into a keyring can be cut off",
 "Tests never interrupt a store.",
 ["wizard/keyring.c","wizard/file.c"],
 [("append-only records after a fixed header","wizard/keyring.c: ImportKeyringKey")],
 observe=["ExportKeyringKey"])
prop("P26","Shared registries are safe under concurrent use",
 "Concurrent calls from several threads on one container, random source or registry have the effect of the same calls made one after another in some order.",
 ["schedules"],"all interleavings of calls from several threads",
 "Tests are single threaded.",
 ["wizard/hashmap.c","wizard/splay-tree.c","wizard/random.c","wizard/resource.c","wizard/semaphore.c"],
 [("per-object semaphores","LockSemaphoreInfo/UnlockSemaphoreInfo around each operation")],
 observe=["container and resource queries"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
