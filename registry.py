"""Units per property."""
COMMON_ASSUME=['gcc/goto-cc agree on the meaning of the C sources (x86-64, little endian)','vf/instr.py edits change nothing but what they state','CBMC 6.11.0, its C library models (memcpy, memset, malloc, ...) and the SAT/SMT back ends are sound','logging, message formatting and the clock have no effect on results (env/env.c)']
PROPS={}
def P(id,level='proof',**k): PROPS[id]=dict(level=level,proof=[],native=[],**k)
def add(props,u):
    for p in props.split(): PROPS[p]['native' if u['src'].startswith('n_') else 'proof'].append(u)
P('P04',note='all messages up to 2^48 bytes per update and every counter value; SHA-3 streaming for one rate in the quick tier, all rates in the thorough tier',
  design='Each digest is split at its representation invariant: after N bytes the accumulator is the chained compression of the first N - N mod B bytes, the buffer holds the rest and the bit counter is 8N. Init establishes it, Update preserves it for any piece of any length (loop cut over whole blocks), Final applies the standard padding for every counter value and buffer fill; the compression function equals the FIPS/RFC definition written independently in spec/hash_spec.h (constants recomputed from primes, sines and the LFSR by spec/gen_consts.py) for every chaining value and block (word-level equivalence). CRC-64 is a bitwise-polynomial step invariant. By induction over the updates the digest is the published function of the whole message.')
P('P05',note='as P04',design='The same init/update/final contracts: update depends on earlier pieces only through the representation invariant, which is a function of the concatenation so far; init establishes it from an arbitrary earlier object state; the frame condition says the caller\'s message is unchanged.')
add('P04 P05',dict(id='n_hash',src='n_hash.c',secs=8,bound='messages up to 1200 bytes, up to 6 pieces'))
SI=[('string.c','StringInfo')]
MD={'MD5':('md5','MD5'),'SHA1':('sha1','SHA1'),'SHA224':('sha2224','SHA2224'),'SHA256':('sha2256','SHA2256'),'SHA384':('sha2384','SHA2384'),'SHA512':('sha2512','SHA2512')}
for k,(f,n) in MD.items():
    src='wizard/%s.c'%f
    add('P04',dict(id='%s.block'%k,src='p_md_block.c',defs={'H_'+k:1},real=['string'],solver='dd',unwind=300,functions=['Transform'+n,'Update'+n],cost=3))
    add('P04 P05',dict(id='%s.init'%k,src='p_md_init.c',defs={'H_'+k:1},real=['string'],functions=['Acquire%sInfo'%n,'Initialize'+n]))
    add('P04 P05',dict(id='%s.update'%k,src='p_md_update.c',defs={'H_'+k:1,'V_NO_COPY':1},unwind=130,fs=False,
        instr={src:[('stub','Transform'+n),('cut','Update'+n,'Transform','upd')]},functions=['Update'+n],cost=5))
    add('P04 P05',dict(id='%s.final'%k,src='p_md_final.c',defs={'H_'+k:1},structs=SI,real=[] if k=='MD5' else ['string'],unwind=260,
        instr={src:[('stub','Transform'+n)]+([('stub','UpdateMD5')] if k=='MD5' else [])},functions=['Finalize'+n],cost=4))
S3={'SHA3':('SHA3Hash',36,1024),'SHA3-224':('SHA3224Hash',28,1152),'SHA3-256':('SHA3256Hash',32,1088),'SHA3-384':('SHA3384Hash',48,832),'SHA3-512':('SHA3512Hash',64,576)}
for k,(t,ds,rate) in S3.items():
    D={'HT':t,'DS':ds}
    add('P04 P05',dict(id=k+'.init',src='p_sha3_block.c',defs=dict(D,INIT=1),real=['string'],unwind=260,functions=['AcquireSHA3Info','InitializeSHA3','InitializeSponge','SHA3InitializeRoundConstants','SHA3InitializeRho','LFSR86540']))
    add('P04 P05',dict(id=k+'.update',src='p_sha3_stream.c',defs=D,fs=True,fsn=0,solver='cadical',timeout=420,thorough_only=(k!='SHA3-256'),real=['string'],structs=SI,unwind=260,instr={'wizard/sha3.c':[('stub','SHA3PermutationAfterXor'),('cut','Absorb','bits_in_queue != 0','out'),('cut','Absorb',r'p\+=%d/8'%rate,'i')]},functions=['UpdateSHA3','Absorb','AbsorbQueue'],cost=6))
    add('P04 P05',dict(id=k+'.final',src='p_sha3_final.c',defs=D,real=['string'],structs=SI,unwind=260,fs=True,fsn=0,flags=['--object-bits','12'],vac_defs={'KONLY':70},instr={'wizard/sha3.c':[('stub','SHA3PermutationAfterXor'),('stub','SHA3Permutation')]},thorough_only=(k not in('SHA3-256','SHA3-512')),functions=['FinalizeSHA3','Squeeze','PadAndSwitchToSqueezingPhase','AbsorbQueue'],cost=5))
add('P04 P05',dict(id='CRC64.init',src='p_crc64.c',defs={'INIT':1},real=['string'],structs=SI,unwind=260,instr={'wizard/crc64.c':[]},functions=['AcquireCRC64Info','InitializeCRC64']))
add('P04 P05',dict(id='CRC64.update',src='p_crc64.c',real=['string'],structs=SI,unwind=260,instr={'wizard/crc64.c':[('cut','UpdateCRC64','crc_xor','upd')]},functions=['UpdateCRC64','FinalizeCRC64']))
D={'HT':'SHA3256Hash','DS':32}
add('P04',dict(id='keccak.words',src='p_sha3_block.c',defs=dict(D,WORDS=1),real=['string'],solver='dd',unwind=260,functions=['SHA3PermutationOnWords'],cost=4))
add('P04',dict(id='keccak.xor',src='p_sha3_block.c',defs=dict(D,XORS=1),real=['string'],unwind=260,instr={'wizard/sha3.c':[('stub','SHA3PermutationOnWords')]},functions=['SHA3PermutationAfterXor','SHA3Permutation'],cost=5))
P('P02',note='keys of 128, 192 and 256 bits (ChaCha 128 and 256), every key, every block',
  design='Key set-up, encipherment and decipherment of one block are contracts over the key schedule: for every key the schedule is the published one, for every schedule and block the result is the published transformation (AES FIPS 197, Serpent and Twofish as submitted, ChaCha permutation with feed-forward), written independently in spec/cipher_spec.h; S-boxes, MDS and RS products are recomputed by spec/gen_cipher.py. Decided by word-level equivalence sweeping with exhaustive value tables for byte-wide functions.',
  assume=['ChaCha is used by the toolkit as a 64-byte xor pad per block with a fixed counter; the property is about that function, not about RFC 8439 message encryption'])
add('P02',dict(id='n_block',src='n_block.c',secs=8,bound='random keys and blocks, fresh and re-keyed objects'))
SM={'SWEEP_SMALL':'1'}
for n in(16,24,32):
    add('P02',dict(id='AES.key%d'%(8*n),src='p_aes.c',defs={'SETKEY':1,'KL':n},real=['string'],solver='dd',xenv=SM,unwind=300,functions=['SetAESKey','InverseAddRoundKey','ByteMultiply','ByteSubTransform'],cost=3))
    add('P02',dict(id='AES.enc%d'%(8*n),src='p_aes.c',defs={'ENC':1,'KL':n},real=['string'],solver='dd',xenv=SM,unwind=300,functions=['EncipherAESBlock','AddRoundKey','InitializeRoundKey','FinalizeRoundKey'],cost=3))
    add('P02',dict(id='AES.dec%d'%(8*n),src='p_aes.c',defs={'DEC':1,'KL':n},real=['string'],solver='dd',xenv=SM,unwind=300,functions=['DecipherAESBlock'],cost=3))
for n in(16,24,32):
    add('P02',dict(id='Twofish.key%d'%(8*n),src='p_twofish.c',defs={'SETKEY':1,'KL':n},real=['string'],solver='dd',xenv=SM,unwind=300,functions=['SetTwofishKey'],cost=3))
    add('P02',dict(id='Twofish.tab%d'%(8*n),src='p_twofish.c',defs={'SETKEY':2,'KL':n},real=['string'],solver='dd',xenv=SM,unwind=300,functions=['SetTwofishKey'],cost=3))
    add('P02',dict(id='Serpent.key%d'%(8*n),src='p_serpent.c',defs={'SETKEY':1,'KL':n},real=['string'],solver='dd',unwind=300,functions=['SetSerpentKey'],cost=3))
    if n!=24: add('P02',dict(id='Chacha.key%d'%(8*n),src='p_chacha.c',defs={'SETKEY':1,'KL':n},real=['string'],solver='sat',unwind=300,functions=['SetChachaKey','AcquireChachaInfo'],cost=3))
for c,C,e in(('twofish','Twofish',{}),('serpent','Serpent',{}),('chacha','Chacha',{})):
    for d in('ENC','DEC'): add('P02',dict(id='%s.%s'%(C,d.lower()),src='p_%s.c'%c,defs={d:1},real=['string'],solver='dd',xenv=e,unwind=300,functions=[('Encipher' if d=='ENC' else 'Decipher')+C+'Block'],cost=3))
P('P01',note='every message length up to 2^40, every key and nonce; key lengths 16/24/32 fully, other lengths through the four representative lengths 1, 15, 20, 33',
  design='(1) Each mode loop is cut at its invariant with an arbitrary block J and byte b tracked: encipherment and decipherment are the textbook equations over an arbitrary block function, the padding is recorded in the last byte and removed by decipherment, and nothing behind the text is touched. (2) modes.lemma: the two equations of each mode are inverse to each other when D inverts E. (3) D inverts E: directly for ChaCha, Serpent and Twofish (real functions composed), through the published specification for AES (AES.enc/dec plus the algebraic lemmas AES.lemma0/1). (4) key set-up depends on the key alone (keydet: two objects with different pasts get equal schedules). (5) the dispatching functions pass key, nonce and block functions through unchanged (api).',
  assume=['AES.lemma0 states additivity of the field multiplications and the matrix product entry by entry; that these give InvMix(Mix(x)^w)=x^InvMix(w) is expansion by hand'])
P('P03',note='every message length up to 2^40, every nonce; block sizes 16 and 64',
  design='The mode contracts of P01 on the enciphering side: the input of every call of the block function and every output byte are the textbook ones; for CTR the input of call j is nonce + j as a big-endian integer, distinct for distinct j until the counter wraps, and the wrap ends in a fatal error instead of reuse.')
MODES=['CBC','CFB','CTR','ECB','OFB']
for k,m in enumerate(MODES):
    for d in(0,1):
        for bs in(16,64):
            f=('Decipher' if d else 'Encipher')+m+'Mode'
            add('P01 P03',dict(id='%s.%s%d'%(m,'dec' if d else 'enc',bs),src='p_mode.c',defs={'MODE':k+1,'DEC':d,'BS':bs,'V_OWN_EXIT':1},structs=SI,real=['string'],unwind=130,fs=False,
              instr={'wizard/cipher.c':[('cut',f,'p < q','m')]},functions=[f]+(['IncrementCipherNonce'] if m=='CTR' else []),cost=3))
add('P01 P03',dict(id='n_cipher',src='n_cipher.c',secs=8,bound='messages up to 200 bytes, keys up to 40 bytes'))
CI={'aes':('AES','C_AES',16),'chacha':('Chacha','C_CHACHA',64),'serpent':('Serpent','C_SERPENT',16),'twofish':('Twofish','C_TWOFISH',16)}
for f,(C,d,bs) in CI.items():
    for nr in(() if f=='aes' else (0,)):
        add('P01',dict(id='%s.inverse%s'%(C,nr or ''),src='p_inverse.c',defs={d:1,'BS':bs,'NR':nr,'CIPHERC':'"wizard/%s.c"'%f},real=['string'],solver='dd',xenv=SM if f=='aes' else {},unwind=300,functions=['Encipher%sBlock'%C,'Decipher%sBlock'%C],cost=3))
    for kl in(1,15,20,33):
        add('P01',dict(id='%s.keydet%d'%(C,kl),src='p_keydet.c',defs={d:1,'KL':kl,'CIPHERC':'"wizard/%s.c"'%f},real=['string'],solver='sat' if f=='chacha' else 'dd',xenv=SM if f=='aes' else {},unwind=300,functions=['Set%sKey'%C],cost=2))
for pt in range(2): add('P01',dict(id='AES.lemma%d'%pt,src='p_aes_lemma.c',defs={'PART':pt},unwind=300,functions=[]))
PROPS['P01']['proof']+=[u for u in PROPS['P02']['proof'] if u['id'].startswith('AES.')]
add('P01',dict(id='modes.lemma',src='p_mode_lemma.c',functions=[]))
for ti in range(4):
    for nl in(16,64): add('P01 P03',dict(id='api.%s%d'%(['AES','Chacha','Serpent','Twofish'][ti],nl),src='p_cipher_api.c',defs={'TI':ti,'NL':nl},real=['string'],structs=SI,unwind=130,functions=['AcquireCipherInfo','SetCipherKey','SetCipherNonce','ResetCipherNonce','GetCipherNonce','GetCipherBlocksize','GenerateCipherNonce']))
P('P06',note='every key and message up to 2^40 bytes; block sizes 64 and 128 with digest sizes 16..64',
  design='The hash is replaced by its contract (P04/P05): a transcript tracked by its length and the byte at an arbitrary position X. InitializeHMAC establishes transcript = K\'^ipad from any earlier object state, UpdateHMAC appends, ResetHMAC returns to K\'^ipad, FinalizeHMAC computes H(K\'^opad || H(transcript)) and keeps both keys; by induction over the updates the code is the standard construction and depends on key and message alone. The dispatcher units tie the abstract hash to the digests of P04.',
  assume=['the hash object obeys the contract proved as P04/P05'])
add('P06',dict(id='n_hmac',src='n_hmac.c',secs=6,bound='keys up to 400 bytes, messages up to 700 bytes'))
for bs,ds in((64,16),(64,32),(128,64),(32,8)):
    for k in('INIT','UPD','RESET','FIN'): add('P06',dict(id='HMAC.%s%d-%d'%(k.lower(),bs,ds),src='p_hmac.c',defs={k:1,'BS':bs,'DS':ds},structs=SI,real=['string'],unwind=130,fs=False,functions=['AcquireHMACInfo']+{'INIT':['InitializeHMAC','ResetHMAC'],'UPD':['UpdateHMAC'],'RESET':['ResetHMAC'],'FIN':['FinalizeHMAC']}[k]))
for t,fam,ds in(('CRC64Hash','CRC64',8),('MD5Hash','MD5',16),('SHA1Hash','SHA1',20),('SHA2Hash','SHA2256',32),('SHA2224Hash','SHA2224',28),('SHA2256Hash','SHA2256',32),('SHA2384Hash','SHA2384',48),('SHA2512Hash','SHA2512',64),('SHA3Hash','SHA3',36),('SHA3224Hash','SHA3',28),('SHA3256Hash','SHA3',32),('SHA3384Hash','SHA3',48),('SHA3512Hash','SHA3',64)):
    add('P04 P05 P06',dict(id='hash.'+t[:-4],src='p_hash_api.c',defs={'HT':t,'FAM':'F_'+fam,'DS':ds},structs=SI,real=['string'],unwind=70,functions=['AcquireHashInfo','InitializeHash','UpdateHash','FinalizeHash','GetHashDigest','GetHashDigestsize','GetHashBlocksize','DestroyHashInfo']))
P('P07',note='every request size up to 2^40, every reservoir state and counter value; digest sizes 16, 32, 64',
  design='SetRandomKey is proved against HMAC\'s contract: the generator state is (counter, reservoir, position i) with the bytes behind i not yet handed out; an arbitrary byte K of a request of any length is byte K of the remaining stream, every block is generated from counter, counter+1, ... (a fatal error ends the run when the counter wraps), and afterwards the state describes exactly the rest of the stream. Successive requests compose through that state.',
  assume=['HMAC obeys the contract proved as P06; different counter values are assumed to give unrelated blocks (cryptographic assumption, not needed for the property)'])
for ds in(16,32,64): add('P07',dict(id='stream%d'%ds,solver='cadical',timeout=300,src='p_random.c',defs={'DS':ds,'V_OWN_EXIT':1,'V_NO_COPY':1},structs=SI,real=['string'],unwind=131,fs=False,instr={'wizard/random.c':[('cut','SetRandomKey','CopyWizardMemory','m'),('cut','SetRandomKey',r'random_info->i\+\+','a'),('cut','SetRandomKey',r'p\[i\]=datum\[i\]','z')]},functions=['SetRandomKey','IncrementRandomNonce'],cost=3))
add('P07',dict(id='n_random',src='n_random.c',included=['random'],secs=6,bound='up to 12 requests of up to 256 bytes per source'))
P('P08',note='every content and every length up to 2^40',
  design='Each operation of string.c is proved against value semantics for strings of arbitrary length and content: byte T of the result, T arbitrary, is the byte value semantics prescribe, lengths are exact, the storage allowance behind every string is re-established, sources are unchanged and results have their own storage. memcmp is represented by its C standard contract (first difference).',
  assume=['memcmp obeys its C standard contract'])
PC=['--pointer-check','--bounds-check']
OPS=['clone','set','concat','split','resize','compare','blob','text','reset','setdatum','acquire','fromtext','selfconcat']
OPF=['CloneStringInfo','SetStringInfo','ConcatenateStringInfo','SplitStringInfo','SetStringInfoLength','CompareStringInfo','BlobToStringInfo','StringInfoToString','ResetStringInfo','SetStringInfoDatum','AcquireStringInfo','StringToStringInfo','ConcatenateStringInfo']
for i,o in enumerate(OPS): add('P08',dict(id='string.'+o,src='p_string.c',defs=dict({'OP':i+1},**({'TRACKED':1,'V_NO_REALLOC':1} if o in('concat','split','resize','blob','selfconcat') else {})),fs=False,unwind=13,checks=PC,functions=[OPF[i]]))
add("P08",dict(id="n_string",native=True,src="n_string.c",secs=4,asan=True,bound="random sequences of up to 12 operations on three strings of up to 40000 bytes"))
P('P09',note='every message and text up to 2^40 bytes',
  design='The four codecs are proved with their loops cut: an arbitrary byte T (hex) or group G (Base64) of a message of any length is encoded as the standard prescribes and decoded from the standard encoding to the same bytes, lengths are exact, and for arbitrary text the Base64 decoder stays inside its buffers. A lemma unit shows that the standard encodings are injective, which closes the round trip.',
  assume=['isspace and strlen obey their C standard contracts (C locale)'])
B64D=[('cut','Base64Decode',0,'d')]
for i,(o,f,s,c) in enumerate((('hexenc','StringInfoToHexString','string',[('cut','StringInfoToHexString',0,'h')]),('hexdec','HexStringToStringInfo','string',[('cut','HexStringToStringInfo',0,'h')]),
    ('b64enc','Base64Encode','utility',[('cut','Base64Encode',0,'e')]),('b64dec','Base64Decode','utility',B64D),
    ('b64any','Base64Decode','utility',B64D+[('cut','Base64Decode',1,'w2'),('cut','Base64Decode',2,'w3')]),('lemma',None,None,None),('arith',None,None,None))):
    for x in((0,1,2) if o in('b64enc','b64dec') else (None,)):
        add('P09',dict(id='codec.'+o+('' if x is None else str(x)),src='p_codec.c',solver='cvc5int' if o=='arith' else 'cadical' if o=='b64dec' else 'sat',defs=dict({'OP':i+1},**(dict({'X':x},**({'V_NO_ACQUIRE':1} if o=='b64enc' else {})) if x is not None else {})),fs=False,unwind=70,checks=PC,
            timeout=450,functions=[f] if f else [],unwindset={'Base64Decode.1':2,'Base64Decode.2':2} if o=='b64dec' else {},**(dict(instr={'wizard/%s.c'%s:c}) if s else {})))
add('P09',dict(id='n_codec',src='n_codec.c',secs=5,asan=True,bound='messages up to 3000 bytes, arbitrary texts up to 24 characters'))
P('P10',note='every count and size up to the maximum',
  design='The allocation layer is proved for all 2^128 pairs of count and size against a recording system allocator: whatever is granted is at least the mathematical product, a product that does not fit is refused without asking, and a refused resize has released the old block. Byte strings are proved on top of that contract for lengths up to the maximum representable size.',
  assume=['malloc, realloc and posix_memalign return storage of the requested size or fail'])
for i,o,f,sv,x in((1,'quantum','AcquireQuantumMemory','z3',{}),(2,'requantum','ResizeQuantumMemory','z3',{}),(3,'aligned','AcquireAlignedMemory','z3',{}),(4,'plain','AcquireWizardMemory','sat',{}),(5,'replain','ResizeWizardMemory','sat',{}),
    (6,'virtual','AcquireVirtualMemory','sat',{'VQ':0}),(6,'virtwrap','AcquireVirtualMemory','z3',{'VQ':1}),(7,'arith',None,'cvc5int',{})):
    add('P10',dict(id='memory.'+o,src='p_memory.c',solver=sv,**({'instr':{'wizard/memory.c':[('stub','AcquireAlignedMemory'),('stub','ResetWizardMemory')]}} if i==6 else {}),defs=dict({'OP':i,'V_EXIT_OK':1},**x),env=['env.c'],fs=i==6,fsn=5000,unwind=6,functions=[f] if f else []))
for i,f in enumerate(('AcquireStringInfo','SetStringInfoLength','BlobToStringInfo','ConcatenateStringInfo','SplitStringInfo','CloneStringInfo','StringInfoToString')):
    add('P10',dict(id='size.'+f,src='p_strmax.c',defs={'OP':i+1,'V_NO_ACQUIRE':1,'V_NO_REALLOC':1,'V_EXIT_OK':1},fs=False,unwind=13,checks=PC,functions=[f]))
add('P10',dict(id='n_memory',src='n_memory.c',secs=5,asan=True,bound='random counts and sizes of all magnitudes'))
for n,d in(('copy',{'OP':1,'SAME':0}),('move',{'OP':1,'SAME':1,'SMALL':0}),('movesmall',{'OP':1,'SAME':1,'SMALL':1}),('fill',{'OP':2})):
    add('P08',dict(id='memory.'+n,src='p_memcpy.c',defs=d,env=['env.c'],fs=False,unwind=10,solver='cadical' if n[:4]=='move' else 'sat',checks=[] if n=='copy' else PC,functions=['ResetWizardMemory' if n=='fill' else 'CopyWizardMemory'],**({'instr':{'wizard/memory.c':[('cut','ResetWizardMemory',0,'f')]}} if n=='fill' else {})))
P('P11',note='every text and capacity up to 2^40 bytes',
  design='CopyWizardString and LocaleLower are proved with their loops cut for an arbitrary byte T of texts of any length; AcquireString, ConstantString, CloneString and ConcatenateString are proved straight through. ConcatenateWizardString and the comparisons are proved twice: as configured here, where they must hand their arguments to strlcat, strcasecmp and strncasecmp unchanged, and in the portable configuration, where their own loops are proved against the definition.',
  assume=['strlen, tolower, strlcat, strcasecmp and strncasecmp obey their library contracts (C locale)'])
LC={'wizard/string.c':[('cut','LocaleCompare',0,'a')]}; LN={'wizard/string.c':[('cut','LocaleNCompare',0,'a')]}
for i,o,f,ins,x in((1,'copy','CopyWizardString',{'wizard/string.c':[('cut','CopyWizardString',0,'a'),('cut','CopyWizardString',1,'b')]},{}),(2,'append','ConcatenateWizardString',{},{}),(2,'append-portable','ConcatenateWizardString',{'wizard/string.c':[('cut','ConcatenateWizardString',0,'a'),('cut','ConcatenateWizardString',1,'b')]},{'FALLBACK':1}),
    (3,'compare','LocaleCompare',{},{}),(3,'compare-portable','LocaleCompare',LC,{'FALLBACK':1}),(4,'ncompare','LocaleNCompare',{},{}),(4,'ncompare-portable','LocaleNCompare',LN,{'FALLBACK':1}),(5,'lower','LocaleLower',{'wizard/string.c':[('cut','LocaleLower',0,'a')]},{}),
    (6,'acquire','AcquireString',{},{}),(7,'constant','ConstantString',{},{}),(8,'clone','CloneString',{},{'TRACKED':1,'V_NO_REALLOC':1}),(9,'concat','ConcatenateString',{},{'TRACKED':1,'V_NO_REALLOC':1})):
    add('P11',dict(id='text.'+o,src='p_text.c',defs=dict({'OP':i},**x),fs=False,unwind=13,checks=PC,functions=[f],**({'instr':ins} if ins else {})))
add('P11',dict(id='n_text',src='n_text.c',secs=5,asan=True,bound='random texts up to 9000 characters'))
P('P12',note='runs of up to 2^40 bytes, every sequence of partial transfers, interruptions and errors',
  design='read, write, fread and fwrite are replaced by their contracts: any part of what was asked for may be transferred, any call may be interrupted or fail. The transfer loops are cut with an arbitrary byte T tracked: each call goes on exactly where the previous one stopped, asks for no more than remains, and none is made after the end of the file or an error; success is reported exactly when all bytes were transferred. The integer codecs are proved against that contract.',
  assume=['read, write, fread, fwrite, getc, putc, mmap, zlib and bzlib streams transfer the next bytes of the stream in order and report how many'])
FC={'wizard/file.c':[('stub','ReadFileChunk'),('stub','WriteFileChunk')]}
for i,o,f,ins in((1,'read','ReadFileChunk',{'wizard/file.c':[('cut','ReadFileChunk',0,'a')]}),(2,'write','WriteFileChunk',{'wizard/file.c':[('cut','WriteFileChunk',0,'a')]}),(3,'int16','WriteFile16Bits ReadFile16Bits ReadFileByte',FC),(4,'int32','WriteFile32Bits ReadFile32Bits',FC),(5,'int64','WriteFile64Bits ReadFile64Bits',FC)):
    add('P12',dict(id='file.'+o,src='p_file.c',defs={'OP':i},fs=False,unwind=10,checks=PC,functions=f.split(),instr=ins))
for i,o,f,ins,x in((1,'chunkin','ReadBlobChunk',{'wizard/blob.c':[('cut','ReadBlobChunk',0,'a'),('stub','ReadBlob'),('stub','WriteBlob')]},{}),(2,'chunkout','WriteBlobChunk',{'wizard/blob.c':[('cut','WriteBlobChunk',0,'a'),('stub','ReadBlob'),('stub','WriteBlob')]},{}),
    (5,'memory','WriteBlob SyncBlob',{},{'BYTE':0,'TRACKED':1,'V_NO_REALLOC':1,'V_RESIZE_FAIL':1}),(8,'memread','ReadBlob ReadBlobChunk',{},{'BYTE':0,'TRACKED':1,'V_NO_REALLOC':1}),(8,'memreadbyte','ReadBlobByte',{},{'BYTE':1,'TRACKED':1,'V_NO_REALLOC':1}),(5,'memorybyte','WriteBlobByte SetBlobExtent',{},{'BYTE':1,'TRACKED':1,'V_NO_REALLOC':1,'V_RESIZE_FAIL':1}),
    (6,'fromfile','FileToBlob',{'wizard/blob.c':[('stub','MapBlob'),('stub','UnmapBlob'),('cut','FileToBlob',0,'a'),('cut','FileToBlob',1,'b')]},{'TRACKED':1,'V_NO_REALLOC':1,'V_RESIZE_FAIL':1}),
    (7,'close','CloseBlob',{},{})):
    add('P12',dict(id='blob.'+o,src='p_blob.c',defs=dict({'OP':i},**x),fs=False,unwind=10,checks=PC,functions=f.split(),instr=ins))
for t in('FileStream','PipeStream','StandardStream','ZipStream','BZipStream'):
    for i,f in((3,'ReadBlob'),(4,'WriteBlob')): add('P12',dict(id='blob.%s.%s'%(f,t[:-6]),src='p_blob.c',defs={'OP':i,'TYPE':t},fs=False,unwind=10,checks=PC,functions=[f]))
add('P12',dict(id='n_file',src='n_file.c',secs=6,asan=True,bound='runs up to 40000 bytes through files, pipes and compressed blobs, with random partial transfers, interruptions and errors'))
P('P13',note='any number of records, fields up to 2^32-1 bytes (the width of their length fields), the file ending or failing anywhere',
  design='Reader and writer are held to one description of the record layout over the contract of the file layer (P12): ImportKeyringKey writes exactly the fields of the layout, at the end of the file, with the contents given, and reports success only if every write succeeded; ExportKeyringKey, its record loop cut at the record boundary, reads the fields in that order with the lengths just read, stops at the first record whose identifier is the one asked for, hands out exactly that record\'s key and nonce (arbitrary byte of each tracked), and never succeeds on a record that was not read completely.',
  assume=['the file layer obeys the contract proved as P12, byte strings the one proved as P08'])
for i,o,f,ins in((1,'lookup','ExportKeyringKey SetKeyringKey SetKeyringNonce',{'wizard/keyring.c':[('cut','ExportKeyringKey',0,'r')]}),(2,'store','ImportKeyringKey AcquireKeyringInfo SetKeyringId DestroyKeyringInfo',{'wizard/keyring.c':[('stub','ExportKeyringKey')]})):
    add('P13',dict(id='keyring.'+o,structs=SI,src='p_keyring.c',defs={'OP':i},fs=True,unwind=13,checks=PC,functions=f.split(),instr=ins))
add('P13',dict(id='n_keyring',src='n_keyring.c',secs=6,asan=True,bound='key rings of up to 8 entries, fields up to 300 bytes, truncated at any byte, headers and signatures damaged, file size limits'))
P('P14',note='every passphrase, key length, key ring content and number of identifier collisions',
  design='Byte strings are values with a length; the cipher is an uninterpreted permutation under key and nonce (P01), HMAC an uninterpreted function (P06), the key ring its contract (P13). AuthenticateSecretKey succeeds exactly if the record under the identifier deciphers, under the supplied passphrase and the stored nonce, to a key whose HMAC under the passphrase is the identifier, and hands out that key. GenerateSecretKey, its loop over identifier collisions cut, reports success exactly if it stored the record from which the first function recovers the same key of the requested length; the two are run one after the other in one proof. The interface in authenticate.c is proved to hand over each operation.',
  assume=['deciphering inverts enciphering under the same key and nonce (P01), HMAC is a function of key and message (P06), the key ring obeys P13; that a wrong passphrase does not by accident give the right HMAC is the security of HMAC, not of this code'])
for g,o,f in((0,'authenticate','AuthenticateSecretKey SetSecretId SetSecretPassphrase DestroySecretInfo'),(1,'generate','GenerateSecretKey AcquireSecretInfo SetSecretKeyLength GetSecretKey GetSecretId')):
    add('P14',dict(id='secret.'+o,structs=SI,src='p_secret.c',defs={'GEN':g,'V_REAL_EXCEPTION':1},fs=True,unwind=13,checks=PC,functions=f.split(),**({'instr':{'wizard/secret.c':[('cut','GenerateSecretKey',0,'g')]}} if g else {})))
add('P14',dict(id='authenticate',src='p_auth.c',defs={},fs=True,unwind=5,checks=PC,functions=['AcquireAuthenticateInfo','AuthenticateKey','GenerateAuthenticateKey','DestroyAuthenticateInfo','GetAuthenticateKey','SetAuthenticateId']))
add('P14',dict(id='n_secret',src='n_secret.c',secs=6,asan=True,bound='up to 3 secrets, passphrases up to 71 bytes, keys up to 327 bits, single altered bytes'))
P('P15',note='every message up to 2^40 bytes, every level, every outcome of the compression libraries',
  design='zlib, bzlib and liblzma are represented by their documented contracts (a call takes some of what it is offered, writes within the room offered, ends only when everything was taken; ends surely when it has the room documented as sufficient). The loops feeding them are cut: the next bytes of the message and the room behind the output so far are offered, finishing only with all of the message; success is reported exactly when the stream was completed, the result is exactly the library\'s output, and without a failure of the library compression and restoration succeed. The dispatch in entropy.c is proved to hand over each operation.',
  assume=['zlib, bzlib and liblzma obey their documented contracts: streams are lossless, deflateBound, n+n/100+600 and n+n/3+128 bytes suffice, calls stop only for lack of input or room'])
for kd,o,F in((1,'zip','ZIP'),(2,'bzip','BZIP'),(3,'lzma','LZMA')):
    for en,op in((1,'Increase'),(0,'Restore')):
        add('P15',dict(id='%s.%s'%(o,op.lower()),structs=SI,src='p_entropy.c',defs={'KIND':kd,'ENC':en},fs=True,solver='cvc5int' if (kd,en)==(2,1) else 'sat',unwind=5,checks=PC,functions=[op+F,'Acquire%sInfo'%F],**({'instr':{'wizard/%s.c'%o:[('cut',op+F,0,'l')]}} if kd < 3 else {})))
add('P15',dict(id='entropy',src='p_entropyd.c',defs={},fs=True,unwind=5,checks=PC,functions=['AcquireEntropyInfo','IncreaseEntropy','RestoreEntropy','GetEntropyChaos','DestroyEntropyInfo']))
add('P15',dict(id='n_entropy',src='n_entropy.c',secs=6,asan=True,bound='sequences of up to 3 messages of up to 200000 bytes, streams truncated or altered in one byte'))
P('P16',note='every amount, limit and request, every interleaving of operations',
  design='Each operation of resource.c is proved from an arbitrary state for all 64-bit amounts, limits and requests. The state is made arbitrary when the lock is taken and lost when it is given back, so the result holds for every interleaving with other threads: within one critical section the request is granted exactly if the mathematical total stays below the limit, a granted one is added, a refused one leaves the amount, and nothing else changes. Virtual memory is proved to hold exactly the resources its kind needs and to give each back once, on every failure path.',
  assume=['the semaphore excludes other threads between lock and unlock'])
add('P16',dict(id='resource',src='p_resource.c',defs={'V_NO_FORMAT':1},fs=True,unwind=5,checks=PC,functions=['AcquireWizardResource','RelinquishWizardResource','GetWizardResource','GetWizardResourceLimit','SetWizardResourceLimit']))
add('P16',dict(id='virtual',src='p_vmres.c',defs={'V_EXIT_OK':1},env=['env.c'],fs=True,unwind=6,assume=['WizardPathExtent reduced to 8 in this unit: the code only passes the name on'],functions=['AcquireVirtualMemory','RelinquishVirtualMemory'],instr={'wizard/memory.c':[('stub','AcquireAlignedMemory'),('stub','RelinquishAlignedMemory'),('stub','AcquireWizardMemory'),('stub','RelinquishWizardMemory'),('stub','ResetWizardMemory')]}))
add('P16',dict(id='n_resource',src='n_resource.c',secs=6,asan=True,bound='histories of up to 30 requests; 4 threads with 300 requests each'))
P('P17',note='lists of any length up to 2^40, every position, value, capacity, iterator position and outcome of allocation',
  design='The list is any sequence of elements; facts about single elements are introduced where the code reaches them, each an instance of the list invariant, and the walking loops are cut with the walked-to position as the invariant. For an arbitrary position T the element there afterwards, its value and its successor are the ones of the mathematical sequence with the operation applied; head, tail, count, capacity, what is released, and the iterator are specified likewise.',
  assume=['the values of a list are followed for one arbitrary position at a time; element addresses are compared for equality only'])
for i,o,f,cut in((1,'append','AppendValueToLinkedList NewLinkedList GetNumberOfElementsInLinkedList IsLinkedListEmpty',()),(2,'insert','InsertValueInLinkedList',(('InsertValueInLinkedList','ins'),)),(3,'sorted','InsertValueInSortedLinkedList',(('InsertValueInSortedLinkedList','sort'),)),(4,'remove','RemoveElementFromLinkedList',(('RemoveElementFromLinkedList','rem'),)),(5,'byvalue','RemoveElementByValueFromLinkedList',(('RemoveElementByValueFromLinkedList','byv'),)),(6,'last','RemoveLastElementFromLinkedList',(('RemoveLastElementFromLinkedList','last'),)),(7,'get','GetValueFromLinkedList GetLastValueInLinkedList',(('GetValueFromLinkedList','get'),)),(8,'iterate','GetNextValueInLinkedList ResetLinkedListIterator',()),(9,'array','LinkedListToArray',(('LinkedListToArray','arr'),)),(10,'clear','ClearLinkedList DestroyLinkedList',(('ClearLinkedList','clr'),('DestroyLinkedList','clr')))):
    add('P17',dict(id='list.'+o,src='p_list.c',defs={'OP':i},env=['env.c'],fs=True,solver='cadical',unwind=21,checks=PC,functions=f.split(),instr={'wizard/hashmap.c':[('cut',a,0,t) for a,t in cut]}))
add('P17',dict(id='n_list',src='n_list.c',secs=6,asan=True,bound='histories of up to 60 operations on lists of up to 60 elements'))
P('P18',note='buckets of any number of entries, every hash and comparison function, key and value; growth from tables of up to 30 buckets',
  design='Lookup, insertion and removal are proved over the list contract (P17) for a bucket with any number of entries, keys being equal when in the same class and the hash an arbitrary function of the class: exactly the entry with the key of the operation is returned, replaced or removed, key and value are released once, the count stays the number of distinct keys, and no other bucket is touched. The loop along the bucket is cut with the position reached as the invariant: no earlier entry has the key. Growth is proved to move an arbitrary entry into its bucket of the new table, both loops cut, reachability from the head of the bucket being carried as an inductive fact.',
  assume=['linked lists obey the contract proved as P17','the comparison is an equivalence and equal keys have equal hashes; without a comparison keys are equal when their hashes are','hash values below 2^10 and tables of up to 1023 buckets (growth: up to 30) stand for all: the code uses a hash only for equality and modulo the number of buckets'])
HL=[('stub',x) for x in('GetNextValueInLinkedList','RemoveElementFromLinkedList','InsertValueInLinkedList','AppendValueToLinkedList','NewLinkedList','IncreaseHashmapCapacity')]
for i,o,f,t in((1,'get','GetValueFromHashmap','get'),(2,'put','PutEntryInHashmap','put'),(3,'remove','RemoveEntryFromHashmap','rem')):
    add('P18',dict(id='hashmap.'+o,src='p_hashmap.c',defs={'OP':i},env=['env.c'],fs=True,unwind=5,checks=PC,functions=[f],instr={'wizard/hashmap.c':HL+[('cut',f,0,t)]}))
add('P18',dict(id='hashmap.grow',src='p_hashgrow.c',defs={},env=['env.c'],fs=True,unwind=63,checks=PC,functions=['IncreaseHashmapCapacity'],instr={'wizard/hashmap.c':[('stub','NewLinkedList'),('cut','IncreaseHashmapCapacity',r'hashmap_info->capacity;',  'out'),('cut','IncreaseHashmapCapacity',r'next=list_info->head',  'in')]}))
add('P18',dict(id='n_hashmap',src='n_hashmap.c',secs=8,asan=True,bound='histories of up to 400 operations on up to 90 keys, five hash functions from good to constant, growth from one bucket'))
P('P21',note='every table, every name, every 64-bit code; that nothing else is accepted is checked for texts of bounded length',
  design='The tables are constants of the program, so the loops over them are followed completely. For every option and every 64-bit code WizardOptionToMnemonic is proved to give a name of that code or "undefined"; for every table, every name, also with letter cases exchanged, is proved to parse to its code, alone and in a list, the name printed for a code to parse back, and a list with an unknown member to be refused.',
  assume=['LocaleCompare compares ignoring the case of letters, CopyWizardString copies the text (P08)','WizardPathExtent reduced to 48 in these units: no name is longer'])
add('P21',dict(id='option.names',src='p_option.c',defs={'OP':1},env=['env.c'],fs=True,unwind=62,checks=PC,functions=['WizardOptionToMnemonic','GetOptionInfo']))
for i,t in enumerate(('authenticate','cipher','command','datatype','debug','endian','entropy','level','keylength','hash','list','mode','logevent','resource')):
    for d in (((0,9),(9,18),(18,27),(27,99)) if t=='command' else ((0,7),(7,13),(13,99)) if t=='hash' else ((0,6),(6,99)) if t in('debug','list') else (0,)):
        if t!='logevent': add('P21',dict(id='option.parse.'+t+('.%d'%d[0] if d else ''),src='p_option.c',defs=dict({'OP':2,'TAB':i},**({'K0':d[0],'K1':d[1]} if d else {})),env=['env.c'],fs=True,unwind=50,checks=PC,functions=['ParseWizardOption']))
add('P21',dict(id='n_option',src='n_option.c',secs=6,asan=True,bound='lists of up to 6 members of every table, texts of up to 8 characters, every name shortened or lengthened by a character'))
NOT_APPLICABLE={'P19': 'splay trees are built by recursive rotation over pointers from parent to child; a contract needs an inductive tree predicate (reachability, search order over the whole subtree, disjointness), which the back end available here (CBMC contracts, quantifier-free over pointers) cannot state, and the technique used for lists (P17: an arbitrary position of a sequence) does not carry over to a shape that every lookup rearranges. No bounded stand-in is claimed as proof',
  'P20': 'the property spans whole programs (utilities/encipher.c, decipher.c: functions of over 600 lines that read options, prompt, lock, write XML content files and call every part of the toolkit). Its ingredients are proved as P01-P03, P06, P12-P15 and P21; the composition inside those two functions was not brought under contract',
  'P22': 'the XML parser works destructively on one buffer with pointers into it, entity expansion by reallocation and unbounded nesting; a contract needs the grammar as a recursive predicate over the text, which the quantifier-free contracts of the verifier at hand cannot express, and writing and re-reading would have to be related through it',
  'P23': 'GlobExpression is recursive with backtracking: the specification is itself a recursive predicate over pattern and text suffixes, and without recursive lemmas in the verifier at hand the contract of the recursive call cannot be stated beyond bounded lengths',
  'P24': "exclusion between processes is a property of the operating system's file creation and lock calls under concurrent processes, not of one function's pre- and postcondition; a contract on the code could only restate the assumption about those calls", 'P25': 'a crash point is a state between two system calls and what the file system kept of the earlier ones; function contracts speak of states at entry and exit only, and the durability rules of the file system would have to be assumed to the point of assuming the property (the record is appended behind the earlier ones, which P13 proves)',
  'P26': 'linearisability over arbitrary thread schedules is outside sequential function contracts. What they can say is proved where it was possible: within P16 each operation is atomic because its state is arbitrary when the lock is taken, and P17/P18 prove the lock is taken and given back on every path'}
