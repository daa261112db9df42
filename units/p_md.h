/*
  Parameters of one Merkle-Damgard digest: HASHC (source file), INFO/ACQ/INI/UPD/FIN (its type and
  exported functions), WORD, NW (chaining words), NO (words in the digest), BS (block), LB (length
  field bytes), BE (byte order of words), SPEC (published compression), IV.
*/
#include "vh.h"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#if defined(H_MD5)
#define HN MD5
#define HASHC "wizard/md5.c"
#define WORD uint32_t
#define NW 4
#define NO 4
#define BS 64
#define LB 8
#define BE 0
#define SPEC spec_md5_block
#define IV spec_md5_iv
#elif defined(H_SHA1)
#define HN SHA1
#define HASHC "wizard/sha1.c"
#define WORD uint32_t
#define NW 5
#define NO 5
#define BS 64
#define LB 8
#define BE 1
#define SPEC spec_sha1_block
#define IV spec_sha1_iv
#elif defined(H_SHA224)
#define HN SHA2224
#define HASHC "wizard/sha2224.c"
#define WORD uint32_t
#define NW 8
#define NO 7
#define BS 64
#define LB 8
#define BE 1
#define SPEC spec_sha256_block
#define IV spec_sha224_iv
#elif defined(H_SHA256)
#define HN SHA2256
#define HASHC "wizard/sha2256.c"
#define WORD uint32_t
#define NW 8
#define NO 8
#define BS 64
#define LB 8
#define BE 1
#define SPEC spec_sha256_block
#define IV spec_sha256_iv
#elif defined(H_SHA384)
#define HN SHA2384
#define HASHC "wizard/sha2384.c"
#define WORD uint64_t
#define NW 8
#define NO 6
#define BS 128
#define LB 16
#define BE 1
#define SPEC spec_sha512_block
#define IV spec_sha384_iv
#elif defined(H_SHA512)
#define HN SHA2512
#define HASHC "wizard/sha2512.c"
#define WORD uint64_t
#define NW 8
#define NO 8
#define BS 128
#define LB 16
#define BE 1
#define SPEC spec_sha512_block
#define IV spec_sha512_iv
#endif
#define INFO CAT(HN,Info)
#define ACQ CAT(CAT(Acquire,HN),Info)
#define INI CAT(Initialize,HN)
#define UPD CAT(Update,HN)
#define FIN CAT(Finalize,HN)
#define TRF CAT(Transform,HN)
