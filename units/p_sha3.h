/* one SHA-3 variant: HT (hash type), DS (digest bytes); rate 200-2*DS bytes (Keccak, pad10*1) */
#include "vh.h"
#define RB (200-2*DS)
