/*
  Harness vocabulary shared by the verifier (CBMC) and by native runs.

  V_PROOF   the verifier discharges every obligation; loops named in the unit are cut at their
            invariant, all other loops are fully unwound with unwinding assertions on.
  V_NATIVE  the same vocabulary compiled with gcc against the real library (runtime contract
            checks; a bounded stand-in / counterexample replay, never counted as proof).
*/
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#if defined(V_NATIVE)
extern uint64_t v_draw(int bits);
extern void v_fail(const char *msg) __attribute__((noreturn));
extern void v_discard(void) __attribute__((noreturn));
#define VASSERT(c,m) ((c) ? (void) 0 : v_fail(m))
#define VASSUME(c) ((c) ? (void) 0 : v_discard())
#define VREACH(m) ((void) 0)
static inline uint8_t nd_u8(void) { return (uint8_t) v_draw(8); }
static inline uint16_t nd_u16(void) { return (uint16_t) v_draw(16); }
static inline uint32_t nd_u32(void) { return (uint32_t) v_draw(32); }
static inline uint64_t nd_u64(void) { return v_draw(64); }
static inline size_t nd_size(void) { return (size_t) v_draw(64); }
static inline int nd_int(void) { return (int) (uint32_t) v_draw(32); }
static inline int nd_bool(void) { return (int) (v_draw(8) & 1); }
/* value in lo..hi, biased towards the ends */
extern uint64_t v_range(uint64_t lo,uint64_t hi);
static inline size_t nd_range(size_t lo,size_t hi) { return (size_t) v_range(lo,hi); }
static inline void nd_bytes(void *p,size_t n) { for (size_t i=0; i < n; i++) ((uint8_t *) p)[i]=nd_u8(); }
#else
#if defined(V_VACUITY)
/* reachability run: every contract clause is switched off and each VREACH must be reachable */
#define VASSERT(c,m) ((void) (c))
#define VREACH(m) __CPROVER_assert(0,"REACH " m)
#else
#define VASSERT(c,m) __CPROVER_assert((c),m)
#define VREACH(m) ((void) 0)
#endif
#define VASSUME(c) __CPROVER_assume(c)
/* reach of this unit's encoding: when it fails the unit is undecided, not violated */
#define VLIMIT(c,m) __CPROVER_assert((c),"LIMIT " m)
static uint8_t nd_u8(void) { uint8_t nd_value; return nd_value; }
static uint16_t nd_u16(void) { uint16_t nd_value; return nd_value; }
static uint32_t nd_u32(void) { uint32_t nd_value; return nd_value; }
static uint64_t nd_u64(void) { uint64_t nd_value; return nd_value; }
static size_t nd_size(void) { size_t nd_value; return nd_value; }
static int nd_int(void) { int nd_value; return nd_value; }
static int nd_bool(void) { _Bool nd_value; return nd_value ? 1 : 0; }
static size_t nd_range(size_t lo,size_t hi)
{ size_t nd_value; __CPROVER_assume((nd_value >= lo) && (nd_value <= hi)); return nd_value; }
#define VSAME(p,q) __CPROVER_same_object(p,q)
#define VHAVOC(x) __CPROVER_havoc_object(&(x))
#define VHAVOC_OBJ(p) __CPROVER_havoc_object(p)

/*
  Loop cut.  The instrumenter turns a loop condition C into
    (VLOOP(tag,(havoc of every local the loop assigns)) && (C))
  For each tag the unit defines
    VINV_tag    the invariant (over the function's locals, ghost state and the heap)
    VHEAP_tag   havoc of everything else the loop may modify (heap objects, ghost state), and the
                re-binding of havocked pointers to the value the invariant gives them
  First arrival: assert the invariant (base case), havoc, assume it.  Second arrival (after one
  arbitrary iteration): assert it (inductive step) and stop.
*/
#define VLOOP(tag,havocs) \
  (v_visit_##tag++ == 0 ? \
     (VASSERT(VINV_##tag,"loop invariant " #tag " holds on entry"), \
      (havocs), VHEAP_##tag, VASSUME(VINV_##tag), 1) : \
     (VASSERT(VINV_##tag,"loop invariant " #tag " preserved by an iteration"), \
      VREACH("loop " #tag), VASSUME(0), 0))
#endif
#endif
