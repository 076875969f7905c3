// Monitor behind the redirected libc calls of the library under test (see check.py: objcopy --redefine-syms).
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// accounting
long vf_live(void);             // live blocks allocated by the library
long vf_live_bytes(void);
long vf_allocs(void);           // allocations since process start
void vf_reset_live(void);       // forget all live blocks (after a failed case)
int vf_is_live(const void *p);
size_t vf_block_size(const void *p);
// fault injection: fail the allocation number `k` counted from now (1-based); if `all` is set every later one too
void vf_fail_at(long k, int all);
long vf_fail_stop(void);        // disarm; returns number of allocations attempted while armed
long vf_failed(void);           // how many allocations were made to fail since vf_fail_at
// hook called before a block is released
extern void (*vf_free_hook)(void *p, size_t size);
extern void (*vf_alloc_hook)(void *p, size_t size);
// pattern new memory is filled with (-1: leave alone)
extern int vf_fill;
// library blocks of their own pages, ending (1) or starting (2) at an inaccessible page; buffers likewise (where: -1 end, else offset from the start)
extern int vf_guard;
void *vf_gbuf(size_t n, int where);
int vf_gbuf_free(void *p);       // nonzero: the filling around the buffer was changed
void vf_protect(const void *p, int ro);
// environment mocks
extern int vf_clock_frozen;         // clock calls return vf_clock_value
extern long long vf_clock_ns;
extern int vf_ent_mode;             // 0 real, 1 opening the source fails, 2 reads return short, 3 reads fail, 4 scripted bytes, 5 every other read is interrupted, 6 short scripted reads
extern uint8_t vf_ent_script[256];
extern int vf_ent_script_len;
void vf_script_reset(void);
int vf_script_at(int set);  // position in the script; moved if set >= 0
extern long vf_ent_reads, vf_ent_bytes, vf_ent_opens;
// assertion failures of the library end up here
extern void (*vf_assert_hook)(const char *expr, const char *file, unsigned line);
#ifdef __cplusplus
}
#endif
#endif
