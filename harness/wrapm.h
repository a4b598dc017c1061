// Hooks on the allocation functions (linked with --wrap): ledger of live blocks, junk filling, allocation inside a protectable arena.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int wm_ledger;            // record blocks
extern int wm_junk;              // >= 0: byte new and freed blocks are filled with (-1: not filled)
extern long wm_live, wm_bytes;   // blocks and bytes allocated while recording and not yet freed
extern long wm_calls;            // allocations seen while recording
extern long wm_bad;              // releases of a block already released, or of a protected input
extern void *wm_bad_ptr;
void wm_arena_init(size_t bytes);
void wm_arena_begin(void);       // allocations come from the arena from now on
void wm_arena_end(void);
void wm_arena_reset(void);       // forget all arena blocks (writable again)
void wm_arena_protect(int on);   // arena read-only / writable
void *wm_arena_alloc(size_t n);
size_t wm_arena_used(void);
int wm_in_arena(const void *p);
int wm_is_live(const void *p);
#ifdef __cplusplus
}
#endif
