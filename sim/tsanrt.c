/* Callbacks that the compiler inserts with -fsanitize=thread, used as preemption
 * points and to see which thread touches which memory. No TSan runtime is linked. */
#include "sim.h"
#include <string.h>
#define ACC(a, n, w) do { if (sim_mt) { if (++sim_steps >= sim_next_event) sim_mem_event(); if (sim_acc_mode) sim_acc((uintptr_t)(a), n, w); } } while (0)
void __tsan_init(void) {} 
void __tsan_func_entry(void *p) { (void) p; } 
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; }
void __tsan_vptr_read(void **p) { (void) p; }
void __tsan_read_range(void *p, unsigned long n) { ACC(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { ACC(p, n, 1); }
void *sim_memcpy(void *d, const void *s, size_t n) { if (sim_mt) { ACC(s, n, 0); ACC(d, n, 1); } return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (sim_mt) { ACC(s, n, 0); ACC(d, n, 1); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (sim_mt) ACC(d, n, 1); return memset(d, c, n); }
void __tsan_read1(void *p) { ACC(p, 1, 0); }
void __tsan_write1(void *p) { ACC(p, 1, 1); }
void __tsan_volatile_read1(void *p) { ACC(p, 1, 0); }
void __tsan_volatile_write1(void *p) { ACC(p, 1, 1); }
void __tsan_read2(void *p) { ACC(p, 2, 0); }
void __tsan_write2(void *p) { ACC(p, 2, 1); }
void __tsan_unaligned_read2(void *p) { ACC(p, 2, 0); }
void __tsan_unaligned_write2(void *p) { ACC(p, 2, 1); }
void __tsan_volatile_read2(void *p) { ACC(p, 2, 0); }
void __tsan_volatile_write2(void *p) { ACC(p, 2, 1); }
void __tsan_unaligned_volatile_read2(void *p) { ACC(p, 2, 0); }
void __tsan_unaligned_volatile_write2(void *p) { ACC(p, 2, 1); }
void __tsan_read4(void *p) { ACC(p, 4, 0); }
void __tsan_write4(void *p) { ACC(p, 4, 1); }
void __tsan_unaligned_read4(void *p) { ACC(p, 4, 0); }
void __tsan_unaligned_write4(void *p) { ACC(p, 4, 1); }
void __tsan_volatile_read4(void *p) { ACC(p, 4, 0); }
void __tsan_volatile_write4(void *p) { ACC(p, 4, 1); }
void __tsan_unaligned_volatile_read4(void *p) { ACC(p, 4, 0); }
void __tsan_unaligned_volatile_write4(void *p) { ACC(p, 4, 1); }
void __tsan_read8(void *p) { ACC(p, 8, 0); }
void __tsan_write8(void *p) { ACC(p, 8, 1); }
void __tsan_unaligned_read8(void *p) { ACC(p, 8, 0); }
void __tsan_unaligned_write8(void *p) { ACC(p, 8, 1); }
void __tsan_volatile_read8(void *p) { ACC(p, 8, 0); }
void __tsan_volatile_write8(void *p) { ACC(p, 8, 1); }
void __tsan_unaligned_volatile_read8(void *p) { ACC(p, 8, 0); }
void __tsan_unaligned_volatile_write8(void *p) { ACC(p, 8, 1); }
void __tsan_read16(void *p) { ACC(p, 16, 0); }
void __tsan_write16(void *p) { ACC(p, 16, 1); }
void __tsan_unaligned_read16(void *p) { ACC(p, 16, 0); }
void __tsan_unaligned_write16(void *p) { ACC(p, 16, 1); }
void __tsan_volatile_read16(void *p) { ACC(p, 16, 0); }
void __tsan_volatile_write16(void *p) { ACC(p, 16, 1); }
void __tsan_unaligned_volatile_read16(void *p) { ACC(p, 16, 0); }
void __tsan_unaligned_volatile_write16(void *p) { ACC(p, 16, 1); }
void __tsan_atomic_thread_fence(int m) { (void) m; sim_atomic_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m) { (void) m; }
uint8_t __tsan_atomic8_load(const volatile uint8_t *p, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t *p, uint8_t *e, uint8_t v, int m, int f) { (void) m; (void) f; sim_atomic_point(); ACC(p, 1, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t *p, uint8_t *e, uint8_t v, int m, int f) { return __tsan_atomic8_compare_exchange_strong(p, e, v, m, f); }
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t *p, uint8_t e, uint8_t v, int m, int f) { __tsan_atomic8_compare_exchange_strong(p, &e, v, m, f); return e; }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t *p, uint8_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 1, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_load(const volatile uint16_t *p, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t *p, uint16_t *e, uint16_t v, int m, int f) { (void) m; (void) f; sim_atomic_point(); ACC(p, 2, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t *p, uint16_t *e, uint16_t v, int m, int f) { return __tsan_atomic16_compare_exchange_strong(p, e, v, m, f); }
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t *p, uint16_t e, uint16_t v, int m, int f) { __tsan_atomic16_compare_exchange_strong(p, &e, v, m, f); return e; }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t *p, uint16_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 2, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_load(const volatile uint32_t *p, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t *p, uint32_t *e, uint32_t v, int m, int f) { (void) m; (void) f; sim_atomic_point(); ACC(p, 4, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t *p, uint32_t *e, uint32_t v, int m, int f) { return __tsan_atomic32_compare_exchange_strong(p, e, v, m, f); }
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t *p, uint32_t e, uint32_t v, int m, int f) { __tsan_atomic32_compare_exchange_strong(p, &e, v, m, f); return e; }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t *p, uint32_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 4, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_load(const volatile uint64_t *p, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t *p, uint64_t *e, uint64_t v, int m, int f) { (void) m; (void) f; sim_atomic_point(); ACC(p, 8, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t *p, uint64_t *e, uint64_t v, int m, int f) { return __tsan_atomic64_compare_exchange_strong(p, e, v, m, f); }
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t *p, uint64_t e, uint64_t v, int m, int f) { __tsan_atomic64_compare_exchange_strong(p, &e, v, m, f); return e; }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t *p, uint64_t v, int m) { (void) m; sim_atomic_point(); ACC(p, 8, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }
