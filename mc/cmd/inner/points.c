// Scheduling points of instrumented C code (see ../../cc-points): the calls that gcc -fsanitize=thread inserts.
#include "points.h"
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>

static __thread struct run *mine;

struct run *run_new(long at) {
	struct run *r = calloc(1, sizeof *r);
	r->at = at;
	sem_init(&r->stopped, 0, 0);
	sem_init(&r->go, 0, 0);
	return r;
}

void run_free(struct run *r) {
	sem_destroy(&r->stopped);
	sem_destroy(&r->go);
	free(r);
}

void run_enter(struct run *r) { mine = r; }

// run_leave ends the part of the thread that is watched and returns how many points it passed
long run_leave(void) {
	struct run *r = mine;
	mine = 0;
	long n = r->n;
	sem_post(&r->stopped);
	return n;
}

static void wait_for(sem_t *s) {
	while (sem_wait(s) && errno == EINTR)
		;
}

// run_stopped waits until the run has stopped at its point or ended; 0: it does neither, it waits for something itself
int run_stopped(struct run *r, long ms) {
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	t.tv_sec += ms / 1000;
	t.tv_nsec += ms % 1000 * 1000000;
	if (t.tv_nsec >= 1000000000) {
		t.tv_nsec -= 1000000000;
		t.tv_sec++;
	}
	int e;
	while ((e = sem_timedwait(&r->stopped, &t)) && errno == EINTR)
		;
	return e == 0;
}

void run_go(struct run *r) { sem_post(&r->go); }

static void point(void) {
	struct run *r = mine;
	if (r && ++r->n == r->at) {
		sem_post(&r->stopped);
		wait_for(&r->go);
	}
}

#define P(name) void __tsan_##name(void *p) { point(); }
#define RW(n) P(read##n) P(write##n) P(volatile_read##n) P(volatile_write##n) P(unaligned_read##n) P(unaligned_write##n) \
	P(unaligned_volatile_read##n) P(unaligned_volatile_write##n) P(read_write##n)
RW(1) RW(2) RW(4) RW(8) RW(16)
P(func_entry)
P(vptr_read)
void __tsan_init(void) {}
void __tsan_func_exit(void) { point(); }
void __tsan_read_range(void *p, long n) { point(); }
void __tsan_write_range(void *p, long n) { point(); }
void __tsan_vptr_update(void **p, void *v) { point(); }
void __tsan_atomic_thread_fence(int mo) { point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { point(); }
#define A(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { point(); return __atomic_compare_exchange_n(a, c, v, 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { point(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
