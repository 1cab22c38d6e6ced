// The runtime of the controlled scheduler.
//
// The code under test is compiled with ThreadSanitizer's instrumentation of atomic operations (and
// nothing else); this file supplies the functions that instrumentation calls. Each of them is a
// point at which the scheduler may continue with another thread. Only one thread of a group runs at
// a time. Blocking is controlled by taking over the futex calls.
#include <linux/futex.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>

typedef unsigned __int128 u128;

static long raw_futex(volatile int *a, int op, int val) {
  long r;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(val), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void gate_wait(volatile int *g) {
  for (int i = 0; i < 200; i++) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) goto open;
    __builtin_ia32_pause();
  }
  while (!__atomic_load_n(g, __ATOMIC_ACQUIRE)) raw_futex(g, FUTEX_WAIT_PRIVATE, 0);
open:
  __atomic_store_n(g, 0, __ATOMIC_RELEASE);
}
static void gate_open(volatile int *g) {
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  raw_futex(g, FUTEX_WAKE_PRIVATE, 1);
}

#define MAXT 8
enum { UNUSED, READY, BLOCKED, DONE };
struct thread {
  volatile int gate;
  int state;
  uintptr_t addr;   // futex waited for
  uint64_t since;   // when it began to wait
  int wake_result;
};
struct sched {
  struct thread t[MAXT];
  int n, cur;
  int budget;        // preemptions left
  void *ch;          // source of choices
  volatile int done; // gate of the controller
  int deadlock;
  uint64_t points, switches, preemptions, waits;
  uint64_t streak;   // points since the last switch
};

static __thread struct sched *S;
static __thread int me;
static __thread int inside;

extern int sched_pick(void *ch, int n);

static int pick(struct sched *s, int n) {
  if (n <= 1) return 0;
  return sched_pick(s->ch, n);
}

// Hands the baton to another thread and waits for it to come back.
static void hand_over(struct sched *s, int to) {
  int mine = me;
  // Once the other thread runs, this run may end and the next one begin.
  int stays = s->t[mine].state != DONE;
  s->cur = to;
  s->switches++;
  s->streak = 0;
  gate_open(&s->t[to].gate);
  if (stays) gate_wait(&s->t[mine].gate);
}

// The current thread cannot go on: chooses another one, or reports the end or a deadlock.
static void leave(struct sched *s) {
  int cand[MAXT], k = 0, left = 0;
  for (int i = 0; i < s->n; i++) {
    if (s->t[i].state == READY && i != me) cand[k++] = i;
    if (s->t[i].state != DONE) left++;
  }
  if (k == 0) {
    s->deadlock = left > 0;
    int mine = me;
    int stuck = s->t[mine].state != DONE;
    gate_open(&s->done);
    if (stuck) for (;;) gate_wait(&s->t[mine].gate);
    return;
  }
  hand_over(s, cand[pick(s, k)]);
}

static void point(int must_yield) {
  struct sched *s = S;
  if (!s || inside) return;
  inside = 1;
  s->points++;
  s->streak++;
  int cand[MAXT], k = 0;
  for (int i = 0; i < s->n; i++)
    if (s->t[i].state == READY && i != me) cand[k++] = i;
  // A thread that runs on and on without blocking is waiting for the others in a loop.
  if (s->streak > 20000) must_yield = 1;
  if (k) {
    if (must_yield) {
      hand_over(s, cand[pick(s, k)]);
    } else if (s->budget > 0) {
      int c = pick(s, k + 1);
      if (c) {
        s->budget--;
        s->preemptions++;
        hand_over(s, cand[c - 1]);
      }
    }
  }
  inside = 0;
}

// --- called by the harness

struct sched *rt_new(void) { return calloc(1, sizeof(struct sched)); }
void rt_free(struct sched *s) { free(s); }
void rt_reset(struct sched *s, int n, int budget, void *ch) {
  s->n = n;
  s->budget = budget;
  s->ch = ch;
  s->deadlock = 0;
  s->points = s->switches = s->preemptions = s->waits = s->streak = 0;
  s->done = 0;
  for (int i = 0; i < n; i++) {
    s->t[i].state = READY;
    s->t[i].addr = 0;
  }
}
// Runs the group until all its threads are done (0) or none can go on (1).
int rt_run(struct sched *s) {
  inside = 1;
  int first = pick(s, s->n);
  s->cur = first;
  gate_open(&s->t[first].gate);
  gate_wait(&s->done);
  inside = 0;
  return s->deadlock;
}
// A pool thread waits for its turn and joins the group.
void rt_wait_turn(struct sched *s, int tid) {
  gate_wait(&s->t[tid].gate);
}
void rt_enter(struct sched *s, int tid) {
  me = tid;
  S = s;
  inside = 0;
}
// Leaves the group for good in this run.
void rt_leave(void) {
  struct sched *s = S;
  inside = 1;
  s->t[me].state = DONE;
  leave(s);
  S = 0;
}
void rt_point(void) { point(0); }
void rt_yield(void) { point(1); }
int rt_managed(void) { return S != 0 && !inside; }
uint64_t rt_stat(struct sched *s, int k) {
  return k == 0 ? s->points : k == 1 ? s->switches : k == 2 ? s->preemptions : s->waits;
}

// --- blocking

long rt_futex(uintptr_t addr, uintptr_t op, uintptr_t val) {
  struct sched *s = S;
  if (!s || inside) return INT64_MIN;
  int cmd = op & FUTEX_CMD_MASK;
  inside = 1;
  long r = INT64_MIN;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*(volatile int *)addr != (int)val) {
      r = -11; // EAGAIN
    } else {
      s->waits++;
      s->t[me].state = BLOCKED;
      s->t[me].addr = addr;
      s->t[me].since = s->waits;
      leave(s);
      r = 0;
    }
  } else if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    while (n < (long)(int)val || (int)val == -1) {
      int cand[MAXT], k = 0;
      for (int i = 0; i < s->n; i++)
        if (s->t[i].state == BLOCKED && s->t[i].addr == addr) cand[k++] = i;
      if (!k) break;
      // The kernel wakes in no guaranteed order.
      int c = (int)val >= k ? 0 : pick(s, k);
      s->t[cand[c]].state = READY;
      n++;
    }
    r = n;
  }
  inside = 0;
  return r;
}

int sched_yield(void) {
  if (S && !inside) point(1);
  return 0;
}

// --- instrumentation

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(0); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define A(N, T) \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { (void)mo; point(0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { (void)mo; point(0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; point(0); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { (void)mo; (void)f; point(0); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { (void)mo; (void)f; point(0); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { (void)mo; (void)f; point(0); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }

A(8, uint8_t)
A(16, uint16_t)
A(32, uint32_t)
A(64, uint64_t)
