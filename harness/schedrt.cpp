// Controlled scheduler and happens-before checker.
//
// The code under test is compiled with -fsanitize=thread; this file is the
// runtime it calls.  Threads are real ones but only one of them runs at a time;
// where several could go on at a synchronisation operation, the choice is read
// from a prefix given by the explorer and recorded.  Every memory access is
// checked against vector clocks, so that accesses that are not ordered by
// synchronisation are reported whatever the schedule: without any, the
// behaviours are those of the orders of the synchronisation operations.
#include "vpsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

#include <future>
#include <thread>

namespace {
constexpr int kMax = 40;                       // threads per execution
constexpr size_t kArena = size_t(1) << 29;     // bytes per thread
constexpr size_t kStack = size_t(1) << 20;
typedef uint32_t u32;
typedef uint64_t u64;

VpExecution* X = nullptr;
bool active = false;
__thread int self_ = 0;
__thread int inside = 0;                       // in the runtime: no hooks

// ------------------------------------------------------------ memory
char* arena[kMax];
size_t used[kMax];
struct Head { u64 size; u64 magic; };
constexpr u64 kMagic = 0x5650484541440000ull;
void* freelist[64];                            // only outside executions

void* map(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { const char m[] = "schedrt: no memory\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
  return p;
}
int size_class(size_t n) { int c = 0; size_t s = 32; while (s < n) { s <<= 1; ++c; } return c; }
void* get(size_t n, size_t align, bool zero) {
  const int t = active ? self_ : 0;
  if (!arena[t]) arena[t] = static_cast<char*>(map(kArena));
  if (n == 0) n = 1;
  if (n > kArena / 2) return nullptr;
  const int c = size_class(n);
  if (!active && align <= 16 && c < 40 && freelist[c]) {
    void* p = freelist[c];
    freelist[c] = *static_cast<void**>(p);
    reinterpret_cast<Head*>(p)[-1].size = n;
    if (zero) for (size_t i = 0; i < n; ++i) static_cast<char*>(p)[i] = 0;
    return p;
  }
  size_t room = active ? n : size_t(32) << c;
  if (room < n) room = n;
  size_t at = used[t] + sizeof(Head);
  at = (at + align - 1) & ~(align - 1);
  if (at + room > kArena) return nullptr;
  char* p = arena[t] + at;
  used[t] = (at + room + 15) & ~size_t(15);
  Head* h = reinterpret_cast<Head*>(p) - 1;
  h->size = n;
  h->magic = kMagic | u64(align > 16);
  return p;
}

// ------------------------------------------------------------ clocks
struct Clock { u32 c[kMax]; };
Clock vc[kMax];
void join(Clock& a, const Clock& b) { for (int i = 0; i < kMax; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

void* bump(size_t n) {
  static char* p = nullptr;
  static size_t left = 0;
  n = (n + 63) & ~size_t(63);
  if (left < n) { left = n > (size_t(64) << 20) ? n : (size_t(64) << 20); p = static_cast<char*>(map(left)); }
  char* r = p;
  p += n;
  left -= n;
  return r;
}
// address -> object
template <typename V, u32 N>
struct Table {
  struct Slot { u64 key; V* v; };
  Slot* s = nullptr;
  V* find(u64 key, bool create) {
    if (!s) s = static_cast<Slot*>(map(sizeof(Slot) * N));
    u64 h = key * 0x9e3779b97f4a7c15ull;
    u32 i = u32(h >> 40) % N;
    for (u32 n = 0; n < N; ++n, i = (i + 1) % N) {
      if (s[i].key == key && s[i].v) return s[i].v;
      if (!s[i].v) {
        if (!create) return nullptr;
        s[i].key = key;
        return s[i].v = static_cast<V*>(bump(sizeof(V)));
      }
    }
    const char m[] = "schedrt: table full\n"; (void)!write(2, m, sizeof m - 1); _exit(77);
  }
};
struct Sync {
  Clock clock;
  int owner;        // tid + 1 of the thread that holds the mutex
  u32 count;        // recursive locks, or readers
  u32 once;         // 0 not done, 1 running, 2 done
  u32 value;        // semaphores
  bool seen;
  Clock last, lastw;   // last accesses to an atomic, last modifications
};
Table<Sync, 1 << 16> syncs;
Sync* sync(const volatile void* p) { return syncs.find(reinterpret_cast<u64>(p), true); }
void acquire(Sync* s) { join(vc[self_], s->clock); }
void release(Sync* s) { join(s->clock, vc[self_]); ++vc[self_].c[self_]; }

// ------------------------------------------------------------ shadow
struct Cell { u32 w, r; };       // epochs: [31 flag] [25..30 thread] [0..24 clock]
constexpr u32 kFlag = 0x80000000u;
struct Page { Cell c[4096]; };
Table<Page, 1 << 18> pages;
struct Cache { u64 key; Page* p; } cache[256];
struct Readers { u32 c[kMax]; };
Readers* readers = nullptr;
u32 n_readers = 0;
u32 epoch() { return u32(self_) << 25 | (vc[self_].c[self_] & 0x1ffffff); }
bool before(u32 e) { return (e & 0x1ffffff) <= vc[self_].c[(e >> 25) & 63]; }
Page* page(u64 a) {
  const u64 k = (a >> 12) + 1;
  Cache& c = cache[k & 255];
  if (c.key == k) return c.p;
  c.key = k;
  return c.p = pages.find(k, true);
}
void problem(const char* fmt, ...) {
  const size_t n = strnlen(X->problem, sizeof X->problem);
  if (n > sizeof X->problem - 400) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(X->problem + n, sizeof X->problem - n, fmt, ap);
  va_end(ap);
}
void where(char* out, size_t n, u64 pc) {
  Dl_info i;
  if (dladdr(reinterpret_cast<void*>(pc), &i) && i.dli_fname) snprintf(out, n, "%s+0x%llx", i.dli_sname ? i.dli_sname : i.dli_fname, (unsigned long long)(pc - (i.dli_sname ? u64(i.dli_saddr) : u64(i.dli_fbase))));
  else snprintf(out, n, "%llx", (unsigned long long)pc);
}
int races = 0;
void race(const char* what, u64 a, size_t n, u32 other, u64 pc) {
  if (races++ >= 3) return;
  char w[300];
  where(w, sizeof w, pc);
  problem("%s: thread %d and thread %u, %zu bytes at %llx, in %s; ", what, self_, (other >> 25) & 63, n, (unsigned long long)a, w);
}
void access(const volatile void* p, size_t n, bool write, bool atomic, u64 pc) {
  u64 a = reinterpret_cast<u64>(p);
  ++X->accesses;
  const u32 e = epoch();
  bool told = false;
  while (n) {
    Page* g = page(a);
    size_t o = a & 4095, m = n < 4096 - o ? n : 4096 - o;
    for (size_t i = o; i < o + m; ++i) {
      Cell& c = g->c[i];
      // first access, or first one since another access of this thread
      if (write ? (c.w | c.r) == 0 || (c.w == e && c.r == 0) : c.r == e || (c.r == 0 && (c.w == 0 || c.w == e))) {
        (write ? c.w : c.r) = e;
        continue;
      }
      if (write) {
        if (c.w == e && c.r == 0) continue;
        if (c.w & kFlag) { if (!told) race("use after free", a, n, c.w, pc); told = true; continue; }
        if (c.w && !before(c.w) && !told) { race("unsynchronised writes", a, n, c.w, pc); told = true; }
        if (c.r & kFlag) {
          Readers& r = readers[c.r & ~kFlag];
          for (int t = 0; t < kMax; ++t) if (t != self_ && r.c[t] > vc[self_].c[t] && !told) { race("unsynchronised read and write", a, n, u32(t) << 25, pc); told = true; }
        } else if (c.r && !before(c.r) && !told) { race("unsynchronised read and write", a, n, c.r, pc); told = true; }
        c.w = e;
        c.r = 0;
      } else {
        if (c.r == e) continue;
        if (c.w & kFlag) { if (!told) race("use after free", a, n, c.w, pc); told = true; continue; }
        if (c.w && !before(c.w) && !told) { race("unsynchronised write and read", a, n, c.w, pc); told = true; }
        if (c.r & kFlag) { readers[c.r & ~kFlag].c[self_] = vc[self_].c[self_]; continue; }
        if (c.r == 0 || ((c.r >> 25) & 63) == u32(self_) || before(c.r)) { c.r = e; continue; }
        if (!readers) readers = static_cast<Readers*>(map(sizeof(Readers) << 20));
        if (n_readers >= (1u << 20) - 1) { c.r = e; continue; }
        const u32 k = ++n_readers;
        readers[k].c[(c.r >> 25) & 63] = c.r & 0x1ffffff;
        readers[k].c[self_] = vc[self_].c[self_];
        c.r = kFlag | k;
      }
    }
    a += m;
    n -= m;
  }
  (void)atomic;
}
void freed(void* p, size_t n, u64 pc) {
  access(p, n, true, false, pc);
  u64 a = reinterpret_cast<u64>(p);
  while (n) {
    Cell* c = page(a)->c + (a & 4095);
    const size_t m = n < 4096 - (a & 4095) ? n : 4096 - (a & 4095);
    for (size_t i = 0; i < m; ++i) c[i].w |= kFlag;
    a += m;
    n -= m;
  }
}

// ------------------------------------------------------------ threads
enum State { kNone, kRun, kBlocked, kFinished };
struct Thread {
  State state;
  int futex;
  pthread_t id;
  void* (*f)(void*);
  void* arg;
  const void* waits;       // what it is blocked on
  bool timed, timed_out, joined, detached;
  u32 spins;
  Clock end;
};
Thread th[kMax];
int n_th = 1, preemptions = 0;
pthread_key_t at_exit;
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);

void futex_wait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
void futex_post(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

void give(int to) {
  ++X->switches;
  const int me = self_;
  if (to == me) return;
  const bool over = th[me].state == kFinished;
  futex_post(&th[to].futex);
  if (!over) futex_wait(&th[me].futex);
}
[[noreturn]] void stuck() {
  problem("deadlock:");
  for (int i = 0; i < n_th; ++i) if (th[i].state == kBlocked) problem(" thread %d waits for %s;", i, th[i].waits ? "a lock, a condition or a thread" : "?");
  _exit(5);
}
// The thread that goes on.  yield: the current one should not be preferred.
void choose(bool yield) {
  int opt[kMax], n = 0;
  const bool can = th[self_].state == kRun;
  if (can && !yield) opt[n++] = self_;
  for (int i = 0; i < n_th; ++i) if (i != self_ && th[i].state == kRun) opt[n++] = i;
  if (can && yield) { if (n == 0) opt[n++] = self_; }
  if (n == 0) {
    // nobody can go on: timed waits end
    for (int i = 0; i < n_th; ++i) if (th[i].state == kBlocked && th[i].timed) { th[i].timed_out = true; th[i].state = kRun; opt[n++] = i; break; }
    if (n == 0) stuck();
  }
  int k = 0;
  const bool costs = X->delay || (can && !yield);
  if (n > 1 && !(costs && preemptions >= X->bound)) {
    const u32 at = X->n_choices;
    if (at < sizeof X->chosen) {
      if (at < X->n_prefix) k = X->prefix[at] < n ? X->prefix[at] : 0;
      X->chosen[at] = k;
      X->options[at] = n;
      ++X->n_choices;
    } else X->truncated = 1;
  }
  if (costs && k != 0) ++preemptions;
  give(opt[k]);
}
void point(bool yield = false) {
  ++X->syncs;
  choose(yield);
}
void block(const void* on, bool timed = false) {
  Thread& t = th[self_];
  t.state = kBlocked;
  t.waits = on;
  t.timed = timed;
  t.timed_out = false;
  choose(false);
}
void wake(const void* on, int most = kMax) {
  for (int i = 0; i < n_th && most > 0; ++i) if (th[i].state == kBlocked && th[i].waits == on) { th[i].state = kRun; --most; }
}
void finish(void*) {
  if (!active) return;
  ++inside;
  Thread& t = th[self_];
  t.state = kFinished;
  t.end = vc[self_];
  ++X->finished;
  wake(&t);
  choose(false);
}
void last(void* n) {
  // run after the destructors of the thread's own objects
  if (reinterpret_cast<long>(n) < 3) { pthread_setspecific(at_exit, reinterpret_cast<void*>(reinterpret_cast<long>(n) + 1)); return; }
  finish(nullptr);
}
void* entry(void* p) {
  self_ = int(reinterpret_cast<long>(p));
  inside = 1;
  futex_wait(&th[self_].futex);
  pthread_setspecific(at_exit, reinterpret_cast<void*>(1L));
  inside = 0;
  return th[self_].f(th[self_].arg);
}
int find(pthread_t id) { for (int i = 1; i < n_th; ++i) if (pthread_equal(th[i].id, id) && !th[i].joined) return i; return -1; }
struct In { In() { ++inside; } ~In() { --inside; } };
bool on() { return active && !inside; }

// ------------------------------------------------------------ atomics
bool shared(u64 a) { for (u32 i = 0; i < X->n_shared; ++i) if (X->shared[i] == a) return true; return false; }
void atomic_point(const volatile void* p, size_t n, bool acq, bool rel, u64 pc, bool writes) {
  const u64 a = reinterpret_cast<u64>(p);
  Sync* s = sync(p);
  bool other = false;
  const Clock& unordered = writes ? s->last : s->lastw;
  for (int t = 0; t < kMax; ++t) if (t != self_ && unordered.c[t] > vc[self_].c[t]) other = true;
  if (other && !shared(a) && X->n_shared < 1024) { X->shared[X->n_shared++] = a; X->found_shared = 1; }
  if (shared(a)) {
    // a thread that keeps looking at the same place lets the others go on
    const bool spin = ++th[self_].spins > 40;
    if (spin) th[self_].spins = 0;
    point(spin);
  } else if (++th[self_].spins > 100000) { th[self_].spins = 0; point(true); }
  access(p, n, false, true, pc);
  s->last.c[self_] = vc[self_].c[self_];
  if (writes) s->lastw.c[self_] = vc[self_].c[self_];
  if (acq) acquire(s);
  if (rel) release(s);
}

// ------------------------------------------------------------ locks
void lock(Sync* s, const void* p, bool recursive) {
  point();
  while (s->owner && !(recursive && s->owner == self_ + 1)) block(p);
  s->owner = self_ + 1;
  ++s->count;
  acquire(s);
}
void unlock(Sync* s, const void* p) {
  if (s->owner != self_ + 1) return;
  if (--s->count) return;
  s->owner = 0;
  release(s);
  wake(p);
}
}  // namespace

#define PC reinterpret_cast<u64>(__builtin_return_address(0))
#define HIDDEN __attribute__((visibility("default"), used))

extern "C" {
// ---------------------------------------------------------------- executions
void vp_begin(VpExecution* x) {
  ++inside;
  X = x;
  real_create = reinterpret_cast<decltype(real_create)>(dlsym(RTLD_NEXT, "pthread_create"));
  real_join = reinterpret_cast<decltype(real_join)>(dlsym(RTLD_NEXT, "pthread_join"));
  pthread_key_create(&at_exit, last);
  vc[0].c[0] = 1;
  th[0].state = kRun;
  th[0].id = pthread_self();
  self_ = 0;
  active = true;
  --inside;
}
void vp_end() {
  ++inside;
  for (int i = 1; i < n_th; ++i) if (th[i].state != kFinished) ++X->live_at_end;
  active = false;
  --inside;
}
uint32_t vp_created() { return X->created; }
uint32_t vp_alive() { u32 n = 0; for (int i = 1; i < n_th; ++i) n += th[i].state != kFinished; return n; }

// ---------------------------------------------------------------- memory
HIDDEN void* malloc(size_t n) { void* p = get(n, 16, false); if (!p) errno = ENOMEM; else if (active) { for (size_t i = 0; i < (n < 256 ? n : 256); ++i) static_cast<char*>(p)[i] = 0x47; } return p; }
HIDDEN void* calloc(size_t n, size_t m) { size_t k; if (__builtin_mul_overflow(n, m, &k)) return nullptr; return get(k, 16, true); }
HIDDEN void free(void* p) {
  if (!p) return;
  Head* h = static_cast<Head*>(p) - 1;
  if ((h->magic & ~u64(1)) != kMagic) return;
  if (active) {
    if (!inside) { In in; freed(p, h->size, PC); }
    return;
  }
  if (h->magic & 1) return;
  // a block taken during an execution never comes back here: it is a child's
  const int c = size_class(h->size);
  if (c < 40) { *static_cast<void**>(p) = freelist[c]; freelist[c] = p; }
}
HIDDEN void* memcpy(void* d, const void* s, size_t n);
HIDDEN void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  const size_t old = (static_cast<Head*>(p) - 1)->size;
  void* r = malloc(n);
  if (!r) return nullptr;
  memcpy(r, p, old < n ? old : n);
  free(p);
  return r;
}
HIDDEN void* aligned_alloc(size_t a, size_t n) { return get(n, a < 16 ? 16 : a, false); }
HIDDEN void* memalign(size_t a, size_t n) { return get(n, a < 16 ? 16 : a, false); }
HIDDEN int posix_memalign(void** p, size_t a, size_t n) { *p = get(n, a < 16 ? 16 : a, false); return *p ? 0 : ENOMEM; }
HIDDEN size_t malloc_usable_size(void* p) { return p ? (static_cast<Head*>(p) - 1)->size : 0; }

HIDDEN void* memcpy(void* d, const void* s, size_t n) {
  if (on() && n) { In in; access(s, n, false, false, PC); access(d, n, true, false, PC); }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
HIDDEN void* memmove(void* d, const void* s, size_t n) {
  if (on() && n) { In in; access(s, n, false, false, PC); access(d, n, true, false, PC); }
  void* r = d;
  if (d <= s || static_cast<const char*>(s) + n <= d) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else {
    d = static_cast<char*>(d) + n - 1;
    s = static_cast<const char*>(s) + n - 1;
    asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  }
  return r;
}
HIDDEN void* memset(void* d, int c, size_t n) {
  if (on() && n) { In in; access(d, n, true, false, PC); }
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// ---------------------------------------------------------------- accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(N)                                                                                              \
  void __tsan_read##N(void* p) { if (on()) { In in; access(p, N, false, false, PC); } }                        \
  void __tsan_write##N(void* p) { if (on()) { In in; access(p, N, true, false, PC); } }                        \
  void __tsan_unaligned_read##N(void* p) { if (on()) { In in; access(p, N, false, false, PC); } }              \
  void __tsan_unaligned_write##N(void* p) { if (on()) { In in; access(p, N, true, false, PC); } }              \
  void __tsan_volatile_read##N(void* p) { if (on()) { In in; access(p, N, false, false, PC); } }               \
  void __tsan_volatile_write##N(void* p) { if (on()) { In in; access(p, N, true, false, PC); } }               \
  void __tsan_read_write##N(void* p) { if (on()) { In in; access(p, N, false, false, PC); access(p, N, true, false, PC); } }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { if (on() && n) { In in; access(p, n, false, false, PC); } }
void __tsan_write_range(void* p, unsigned long n) { if (on() && n) { In in; access(p, n, true, false, PC); } }
void __tsan_vptr_update(void** p, void* v) { if (on()) { In in; access(p, 8, *p != v, false, PC); } }
void __tsan_vptr_read(void** p) { if (on()) { In in; access(p, 8, false, false, PC); } }

// ---------------------------------------------------------------- atomics
#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define AT(p, a, r) if (on()) { In in; atomic_point(p, sizeof *(p), a, r, PC, true); }
#define ATL(p, a) if (on()) { In in; atomic_point(p, sizeof *(p), a, false, PC, false); }
#define RMW(B, T, NAME, OP) T __tsan_atomic##B##_##NAME(volatile T* p, T v, int mo) { AT(p, ACQ(mo), REL(mo)) return OP(p, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(B, T)                                                                                           \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { ATL(p, ACQ(mo)) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { AT(p, false, REL(mo)) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  RMW(B, T, exchange, __atomic_exchange_n) RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub)   \
  RMW(B, T, fetch_and, __atomic_fetch_and) RMW(B, T, fetch_or, __atomic_fetch_or) RMW(B, T, fetch_xor, __atomic_fetch_xor)     \
  RMW(B, T, fetch_nand, __atomic_fetch_nand)                                                                   \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { AT(p, ACQ(mo), REL(mo)) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { AT(p, ACQ(mo), REL(mo)) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { AT(p, ACQ(mo), REL(mo)) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char fence; if (on()) { In in; Sync* s = sync(&fence); acquire(s); release(s); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- threads
HIDDEN int pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*f)(void*), void* arg) {
  if (!on()) {
    const char m[] = "schedrt: Error: a thread is started outside of an execution\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(78);
  }
  In in;
  if (X->fail_create >= 0 && X->fail_create-- == 0) {
    ++X->refused;
    if (X->fail_all) X->fail_create = 0;
    return EAGAIN;
  }
  if (n_th >= kMax) { ++X->refused; return EAGAIN; }
  const int t = n_th++;
  th[t] = Thread();
  th[t].state = kRun;
  th[t].f = f;
  th[t].arg = arg;
  if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); th[t].detached = d == PTHREAD_CREATE_DETACHED; }
  vc[t] = vc[self_];
  vc[t].c[t] = 1;
  ++vc[self_].c[self_];
  ++X->created;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, map(kStack), kStack);
  if (real_create(&th[t].id, &a, entry, reinterpret_cast<void*>(long(t)))) { problem("the runtime could not start a thread"); _exit(6); }
  *id = th[t].id;
  // the identifier is written by the thread that starts the other one
  access(id, sizeof *id, true, false, PC);
  point();
  return 0;
}
HIDDEN int pthread_join(pthread_t id, void** r) {
  if (!on()) {
    if (!real_join) real_join = reinterpret_cast<decltype(real_join)>(dlsym(RTLD_NEXT, "pthread_join"));
    return real_join(id, r);
  }
  In in;
  const int t = find(id);
  if (t < 0) return ESRCH;
  if (t == self_) return EDEADLK;
  point();
  while (th[t].state != kFinished) block(&th[t]);
  join(vc[self_], th[t].end);
  th[t].joined = true;
  if (r) *r = nullptr;
  return 0;
}
HIDDEN int pthread_detach(pthread_t id) {
  if (!on()) return 0;
  In in;
  const int t = find(id);
  if (t < 0) return ESRCH;
  th[t].detached = true;
  return 0;
}
HIDDEN int sched_yield() { if (on()) { In in; point(true); } return 0; }
HIDDEN int nanosleep(const struct timespec*, struct timespec*) { if (on()) { In in; point(true); } return 0; }
HIDDEN int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (on()) { In in; point(true); } return 0; }
HIDDEN int usleep(useconds_t) { if (on()) { In in; point(true); } return 0; }

// ---------------------------------------------------------------- locks
#define REC(m) ((m)->__data.__kind % 4 == PTHREAD_MUTEX_RECURSIVE_NP)
HIDDEN int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) { In in; lock(sync(m), m, REC(m)); } return 0; }
HIDDEN int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return 0;
  In in;
  Sync* s = sync(m);
  point();
  if (s->owner && !(REC(m) && s->owner == self_ + 1)) return EBUSY;
  s->owner = self_ + 1;
  ++s->count;
  acquire(s);
  return 0;
}
HIDDEN int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
HIDDEN int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
HIDDEN int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) { In in; unlock(sync(m), m); } return 0; }
HIDDEN int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
HIDDEN int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (on()) { In in; Sync* s = sync(m); point(); while (s->owner || s->value) block(m); s->owner = self_ + 1; acquire(s); } return 0; }
HIDDEN int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (on()) { In in; Sync* s = sync(m); point(); while (s->owner) block(m); ++s->value; acquire(s); } return 0; }
HIDDEN int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (on()) { In in; Sync* s = sync(m); point(); if (s->owner) return EBUSY; ++s->value; acquire(s); } return 0; }
HIDDEN int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (on()) { In in; Sync* s = sync(m); point(); if (s->owner || s->value) return EBUSY; s->owner = self_ + 1; acquire(s); } return 0; }
HIDDEN int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (on()) { In in; Sync* s = sync(m); release(s); if (s->owner == self_ + 1) s->owner = 0; else if (s->value) --s->value; wake(m); } return 0; }
HIDDEN int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  if (!on()) return timed ? ETIMEDOUT : 0;
  In in;
  Sync* s = sync(m);
  const u32 count = s->count;
  s->owner = 0;
  s->count = 0;
  release(s);
  wake(m);
  block(c, timed);
  const bool out = th[self_].timed_out;
  if (!out) acquire(sync(c));
  while (s->owner) block(m);
  s->owner = self_ + 1;
  s->count = count;
  acquire(s);
  return out ? ETIMEDOUT : 0;
}
HIDDEN int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
HIDDEN int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
HIDDEN int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
HIDDEN int pthread_cond_signal(pthread_cond_t* c) { if (on()) { In in; point(); release(sync(c)); wake(c, 1); } return 0; }
HIDDEN int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { In in; point(); release(sync(c)); wake(c); } return 0; }
HIDDEN int pthread_cond_destroy(pthread_cond_t*) { return 0; }

HIDDEN int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) {
    if (*o != 2) { *o = 2; f(); }
    return 0;
  }
  Sync* s;
  {
    In in;
    s = sync(o);
    if (s->once == 2 || *o == 2) { acquire(s); return 0; }   // done for ever: the order does not matter
    point();
    while (s->once == 1) block(o);
    if (s->once == 2 || *o == 2) { acquire(s); return 0; }
    s->once = 1;
  }
  struct Undo {
    Sync* s; pthread_once_t* o; bool ok;
    ~Undo() { In in; s->once = ok ? 2 : 0; if (ok) *o = 2; release(s); wake(o); }
  } u{s, o, false};
  f();
  u.ok = true;
  return 0;
}
// guards of the variables initialised at their first use
HIDDEN int __cxa_guard_acquire(uint64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  if (!on()) { return *b == 0; }
  In in;
  Sync* s = sync(g);
  if (s->once == 2 || *b) { acquire(s); return 0; }
  point();
  while (s->once == 1) block(g);
  if (s->once == 2 || *b) { acquire(s); return 0; }
  s->once = 1;
  return 1;
}
HIDDEN void __cxa_guard_release(uint64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  if (on()) { In in; Sync* s = sync(g); s->once = 2; release(s); wake(g); }
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
}
HIDDEN void __cxa_guard_abort(uint64_t* g) { if (on()) { In in; Sync* s = sync(g); s->once = 0; release(s); wake(g); } }
}  // extern "C"

// ---------------------------------------------------------------- C++ library
unsigned int std::thread::hardware_concurrency() noexcept {
  if (X && X->hw >= 0) return unsigned(X->hw);
  return unsigned(sysconf(_SC_NPROCESSORS_ONLN));
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
  if (!on()) return false;
  In in;
  while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) {
    block(a, timed);
    if (th[self_].timed_out) return false;
  }
  acquire(sync(a));
  return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (on()) { In in; release(sync(a)); wake(a); } }
