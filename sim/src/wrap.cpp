// The seams between the code under test and its environment: libc memory
// functions, instrumented memory accesses (compiled with -fsanitize=thread and
// linked to the hooks below instead of the ThreadSanitizer runtime), libcerror.
#include "core.h"
#include <cerrno>
#include <pthread.h>
using namespace sim;
#define RA __builtin_return_address(0)
namespace sim {
void hook(const void *p, size_t n, bool write, const void *pc) {
  Th *t = cur;
  if (!t->active || !n) return;
  if ((char *)p >= t->lo && (char *)p < t->hi) return;
  step(pc);
  trk_access(p, n, write, pc);
  if (on_access) on_access(p, n, write, pc);
  if (race_on) race_access(p, (unsigned)(n > 4096 ? 4096 : n), write, pc);
}
ErrLog err_log;
} // namespace sim
extern "C" {
// ---- memory ------------------------------------------------------------------
void *simw_malloc(size_t n) {
  if (!cur->active) return trk_alloc(n, RA);
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  return trk_alloc(n, RA);
}
void *simw_calloc(size_t a, size_t b) {
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  if (b && a > ((size_t)1 << 40) / b) return nullptr;
  void *p = trk_alloc(a * b, RA);
  if (p) memset(p, 0, a * b);
  return p;
}
void simw_free(void *p) {
  step(RA);
  Quiet q;
  trk_free(p, RA);
}
void *simw_realloc(void *p, size_t n) {
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  void *r = trk_alloc(n, RA);
  if (!r) return nullptr;
  if (p) {
    Block *b = trk_exact(p);
    if (!b || b->freed) { trk_free(p, RA); return nullptr; }
    memcpy(r, p, b->n < n ? b->n : n);
    trk_free(p, RA);
  }
  return r;
}
char *simw_strdup(const char *s) {
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  size_t n = strlen(s) + 1;
  char *p = (char *)trk_alloc(n, RA);
  if (p) memcpy(p, s, n);
  return p;
}
char *simw_strndup(const char *s, size_t m) {
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  size_t n = strnlen(s, m);
  char *p = (char *)trk_alloc(n + 1, RA);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
char *simw___strdup(const char *s) { return simw_strdup(s); }
char *simw___strndup(const char *s, size_t m) { return simw_strndup(s, m); }
wchar_t *simw_wcsdup(const wchar_t *s) {
  step(RA);
  if (fault(F_ALLOC)) return nullptr;
  Quiet q;
  size_t n = (wcslen(s) + 1) * sizeof *s;
  wchar_t *p = (wchar_t *)trk_alloc(n, RA);
  if (p) memcpy(p, s, n);
  return p;
}
void *simw_reallocarray(void *p, size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) return nullptr;
  return simw_realloc(p, a * b);
}
int simw_posix_memalign(void **r, size_t al, size_t n) {
  step(RA);
  if (fault(F_ALLOC)) return 12;
  Quiet q;
  void *p = trk_alloc(n, RA);
  if (!p) return 12;
  *r = p;
  return 0;
}
void *simw_aligned_alloc(size_t al, size_t n) { return simw_malloc(n); }
void *simw_memalign(size_t al, size_t n) { return simw_malloc(n); }
int simw_vasprintf(char **r, const char *f, va_list a) {
  step(RA);
  if (fault(F_ALLOC)) { *r = nullptr; return -1; }
  Quiet q;
  char *t = nullptr;
  int n = vasprintf(&t, f, a);
  if (n < 0) { *r = nullptr; return -1; }
  char *p = (char *)trk_alloc((size_t)n + 1, RA);
  if (p) memcpy(p, t, (size_t)n + 1);
  free(t);
  *r = p;
  return p ? n : -1;
}
int simw_asprintf(char **r, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int n = simw_vasprintf(r, f, a);
  va_end(a);
  return n;
}
int simw___asprintf(char **r, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int n = simw_vasprintf(r, f, a);
  va_end(a);
  return n;
}
// A failing memory operation has done everything, nothing or the first half of
// its work (the parameter of the fault; in kind R always everything). In kinds O
// and C, where the compiler knows that these functions return their first argument
// and may use the result in its place, they do not fail.
static char kind() {
  static const char k = build_cfg[strlen(build_cfg) - 1];
  return k;
}
static const Fault *memop_fault() { return kind() == 'C' || kind() == 'O' ? nullptr : fault(F_MEMOP); }
static size_t done_part(const Fault *f, size_t n) {
  if (!f || !f->param || kind() == 'R') return n;
  return f->param == 1 ? 0 : n / 2;
}
void *simw_memcpy(void *d, const void *s, size_t n) {
  hook(s, n, false, RA);
  hook(d, n, true, RA);
  const Fault *f = memop_fault();
  memcpy(d, s, done_part(f, n));
  return f ? nullptr : d;
}
void *simw_memmove(void *d, const void *s, size_t n) {
  hook(s, n, false, RA);
  hook(d, n, true, RA);
  const Fault *f = memop_fault();
  memmove(d, s, done_part(f, n));
  return f ? nullptr : d;
}
void *simw_memset(void *d, int c, size_t n) {
  hook(d, n, true, RA);
  const Fault *f = memop_fault();
  memset(d, c, done_part(f, n));
  return f ? nullptr : d;
}
int simw_memcmp(const void *a, const void *b, size_t n) {
  hook(a, n, false, RA);
  hook(b, n, false, RA);
  return memcmp(a, b, n);
}
void simw_abort(void) { fatal("crash:abort", "abort", "the code under test called abort"); }

// ---- instrumentation ------------------------------------------------------------
#define ACC(sz)                                                                    \
  void __tsan_read##sz(void *p) { hook(p, sz, false, RA); }                        \
  void __tsan_write##sz(void *p) { hook(p, sz, true, RA); }                        \
  void __tsan_unaligned_read##sz(void *p) { hook(p, sz, false, RA); }              \
  void __tsan_unaligned_write##sz(void *p) { hook(p, sz, true, RA); }              \
  void __tsan_volatile_read##sz(void *p) { hook(p, sz, false, RA); }               \
  void __tsan_volatile_write##sz(void *p) { hook(p, sz, true, RA); }               \
  void __tsan_unaligned_volatile_read##sz(void *p) { hook(p, sz, false, RA); }     \
  void __tsan_unaligned_volatile_write##sz(void *p) { hook(p, sz, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { hook(p, n, false, RA); }
void __tsan_write_range(void *p, size_t n) { hook(p, n, true, RA); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
// Atomics: sequentially consistent (one simulated thread runs at a time), and
// ordering between threads through them counts as synchronisation.
static void atomic_sync(volatile void *p, const void *pc) {
  static volatile void *spin_p[MAXT];
  static u32 spin_n[MAXT];
  step(pc);
  if (race_on) { // a thread that keeps looking at the same place waits for another one
    int me = cur->id;
    if (spin_p[me] != p) { spin_p[me] = p; spin_n[me] = 0; }
    else if (++spin_n[me] % 1000 == 0) { Quiet q; spin_yield(); }
  }
  if (race_on) { int k = (int)(((u64)p >> 1) & 0x3fffffff) | 0x40000000; slot_acquire_sync(k); slot_release_sync(k); }
}
#define ATOM(bits, T)                                                                                                         \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { atomic_sync((volatile void *)p, RA); return *p; }                  \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atomic_sync(p, RA); *p = v; }                                   \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = v; return o; }               \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = o + v; return o; }          \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = o - v; return o; }          \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = o & v; return o; }          \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = o | v; return o; }           \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = o ^ v; return o; }          \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { atomic_sync(p, RA); T o = *p; *p = ~(o & v); return o; }      \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { atomic_sync(p, RA); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { atomic_sync(p, RA); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { atomic_sync(p, RA); T o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks between threads --------------------------------------------------------------
struct Mutex { int owner = -1, depth = 0, kind = 0; bool explicit_kind = false; };
static std::map<const void *, Mutex> mutexes;
static int mutex_who(const void *m) { auto it = mutexes.find(m); return it == mutexes.end() ? -1 : it->second.owner; }
static int mutex_slot(const void *m) { return (int)(((u64)m >> 3) & 0x0fffffff) | 0x10000000; }
int simw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  step(RA);
  Quiet q;
  Mutex x;
  if (a) pthread_mutexattr_gettype(a, &x.kind);
  x.explicit_kind = true;
  mutexes[m] = x;
  memset(m, 0, sizeof *m);
  return 0;
}
int simw_pthread_mutex_destroy(pthread_mutex_t *m) {
  step(RA);
  Quiet q;
  if (mutex_who(m) >= 0) return EBUSY;
  mutexes.erase(m);
  return 0;
}
static int mutex_take(pthread_mutex_t *m, bool wait) {
  Quiet q;
  auto &x = mutexes[m];
  if (!x.explicit_kind) x.kind = m->__data.__kind & 3;
  if (x.owner == cur->id) {
    if (x.kind == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
    if (!wait) return EBUSY;
    if (x.kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    fatal("hang", "deadlock", "a thread waits for a mutex that it holds itself");
  }
  if (x.owner >= 0 && !wait) return EBUSY;
  block_on(mutex_who, m);
  x.owner = cur->id;
  x.depth = 1;
  if (race_on) slot_acquire_sync(mutex_slot(m));
  return 0;
}
int simw_pthread_mutex_lock(pthread_mutex_t *m) { step(RA); int r = mutex_take(m, true); step(RA); return r; }
int simw_pthread_mutex_trylock(pthread_mutex_t *m) { step(RA); return mutex_take(m, false); }
int simw_pthread_mutex_unlock(pthread_mutex_t *m) {
  step(RA);
  {
    Quiet q;
    auto &x = mutexes[m];
    if (x.owner != cur->id) return EPERM;
    if (--x.depth == 0) {
      if (race_on) slot_release_sync(mutex_slot(m));
      x.owner = -1;
    }
  }
  step(RA);
  return 0;
}
int simw_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  step(RA);
  static std::map<const void *, bool> done;
  { Quiet q; mutexes[o].explicit_kind = true; }
  if (mutex_take((pthread_mutex_t *)(void *)o, true)) return EINVAL;
  bool first;
  { Quiet q; bool &d = done[o]; first = !d; d = true; }
  if (first) fn();
  return simw_pthread_mutex_unlock((pthread_mutex_t *)(void *)o);
}

// ---- libcerror -----------------------------------------------------------------------
struct err_obj { u64 magic; int n; int domain, code; char msg[240]; };
static const u64 ERR_MAGIC = 0x6572726f626a2121ull;
static void err_set(intptr_t **error, int dom, int code, const char *fmt, va_list ap, const void *pc) {
  if (!error) return;
  if (race_on) { hook(error, sizeof *error, !*error, pc); if (*error && trk_exact(*error)) hook(*error, sizeof(err_obj), true, pc); }
  Quiet q;
  char b[512];
  vsnprintf(b, sizeof b, fmt, ap);
  if (!*error) {
    if (fault(F_ERROBJ)) return; // the error object itself could not be allocated
    err_obj *e = (err_obj *)trk_alloc(sizeof(err_obj), pc, BK_ERR);
    e->magic = ERR_MAGIC;
    e->n = 0;
    e->msg[0] = 0;
    *error = (intptr_t *)e;
  }
  err_obj *e = (err_obj *)*error;
  Block *k = trk_exact(e);
  if (!k || k->freed || k->kind != BK_ERR) fatal("bad-error", "error-pointer", "libcerror_error_set called with an error pointer that is not a live error object (uninitialised or already freed)");
  e->n++;
  e->domain = dom;
  e->code = code;
  snprintf(e->msg, sizeof e->msg, "%s", b);
}
void libcerror_error_set(intptr_t **error, int dom, int code, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  err_set(error, dom, code, fmt, ap, RA);
  va_end(ap);
}
void libcerror_system_set_error(intptr_t **error, int dom, int code, uint32_t, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  err_set(error, dom, code, fmt, ap, RA);
  va_end(ap);
}
void libcerror_error_free(intptr_t **error) {
  if (!error) return;
  if (race_on) hook(error, sizeof *error, *error != nullptr, RA);
  if (!*error) return;
  Quiet q;
  Block *k = trk_exact(*error);
  if (!k || k->kind != BK_ERR) fatal("bad-error", "free", "libcerror_error_free of something that is not an error object");
  trk_free(*error, RA);
  *error = nullptr;
}
int libcerror_error_matches(intptr_t *error, int dom, int code) {
  err_obj *e = (err_obj *)error;
  return e && e->domain == dom && e->code == code;
}
int libcerror_error_fprint(intptr_t *e, FILE *f) { err_log = {1, e, f, 0, e && f ? 11 : -1}; return err_log.ret; }
int libcerror_error_backtrace_fprint(intptr_t *e, FILE *f) { err_log = {2, e, f, 0, e && f ? 22 : -1}; return err_log.ret; }
int libcerror_error_sprint(intptr_t *error, char *s, size_t n) {
  err_obj *e = (err_obj *)error;
  err_log = {3, error, s, n, -1};
  if (!e || !s || !n) return -1;
  Quiet q;
  int m = snprintf(s, n, "%s", e->msg);
  return err_log.ret = m >= (int)n ? -1 : m + 1;
}
int libcerror_error_backtrace_sprint(intptr_t *error, char *s, size_t n) {
  err_obj *e = (err_obj *)error;
  Quiet q;
  err_log = {4, error, s, n, -1};
  if (!e || !s || !n) return -1;
  Block *k = trk_exact(e);
  if (!k || k->freed) fatal("bad-error", "backtrace", "backtrace of a freed error object");
  int m = snprintf(s, n, "%s", e->msg);
  return err_log.ret = m >= (int)n ? -1 : m + 1;
}
}
