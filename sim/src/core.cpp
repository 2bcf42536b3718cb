#include "core.h"
#include <algorithm>
#include <execinfo.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);
extern "C" void sim_sanitizer_poison(const void *p, size_t n) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, n); }
extern "C" void sim_sanitizer_unpoison(const void *p, size_t n) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); }

namespace sim {
Shared *sh = nullptr;
const Plan *plan = nullptr;
static Th main_th;
Th *cur = &main_th;
int nthreads = 1;
void (*deliver_signal)() = nullptr;
void (*on_switch)(int, int) = nullptr;
void (*on_access)(const void *, size_t, bool, const void *) = nullptr;

u64 code_number(Rng &r, u64 max, bool exact) {
  if (build_cfg[strlen(build_cfg) - 1] == 'T') max = std::min<u64>(max, 20000); // every access is a step
  int n = 0, big = 0; // sorted
  while (n < n_code_consts && code_consts[n] <= max + 1) { if (code_consts[n] < 300) big = n + 1; n++; }
  if (!n) return 0;
  u64 c = big < n && r.chance(3, 4) ? code_consts[r.range(big, n - 1)] : code_consts[r.below(n)];
  if (!exact) switch (r.below(8)) {
  case 0: c--; break;
  case 1: case 2: c++; break;
  case 3: c = c * r.range(1, 8) + r.below(2); break;
  case 4: c += r.below(20); break;
  default: break;
  }
  return c <= max ? c : 0;
}
u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15)); return r.next(); }
u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *q = (const u8 *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
  return h;
}
const char *const fk_name[NFK] = {"alloc", "errobj", "memop", "evp_new", "evp_init", "evp_update", "evp_final", "evp_cleanup",
                                  "file_init", "file_free", "open", "size", "read", "close", "split", "locale", "setvbuf", "signal",
                                  "write", "pyalloc", "pymodule", "intr"};
int fk_by_name(const std::string &s) {
  for (int i = 0; i < NFK; i++) if (s == fk_name[i]) return i;
  return -1;
}
std::string strf(const char *fmt, ...) {
  char b[1024];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  return b;
}
// ---- plan text ------------------------------------------------------------
static const std::string *find(const KV &kv, const char *k) {
  for (auto &e : kv) if (e.first == k) return &e.second;
  return nullptr;
}
std::string Op::s(const char *k, const char *d) const { auto p = find(kv, k); return p ? *p : d; }
long Op::i(const char *k, long d) const { auto p = find(kv, k); return p ? strtol(p->c_str(), 0, 0) : d; }
u64 Op::u(const char *k, u64 d) const { auto p = find(kv, k); return p ? strtoull(p->c_str(), 0, 0) : d; }
bool Op::has(const char *k) const { return find(kv, k) != nullptr; }
static void put(KV &kv, const char *k, const std::string &v) {
  for (auto &e : kv) if (e.first == k) { e.second = v; return; }
  kv.push_back({k, v});
}
Op &Op::set(const char *k, const std::string &v) { put(kv, k, v); return *this; }
Op &Op::set(const char *k, long v) { put(kv, k, std::to_string(v)); return *this; }
void Op::del(const char *k) { kv.erase(std::remove_if(kv.begin(), kv.end(), [&](auto &e) { return e.first == k; }), kv.end()); }
Op &Op::setu(const char *k, u64 v) { put(kv, k, std::to_string(v)); return *this; }
std::string Plan::s(const char *k, const char *d) const { auto p = find(head, k); return p ? *p : d; }
long Plan::i(const char *k, long d) const { auto p = find(head, k); return p ? strtol(p->c_str(), 0, 0) : d; }
u64 Plan::u(const char *k, u64 d) const { auto p = find(head, k); return p ? strtoull(p->c_str(), 0, 0) : d; }
void Plan::set(const char *k, const std::string &v) { put(head, k, v); }
void Plan::set(const char *k, long v) { put(head, k, std::to_string(v)); }
void Plan::setu(const char *k, u64 v) { put(head, k, std::to_string(v)); }
Op &Plan::add(int th, const char *verb) {
  Op o;
  o.id = ops.empty() ? 1 : ops.back().id + 1;
  o.th = th;
  o.verb = verb;
  ops.push_back(o);
  return ops.back();
}
std::string Plan::text() const {
  std::string t = "plan";
  for (auto &e : head) t += " " + e.first + "=" + e.second;
  t += "\n";
  for (auto &o : ops) {
    t += strf("op %d t%d %s", o.id, o.th, o.verb.c_str());
    for (auto &e : o.kv) t += " " + e.first + "=" + e.second;
    t += "\n";
  }
  for (auto &f : faults) t += strf("fault op=%d kind=%s nth=%d param=%ld\n", f.op, fk_name[f.kind], f.nth, f.param);
  for (auto &w : sws) t += strf("switch op=%d at=%ld to=%d n=%d\n", w.op, w.at, w.to, w.n);
  for (auto &g : sigs) t += strf("sigint op=%d at=%ld\n", g.op, g.at);
  return t;
}
bool Plan::parse(const std::string &t, std::string *why) {
  size_t pos = 0;
  while (pos < t.size()) {
    size_t e = t.find('\n', pos);
    if (e == std::string::npos) e = t.size();
    std::string line = t.substr(pos, e - pos);
    pos = e + 1;
    if (line.empty() || line[0] == '#') continue;
    std::vector<std::string> w;
    size_t a = 0;
    while (a < line.size()) {
      size_t b = line.find(' ', a);
      if (b == std::string::npos) b = line.size();
      if (b > a) w.push_back(line.substr(a, b - a));
      a = b + 1;
    }
    if (w.empty()) continue;
    KV kv;
    size_t first = w[0] == "op" ? 4 : 1;
    if (w.size() < first) { *why = "short line: " + line; return false; }
    for (size_t k = first; k < w.size(); k++) {
      size_t q = w[k].find('=');
      if (q == std::string::npos) { *why = "bad word " + w[k]; return false; }
      kv.push_back({w[k].substr(0, q), w[k].substr(q + 1)});
    }
    auto L = [&](const char *k, long d) { auto p = find(kv, k); return p ? strtol(p->c_str(), 0, 0) : d; };
    if (w[0] == "plan") head = kv;
    else if (w[0] == "op") {
      Op o;
      o.id = atoi(w[1].c_str());
      o.th = atoi(w[2].c_str() + 1);
      o.verb = w[3];
      o.kv = kv;
      ops.push_back(o);
    } else if (w[0] == "fault") {
      Fault f;
      f.op = L("op", 0);
      auto p = find(kv, "kind");
      f.kind = p ? fk_by_name(*p) : -1;
      if (f.kind < 0) { *why = "bad fault kind: " + line; return false; }
      f.nth = L("nth", 0);
      f.param = L("param", 0);
      faults.push_back(f);
    } else if (w[0] == "switch") {
      Sw s;
      s.op = L("op", 0); s.at = L("at", 0); s.to = L("to", 0); s.n = L("n", 1);
      sws.push_back(s);
    } else if (w[0] == "sigint") {
      Sig s;
      s.op = L("op", 0); s.at = L("at", 0);
      sigs.push_back(s);
    } else { *why = "bad line: " + line; return false; }
  }
  return true;
}
// ---- log ---------------------------------------------------------------------
void ev(const char *fmt, ...) {
  char b[600];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, a);
  va_end(a);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  sh->hash = hash_bytes(b, n, sh->hash);
  if (sh->tracelen + n < MAXTRACE) { memcpy(sh->trace + sh->tracelen, b, n); sh->tracelen += n; }
}
void sigmix(u64 v) { sh->signature = mix(sh->signature, v); }
static void record(const char *cls, const std::string &sig, const char *msg) {
  for (u32 i = 0; i < sh->nviol; i++)
    if (!strcmp(sh->viol[i].cls, cls) && sig == sh->viol[i].sig) return;
  if (sh->nviol >= MAXVIOL) return;
  Viol &v = sh->viol[sh->nviol];
  snprintf(v.cls, sizeof v.cls, "%s", cls);
  snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg);
  sh->nviol = sh->nviol + 1;
  ev("VIOLATION %s %s", cls, sig.c_str());
}
void viol(const char *cls, const std::string &sig, const char *fmt, ...) {
  char b[480];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  record(cls, sig, b);
}
void fatal(const char *cls, const std::string &sig, const char *fmt, ...) {
  char b[480];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  record(cls, sig, b);
  _exit(96);
}
static const char *probes[NPROBE];
void probe(int n) { if (n >= 0 && n < NPROBE) sh->probe[n]++; }
const char *probe_name(int n) { return probes[n]; }
void register_probe(int n, const char *name) { probes[n] = name; }

// ---- operations, faults, steps -------------------------------------------------
struct PcStat { u32 cnt; u32 at; };
static std::map<std::pair<int, u64>, PcStat> steps_seen;
static bool profiling = false;
static u64 step_cap = 120000000;
static u64 res_rng = 88172645463325252ull;

void begin_op(const Op &op) {
  Th *t = cur;
  t->op = &op;
  t->opid = op.id;
  t->step = 0;
  t->fired_in_op = 0;
  memset(t->kc, 0, sizeof t->kc);
  memset(t->fired_kind, 0, sizeof t->fired_kind);
  t->triggers.clear();
  for (size_t i = 0; i < plan->sws.size(); i++)
    if (plan->sws[i].op == op.id) t->triggers.push_back({plan->sws[i].at, (int)i});
  for (size_t i = 0; i < plan->sigs.size(); i++)
    if (plan->sigs[i].op == op.id) t->triggers.push_back({plan->sigs[i].at, -1 - (int)i});
  std::stable_sort(t->triggers.begin(), t->triggers.end());
  t->trig = 0;
  t->next_trigger = t->triggers.empty() ? -1 : t->triggers[0].first;
  profiling = plan->i("profile", 0) != 0;
}
void end_op() {
  Th *t = cur;
  t->active = false;
  if (profiling) {
    for (int k = 0; k < NFK; k++)
      if (t->kc[k] && sh->npoint < MAXPOINT) {
        sh->point[sh->npoint] = {(u32)t->opid, (u32)k, t->kc[k]};
        sh->npoint = sh->npoint + 1;
      }
    for (auto &e : steps_seen) {
      if (e.first.first != t->opid) continue;
      if (sh->nstep >= MAXSTEPPT) break;
      sh->step[sh->nstep] = {e.first.second, (u32)e.first.first, e.second.at, e.second.cnt};
      sh->nstep = sh->nstep + 1;
    }
    for (auto it = steps_seen.begin(); it != steps_seen.end();) it = it->first.first == t->opid ? steps_seen.erase(it) : std::next(it);
  }
  sh->nops++;
  t->opid = -1;
  t->op = nullptr;
}
const Fault *fault(FK kind) {
  Th *t = cur;
  if (t->opid < 0) return nullptr;
  u32 n = t->kc[kind]++;
  sh->seen[kind]++;
  for (auto &f : plan->faults)
    if (f.op == t->opid && f.kind == kind && (u32)f.nth == n) {
      sh->fired[kind]++;
      t->fired_in_op++;
      t->fired_kind[kind]++;
      ev("fault op=%d %s nth=%d param=%ld", f.op, fk_name[kind], f.nth, f.param);
      sigmix(hash_bytes(fk_name[kind], strlen(fk_name[kind])) ^ f.param);
      return &f;
    }
  return nullptr;
}
static void do_yield(int swi);
void step(const void *pc) {
  Th *t = cur;
  if (!t->active || t->nohook) return;
  t->step++;
  if (++sh->steps > step_cap) fatal("hang", "step-cap", "no progress: more than %llu steps", (unsigned long long)step_cap);
  if (profiling) {
    PcStat &s = steps_seen[{t->opid, (u64)pc}];
    s.cnt++;
    res_rng ^= res_rng << 13; res_rng ^= res_rng >> 7; res_rng ^= res_rng << 17;
    if (s.cnt == 1 || res_rng % s.cnt == 0) s.at = t->step;
  }
  while (t->step == t->next_trigger) {
    int what = t->triggers[t->trig].second;
    t->trig++;
    t->next_trigger = t->trig < t->triggers.size() ? t->triggers[t->trig].first : -1;
    if (what >= 0) do_yield(what);
    else if (deliver_signal) {
      ev("sigint op=%d step=%ld", t->opid, t->step);
      sigmix((u64)t->step);
      t->nohook++;
      deliver_signal();
      t->nohook--;
    }
  }
}
// ---- scheduler --------------------------------------------------------------------
struct Runner {
  Th th;
  pthread_t pt;
  sem_t go;
  std::vector<const Op *> ops;
  size_t next = 0;
  bool inop = false, quit = false;
  int event = 0; // 1 done, 2 yield, 3 blocked, 4 spinning
  int yield_sw = -1;
  int lock = -1;
  int (*wait)(const void *) = nullptr;
  const void *wait_arg = nullptr;
  int holder() const { return wait(wait_arg); }
};
static Runner *runners[MAXT];
static sem_t sched_sem;
static void (*exec_fn)(const Op &);
static std::map<int, int> lock_holder;
static std::map<int, std::vector<u64>> lock_vc;
void slot_release_sync(int slot) {
  auto &v = lock_vc[slot];
  v.resize(MAXT, 0);
  for (int i = 0; i < MAXT; i++) v[i] = std::max(v[i], cur->vc[i]);
  cur->vc[cur->id]++;
}
void slot_acquire_sync(int slot) {
  auto it = lock_vc.find(slot);
  if (it == lock_vc.end()) return;
  for (int i = 0; i < MAXT; i++) cur->vc[i] = std::max(cur->vc[i], it->second[i]);
}
static void stack_bounds(Th &t) {
  pthread_attr_t a;
  void *p; size_t n;
  if (pthread_getattr_np(pthread_self(), &a)) return;
  pthread_attr_getstack(&a, &p, &n);
  pthread_attr_destroy(&a);
  t.lo = (char *)p;
  t.hi = (char *)p + n;
}
static void one_op(const Op &op) {
  begin_op(op);
  prefill_stack(mix(plan->u("seed"), op.id));
  exec_fn(op);
  end_op();
}
static void *runner_main(void *v) {
  Runner *r = (Runner *)v;
  stack_bounds(r->th);
  for (;;) {
    while (sem_wait(&r->go)) {}
    if (r->quit) return nullptr;
    one_op(*r->ops[r->next]);
    r->event = 1;
    sem_post(&sched_sem);
  }
}
static void do_yield(int swi) {
  if (nthreads < 2) return;
  Runner *r = runners[cur->id];
  Th *me = cur;
  int op = me->opid;
  r->event = 2;
  r->yield_sw = swi;
  sem_post(&sched_sem);
  while (sem_wait(&r->go)) {}
  (void)op;
}
void block_on(int (*holder)(const void *), const void *arg) {
  if (nthreads < 2) return;
  Runner *r = runners[cur->id];
  int me = cur->id;
  while (holder(arg) >= 0 && holder(arg) != me) {
    r->event = 3;
    r->wait_arg = arg;
    r->wait = holder;
    sem_post(&sched_sem);
    while (sem_wait(&r->go)) {}
    r->wait = nullptr;
  }
}
void spin_yield() {
  if (nthreads < 2) return;
  Runner *r = runners[cur->id];
  r->event = 4;
  sem_post(&sched_sem);
  while (sem_wait(&r->go)) {}
}
static bool runnable(int t, int (*lock_of)(const Op &)) {
  Runner *r = runners[t];
  if (r->next >= r->ops.size()) return false;
  if (r->wait && r->holder() >= 0 && r->holder() != t) return false;
  if (r->inop) return true;
  int l = lock_of ? lock_of(*r->ops[r->next]) : -1;
  auto it = lock_holder.find(l);
  return l < 0 || it == lock_holder.end() || it->second < 0 || it->second == t;
}
void run_ops(const Plan &p, void (*exec)(const Op &), int (*lock_of)(const Op &)) {
  exec_fn = exec;
  plan = &p;
  step_cap = p.u("stepcap", 120000000);
  nthreads = 1;
  for (auto &o : p.ops) nthreads = std::max(nthreads, o.th + 1);
  if (nthreads > MAXT) nthreads = MAXT;
  if (nthreads == 1) {
    cur = &main_th;
    stack_bounds(main_th);
    for (auto &o : p.ops) one_op(o);
    return;
  }
  sem_init(&sched_sem, 0, 0);
  std::vector<std::pair<int, const Op *>> order;
  for (int t = 0; t < nthreads; t++) {
    Runner *r = runners[t] = new Runner;
    r->th.id = t;
    r->th.vc[t] = 1;
    sem_init(&r->go, 0, 0);
  }
  for (auto &o : p.ops) {
    int t = o.th < nthreads ? o.th : 0;
    runners[t]->ops.push_back(&o);
    order.push_back({t, &o});
  }
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 512 * 1024);
  for (int t = 0; t < nthreads; t++)
    if (pthread_create(&runners[t]->pt, &a, runner_main, runners[t])) fatal("harness", "pthread", "pthread_create failed");
  race_on = true;
  std::vector<std::pair<int, int>> forced;
  size_t low = 0;
  int last = -1;
  for (;;) {
    int t = -1;
    while (!forced.empty()) {
      if (runnable(forced.back().first, lock_of)) { t = forced.back().first; break; }
      forced.pop_back();
    }
    if (t < 0) {
      // lowest incomplete operation in plan order
      while (low < order.size()) {
        Runner *r = runners[order[low].first];
        bool complete = true;
        for (size_t k = r->next; k < r->ops.size(); k++) if (r->ops[k] == order[low].second) { complete = false; break; }
        if (!complete) break;
        low++;
      }
      if (low >= order.size()) break;
      t = order[low].first;
      int guard = 0;
      while (!runnable(t, lock_of) && guard++ < 2 * MAXT) t = runners[t]->wait ? runners[t]->holder() : lock_holder[lock_of(*runners[t]->ops[runners[t]->next])];
      if (!runnable(t, lock_of)) fatal("hang", "deadlock", "no thread can run");
    }
    Runner *r = runners[t];
    cur = &r->th;
    if (!r->inop) {
      r->lock = lock_of ? lock_of(*r->ops[r->next]) : -1;
      if (r->lock >= 0) { lock_holder[r->lock] = t; slot_acquire_sync(r->lock); }
      r->inop = true;
    }
    if (last != t && on_switch) on_switch(last, t);
    last = t;
    sem_post(&r->go);
    while (sem_wait(&sched_sem)) {}
    if (r->event == 1) {
      r->inop = false;
      r->next++;
      cur = &r->th;
      if (r->lock >= 0) { slot_release_sync(r->lock); lock_holder[r->lock] = -1; r->lock = -1; }
      if (!forced.empty() && forced.back().first == t && --forced.back().second <= 0) forced.pop_back();
    } else if (r->event == 4) { // waits for something another thread does
      for (int k = 1; k < nthreads; k++)
        if (runnable((t + k) % nthreads, lock_of)) { forced.push_back({(t + k) % nthreads, 1}); break; }
    } else if (r->event == 2) {
      const Sw &w = p.sws[r->yield_sw];
      if (w.to != t && w.to >= 0 && w.to < nthreads && runnable(w.to, lock_of)) {
        forced.push_back({w.to, w.n});
        sh->switches++;
        if (runners[w.to]->inop) sh->switches_same_op++;
        ev("switch op=%d step=%ld t%d->t%d", r->th.opid, r->th.step, t, w.to);
        sigmix(((u64)t << 32) ^ (u64)w.to ^ ((u64)r->th.opid << 16) ^ ((u64)r->th.step << 40));
      }
    }
  }
  for (int t = 0; t < nthreads; t++) { runners[t]->quit = true; sem_post(&runners[t]->go); pthread_join(runners[t]->pt, nullptr); }
  race_on = false;
  nthreads = 1;
  cur = &main_th;
  stack_bounds(main_th);
}
__attribute__((noinline)) void prefill_stack(u64 seed) {
  volatile u64 b[3000];
  u64 x = seed | 1;
  for (int i = 0; i < 3000; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x; }
  asm volatile("" : : "r"(b) : "memory");
}
// ---- tracked memory ---------------------------------------------------------------
static char *const ARENA = (char *)0x200000000000;
static const size_t ARENA_SIZE = (size_t)8 << 30;
static u8 *const SHADOW = (u8 *)0x220000000000;
static const size_t RZ = 64;
static bool arena_ok = false;
static char *bump;
static std::vector<Block> blocks;
static std::map<size_t, std::vector<u8>> stale;
static std::map<std::pair<size_t, int>, std::vector<size_t>> recycle; // fill=recycle: released blocks, handed out again (last in, first out)
static Rng fillrng;
static std::string fillmode;
size_t trk_limit = (size_t)256 << 20;
void (*on_free)(Block &b) = nullptr;
bool in_arena(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SIZE; }
u8 *arena_shadow(const void *p) { return SHADOW + (((char *)p - ARENA) >> 3); }
static const size_t BIG = 1 << 16;
template <class F> static void ends(u8 *p, size_t n, F f) {
  if (n <= 2 * BIG) f(p, n);
  else { f(p, BIG); f(p + n - BIG, BIG); }
}
void trk_reset(u64 seed, const std::string &fill) {
  if (!arena_ok) {
    void *a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void *s = mmap(SHADOW, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a != ARENA || s != SHADOW) fatal("harness", "mmap", "cannot map arena");
    arena_ok = true;
  }
  bump = ARENA + 4096;
  blocks.clear();
  stale.clear();
  recycle.clear();
  fillrng = Rng(mix(seed, 0xf111));
  fillmode = fill.empty() ? "random" : fill;
}
static u8 rzbyte(size_t i) { return (u8)(0xA5 ^ (i * 7)); }
void *trk_alloc(size_t n, const void *pc, int kind) {
  size_t span = (n + 15) / 16 * 16;
  if (n > trk_limit || bump + span + 3 * RZ > ARENA + ARENA_SIZE) { ev("alloc %zu refused: over limit", n); if (cur) { cur->fired_in_op++; cur->fired_kind[F_ALLOC]++; } return nullptr; }
  if (fillmode == "recycle" && nthreads == 1) {
    auto it = recycle.find({n, kind});
    if (it != recycle.end() && !it->second.empty()) {
      Block &b = blocks[it->second.back()];
      it->second.pop_back();
      memset(SHADOW + ((b.p - ARENA) >> 3), 8, n / 8);
      if (n % 8) SHADOW[((b.p - ARENA) >> 3) + n / 8] = n % 8;
      if (n) sim_sanitizer_unpoison(b.p, n);
      auto st = stale.find(n);
      if (st != stale.end()) memcpy(b.p, st->second.data(), n);
      b.freed = false; b.op = cur ? cur->opid : -1; b.pc = (u64)pc;
      return b.p;
    }
  }
  char *p = bump + RZ;
  for (size_t i = 0; i < RZ; i++) bump[i] = (char)rzbyte(i);
  memset(SHADOW + ((bump - ARENA) >> 3), 0xfa, RZ / 8);
  u8 mode = 0;
  if (fillmode == "zero") mode = 1;
  else if (fillmode == "ff") mode = 2;
  else if (fillmode == "stale") mode = 3;
  else if (fillmode == "mixed") mode = (u8)fillrng.below(4);
  bool done = false;
  if (mode == 3) {
    auto it = stale.find(n);
    if (it != stale.end()) { memcpy(p, it->second.data(), n); done = true; }
    else mode = 0;
  }
  if (!done) ends((u8 *)p, n, [&](u8 *q, size_t m) {
    if (mode == 1) memset(q, 0, m);
    else if (mode == 2) memset(q, 0xff, m);
    else { size_t i = 0; for (; i + 8 <= m; i += 8) { u64 v = fillrng.next(); memcpy(q + i, &v, 8); } for (; i < m; i++) q[i] = (u8)fillrng.next(); }
  });
  // tail up to the next 16 and the trailing redzone
  char *end = p + n, *lim = p + span + RZ;
  for (char *q = end; q < lim; q++) *q = (char)rzbyte(q - end);
  u8 *s = SHADOW + ((p - ARENA) >> 3);
  memset(s, 8, n / 8);
  s += n / 8;
  u8 *send = SHADOW + ((lim - ARENA) >> 3);
  if (n % 8) *s++ = n % 8;
  while (s < send) *s++ = 0xfa;
  sim_sanitizer_poison(bump, RZ);
  sim_sanitizer_poison(end, lim - end);
  if (n) sim_sanitizer_unpoison(p, n);
  bump = p + span;
  Block b;
  b.p = p; b.n = n; b.freed = false; b.op = cur ? cur->opid : -1; b.alg = 0; b.pc = (u64)pc; b.serial = blocks.size(); b.kind = (u8)kind;
  blocks.push_back(b);
  return p;
}
Block *trk_find(const void *vp) {
  char *p = (char *)vp;
  size_t lo = 0, hi = blocks.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].p <= p) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  return &blocks[lo - 1];
}
Block *trk_exact(const void *p) {
  Block *b = in_arena(p) ? trk_find(p) : nullptr;
  return b && b->p == p ? b : nullptr;
}
static std::string opname() { return cur && cur->op ? cur->op->verb : "end"; }
static void check_zones(Block &b) {
  size_t span = (b.n + 15) / 16 * 16;
  sim_sanitizer_unpoison(b.p - RZ, RZ);
  for (size_t i = 0; i < RZ; i++)
    if ((u8)b.p[(long)i - (long)RZ] != rzbyte(i)) fatal("oob-write", "heap-before", "bytes before a %zu-byte allocation (op %d, pc 0x%llx) were overwritten", b.n, b.op, (unsigned long long)b.pc);
  sim_sanitizer_poison(b.p - RZ, RZ);
  // the following block's leading redzone starts at p + span, so check only the tail up to span here
  sim_sanitizer_unpoison(b.p + b.n, span - b.n);
  for (size_t i = b.n; i < span; i++)
    if ((u8)b.p[i] != rzbyte(i - b.n)) fatal("oob-write", "heap-after", "bytes after a %zu-byte allocation (op %d, pc 0x%llx) were overwritten", b.n, b.op, (unsigned long long)b.pc);
  sim_sanitizer_poison(b.p + b.n, span - b.n);
}
void trk_free(void *p, const void *pc) {
  if (!p) return;
  Block *b = trk_exact(p);
  if (!b) { fatal("bad-free", opname(), "free of a pointer that is not an allocated block (pc 0x%llx)", (unsigned long long)(u64)pc); }
  if (b->freed) fatal("double-free", opname(), "second free of a %zu-byte block allocated in op %d (alloc pc 0x%llx, free pc 0x%llx)", b->n, b->op, (unsigned long long)b->pc, (unsigned long long)(u64)pc);
  check_zones(*b);
  if (on_free) on_free(*b);
  b->freed = true;
  if (b->n && b->n <= BIG) stale[b->n].assign((u8 *)b->p, (u8 *)b->p + b->n);
  ends((u8 *)b->p, b->n, [&](u8 *q, size_t m) { memset(q, 0xDB, m); });
  memset(SHADOW + ((b->p - ARENA) >> 3), 0xfd, (b->n + 7) / 8);
  if (fillmode == "recycle" && b->n <= BIG) recycle[{b->n, b->kind}].push_back(b - blocks.data());
  if (b->n) sim_sanitizer_poison(b->p, b->n);
}
size_t trk_live(int kind, int op) {
  size_t n = 0;
  for (auto &b : blocks) if (!b.freed && (kind < 0 || b.kind == kind) && (op < 0 || b.op == op)) n++;
  return n;
}
std::vector<Block *> trk_live_list() {
  std::vector<Block *> v;
  for (auto &b : blocks) if (!b.freed) v.push_back(&b);
  return v;
}
void trk_end_check() {
  for (auto &b : blocks) {
    check_zones(b);
    if (b.freed) {
      sim_sanitizer_unpoison(b.p, b.n);
      bool bad = false;
      ends((u8 *)b.p, b.n, [&](u8 *q, size_t m) { for (size_t i = 0; i < m; i++) if (q[i] != 0xDB) bad = true; });
      if (bad) fatal("uaf-write", "heap", "a freed %zu-byte block (op %d, pc 0x%llx) was written after free", b.n, b.op, (unsigned long long)b.pc);
    }
  }
}
void trk_access(const void *p, size_t n, bool write, const void *pc) {
  if (!in_arena(p) || !n) return;
  char *a = (char *)p, *e = a + n;
  u8 *s = arena_shadow(a);
  for (char *g = (char *)((u64)a & ~7ull); g < e; g += 8, s++) {
    u8 v = *s;
    if (v == 8) continue;
    int need = (int)((e < g + 8 ? e : g + 8) - g);
    int from = (int)((a > g ? a : g) - g);
    (void)from;
    if (v == 0xfd) {
      Block *b = trk_find(g);
      fatal("use-after-free", opname(), "%s of a freed %zu-byte block allocated in op %d (alloc pc 0x%llx, access pc 0x%llx)", write ? "write" : "read", b ? b->n : 0, b ? b->op : 0, (unsigned long long)(b ? b->pc : 0), (unsigned long long)(u64)pc);
    }
    if (v > 8 || need > v) {
      Block *b = trk_find(a);
      fatal(write ? "oob-write" : "oob-read", opname(), "%zu-byte %s outside a %zu-byte block at offset %ld (alloc pc 0x%llx, access pc 0x%llx)", n, write ? "write" : "read", b ? b->n : 0, b ? (long)(a - b->p) : 0, (unsigned long long)(b ? b->pc : 0), (unsigned long long)(u64)pc);
    }
  }
}
// ---- guarded buffers -----------------------------------------------------------------
static char *const GREG = (char *)0x210000000000;
static const size_t GREG_SIZE = (size_t)64 << 30;
static char *gbump = nullptr;
static const size_t PG = 4096;
GBuf g_alloc(size_t n, bool at_end) {
  if (!gbump) {
    void *a = mmap(GREG, GREG_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a != GREG) fatal("harness", "mmap", "cannot map guard region");
    gbump = GREG + PG;
  }
  size_t span = (n + PG - 1) / PG * PG;
  if (!span) span = PG;
  if (gbump + span + 2 * PG > GREG + GREG_SIZE) fatal("harness", "guard", "guard region exhausted");
  GBuf b;
  b.base = gbump;
  b.span = span;
  b.n = n;
  gbump += span + PG;
  if (mprotect(b.base, span, PROT_READ | PROT_WRITE)) fatal("harness", "mprotect", "mprotect failed");
  b.p = (u8 *)(at_end ? b.base + span - n : b.base);
  size_t before = (char *)b.p - b.base, after = span - before - n;
  memset(b.base, 0xC7, before);
  memset((char *)b.p + n, 0xC7, after);
  if (before) sim_sanitizer_poison(b.base, before);
  if (after) sim_sanitizer_poison(b.p + n, after);
  return b;
}
static GBuf pools[MAXT][4];
static const size_t POOL = 16384;
GBuf g_reuse(int which, size_t n, bool at_end) {
  if (n > POOL) return g_alloc(n, at_end);
  GBuf &q = pools[cur->id][which];
  if (!q.base) { q = g_alloc(POOL, true); q.n = 0; }
  GBuf b = q;
  b.n = n;
  b.pooled = true;
  b.p = (u8 *)(at_end ? b.base + b.span - n : b.base);
  size_t before = (char *)b.p - b.base, after = b.span - before - n;
  memset(b.base, 0xC7, before);
  memset((char *)b.p + n, 0xC7, after);
  if (before) sim_sanitizer_poison(b.base, before);
  if (after) sim_sanitizer_poison(b.p + n, after);
  return b;
}
void g_readonly(GBuf &b) { mprotect(b.base, b.span, PROT_READ); }
void g_writable(GBuf &b) { mprotect(b.base, b.span, PROT_READ | PROT_WRITE); }
bool g_intact(GBuf &b) {
  size_t before = (char *)b.p - b.base, after = b.span - before - b.n;
  sim_sanitizer_unpoison(b.base, b.span);
  for (size_t i = 0; i < before; i++) if ((u8)b.base[i] != 0xC7) return false;
  for (size_t i = 0; i < after; i++) if (b.p[b.n + i] != 0xC7) return false;
  return true;
}
void g_retire(GBuf &b) {
  if (!b.base) return;
  if (b.pooled) { sim_sanitizer_unpoison(b.base, b.span); b.base = nullptr; return; }
  mprotect(b.base, b.span, PROT_NONE);
  madvise(b.base, b.span, MADV_DONTNEED);
  sim_sanitizer_unpoison(b.base, b.span);
  b.base = nullptr;
}
// ---- race detector ----------------------------------------------------------------------
bool race_on = false;
struct Cell { u64 key; u64 wclk; u64 wpc; u64 rclk[MAXT]; u8 wtid, wmask; u8 rmask[MAXT]; };
static std::vector<Cell> cells;
static size_t ncells = 0;
void race_reset() { cells.clear(); ncells = 0; }
static Cell &cell(u64 key) {
  if (cells.empty()) cells.resize(1 << 12);
  if (ncells * 2 > cells.size()) {
    std::vector<Cell> old;
    old.swap(cells);
    cells.resize(old.size() * 2);
    size_t m = cells.size() - 1;
    for (auto &c : old) if (c.key) { size_t h = (c.key * 0x9e3779b97f4a7c15ull) >> 20 & m; while (cells[h].key) h = (h + 1) & m; cells[h] = c; }
  }
  size_t m = cells.size() - 1, h = (key * 0x9e3779b97f4a7c15ull) >> 20 & m;
  while (cells[h].key && cells[h].key != key) h = (h + 1) & m;
  if (!cells[h].key) { cells[h].key = key; ncells++; }
  return cells[h];
}
static std::string (*race_sig_fn)() = nullptr;
void set_race_sig(std::string (*f)()) { race_sig_fn = f; }
void race_access(const void *p, unsigned n, bool write, const void *pc) {
  u64 a = (u64)p, e = a + n;
  Th *t = cur;
  while (a < e) {
    u64 g = a & ~7ull, lim = std::min(e, g + 8);
    u8 m = (u8)(((1u << (lim - a)) - 1) << (a - g));
    Cell &c = cell(g | 1);
    if (c.wmask & m && c.wtid != t->id && c.wclk > t->vc[c.wtid])
      viol("race", race_sig_fn ? race_sig_fn() : opname(), "data race: %s at pc 0x%llx by thread %d (op %d) with the write at pc 0x%llx by thread %d, on %s", write ? "write" : "read", (unsigned long long)(u64)pc, t->id, t->opid, (unsigned long long)c.wpc, c.wtid,
           in_arena(p) ? "heap memory" : "static or foreign memory");
    if (write) {
      for (int i = 0; i < MAXT; i++)
        if (i != t->id && (c.rmask[i] & m) && c.rclk[i] > t->vc[i])
          viol("race", race_sig_fn ? race_sig_fn() : opname(), "data race: write at pc 0x%llx by thread %d (op %d) with a read by thread %d, on %s", (unsigned long long)(u64)pc, t->id, t->opid, i, in_arena(p) ? "heap memory" : "static or foreign memory");
      if (c.wtid != t->id || c.wclk != t->vc[t->id]) c.wmask = 0;
      c.wmask |= m;
      c.wtid = (u8)t->id;
      c.wclk = t->vc[t->id];
      c.wpc = (u64)pc;
    } else {
      if (c.rclk[t->id] != t->vc[t->id]) c.rmask[t->id] = 0;
      c.rmask[t->id] |= m;
      c.rclk[t->id] = t->vc[t->id];
    }
    a = lim;
  }
}
} // namespace sim
