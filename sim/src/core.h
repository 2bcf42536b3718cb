// Deterministic simulator core: plans, seeded faults, tracked memory, baton
// threads, event log. Everything below runs inside one forked child per plan.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) { next(); next(); }
  u64 next() { // splitmix64
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
u64 mix(u64 a, u64 b);
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);

enum FK {
  F_ALLOC, F_ERROBJ, F_MEMOP, F_EVP_NEW, F_EVP_INIT, F_EVP_UPDATE, F_EVP_FINAL, F_EVP_CLEANUP,
  F_FILE_INIT, F_FILE_FREE, F_OPEN, F_SIZE, F_READ, F_CLOSE, F_SPLIT, F_LOCALE, F_SETVBUF, F_SIGNAL,
  F_WRITE, F_PYALLOC, F_PYMODULE, F_INTR, NFK
};
extern const char *const fk_name[NFK];
int fk_by_name(const std::string &s);

typedef std::vector<std::pair<std::string, std::string>> KV;
struct Op {
  int id = 0, th = 0;
  std::string verb;
  KV kv;
  std::string s(const char *k, const char *d = "") const;
  long i(const char *k, long d = 0) const;
  u64 u(const char *k, u64 d = 0) const;
  bool has(const char *k) const;
  Op &set(const char *k, const std::string &v);
  Op &set(const char *k, long v);
  Op &setu(const char *k, u64 v);
  void del(const char *k);
};
struct Fault { int op = 0; int kind = 0; int nth = 0; long param = 0; };
inline long memop_mode(Rng &r) { static const long v[] = {0, 1, 1, 2}; return v[r.below(4)]; } // done, not done, half done
struct Sw { int op = 0; long at = 0; int to = 0; int n = 1; };
struct Sig { int op = 0; long at = 0; };
struct Plan {
  KV head;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  std::vector<Sw> sws;
  std::vector<Sig> sigs;
  int has_variants = -1; // overrides the number of variants for this base plan
  std::string s(const char *k, const char *d = "") const;
  long i(const char *k, long d = 0) const;
  u64 u(const char *k, u64 d = 0) const;
  void set(const char *k, const std::string &v);
  void set(const char *k, long v);
  void setu(const char *k, u64 v);
  Op &add(int th, const char *verb);
  std::string text() const;
  bool parse(const std::string &t, std::string *why);
};

// ---- result of one run, in shared memory -------------------------------
struct Viol { char cls[40]; char sig[96]; char msg[480]; };
struct Point { u32 op; u32 kind; u32 count; };
struct StepPt { u64 pc; u32 op; u32 at; u32 cnt; };
enum { MAXVIOL = 8, MAXPOINT = 8192, MAXSTEPPT = 16384, NPROBE = 128, MAXTRACE = 6000 };
struct Shared {
  volatile u32 nviol, npoint, nstep, done;
  u64 hash, signature, steps, nops;
  u64 switches, switches_same_op, signals, bytes, reads, writes, checks;
  u32 fired[NFK], seen[NFK];
  u64 fatal_pc, fatal_addr;
  char fatal[40];
  u32 probe[NPROBE];
  u32 tracelen;
  Viol viol[MAXVIOL];
  char trace[MAXTRACE];
  Point point[MAXPOINT];
  StepPt step[MAXSTEPPT];
};
extern Shared *sh;

void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sigmix(u64 v); // adds to the signature that counts distinct runs
void viol(const char *cls, const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void fatal(const char *cls, const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void probe(int n);            // coverage of rare situations
const char *probe_name(int n);
void register_probe(int n, const char *name);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- threads of the simulated program ------------------------------------
enum { MAXT = 4 };
struct Th {
  int id = 0;
  const Op *op = nullptr;
  int opid = -1;
  bool active = false; // inside code under test
  int nohook = 0;
  long step = 0, next_trigger = -1;
  std::vector<std::pair<long, int>> triggers; // step -> sw index, or -1 - sig index
  size_t trig = 0;
  u32 kc[NFK] = {0};
  u32 fired_in_op = 0;          // faults fired in the current op
  u32 fired_kind[NFK] = {0};
  u64 vc[MAXT] = {0};
  char *lo = nullptr, *hi = nullptr;
};
extern Th *cur;
extern int nthreads;
const Fault *fault(FK kind);           // one fault point; logs and returns the fault if it fires
void step(const void *pc);             // one schedulable point
void begin_op(const Op &op);
void end_op();
struct Active { // while alive, hooks are live
  Active() { cur->active = true; }
  ~Active() { cur->active = false; }
};
struct Quiet { // hooks off (harness code called from code under test)
  bool a;
  Quiet() : a(cur->active) { cur->active = false; }
  ~Quiet() { cur->active = a; }
};
void run_ops(const Plan &p, void (*exec)(const Op &), int (*lock_of)(const Op &));
extern void (*deliver_signal)();
extern void (*on_switch)(int from, int to);
void slot_release_sync(int slot);
void slot_acquire_sync(int slot);
extern const Plan *plan;
void block_on(int (*holder)(const void *), const void *arg = nullptr); // parks the thread until holder(arg) is -1 or the thread itself
void spin_yield(); // lets another thread that can run go on
extern void (*on_access)(const void *p, size_t n, bool write, const void *pc);

// ---- tracked memory --------------------------------------------------------
struct Block { char *p; size_t n; bool freed; int op, alg; u64 pc; u32 serial; u8 kind; };
enum { BK_HEAP = 0, BK_ERR, BK_FILE, BK_SPLIT, BK_EVP, BK_PY };
void *trk_alloc(size_t n, const void *pc, int kind = BK_HEAP);
void trk_free(void *p, const void *pc);
Block *trk_find(const void *p); // block containing p
Block *trk_exact(const void *p);
size_t trk_live(int kind = -1, int op = -1); // live blocks (of a kind, allocated by an op)
std::vector<Block *> trk_live_list();
void trk_end_check();
void trk_access(const void *p, size_t n, bool write, const void *pc); // bounds check of one access
extern void (*on_free)(Block &b);
extern size_t trk_limit;
void trk_reset(u64 seed, const std::string &fill);
bool in_arena(const void *p);
u8 *arena_shadow(const void *p);

// The last thing libcerror was asked to print.
struct ErrLog { int fn; const void *error, *to; size_t size; int ret; };
extern ErrLog err_log;

// ---- guarded buffers --------------------------------------------------------
struct GBuf {
  u8 *p = nullptr;
  size_t n = 0;
  char *base = nullptr;
  size_t span = 0;
  bool pooled = false;
};
GBuf g_alloc(size_t n, bool at_end);
GBuf g_reuse(int which, size_t n, bool at_end); // the same memory each time, with other contents
void g_readonly(GBuf &b);
void g_writable(GBuf &b);
bool g_intact(GBuf &b); // slack around the buffer unchanged
void g_retire(GBuf &b); // any later access faults
void prefill_stack(u64 seed);

// ---- race detector and instrumentation (kind T) ---------------------------
extern bool race_on;
void race_access(const void *p, unsigned n, bool write, const void *pc);
void race_reset();
void set_race_sig(std::string (*f)()); // names the operations of a race
void hook(const void *p, size_t n, bool write, const void *pc); // one access by code under test

// ---- to be provided by the simulation linked in -----------------------------
struct Profile {
  std::vector<Point> points;
  std::vector<StepPt> steps;
};
void sim_warm();                                                            // before any fork
void sim_gen(const std::string &lane, Rng &r, Plan &p, u64 index);           // a base plan
void sim_vary(const std::string &lane, Rng &r, const Plan &base, const Profile &prof, Plan &out);
int sim_variants(const std::string &lane);                                   // variants per base plan
void sim_run(const Plan &p);                                                 // in the child
std::vector<std::string> sim_shrink_keys();                                  // numeric op arguments the minimiser may lower
extern const char *const sim_name;
extern const char *const build_cfg;
// Numbers the code under test compares something with, collected from its objects by the build.
extern const unsigned long code_consts[];
extern const int n_code_consts;
u64 code_number(Rng &r, u64 max, bool exact = false); // one of them or near one, 0: there is none
int worker_main(int argc, char **argv);
} // namespace sim
extern "C" void sim_sanitizer_poison(const void *p, size_t n);
extern "C" void sim_sanitizer_unpoison(const void *p, size_t n);
