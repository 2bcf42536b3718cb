// Worker: generates plans from a seed, runs each in a forked child, collects
// the results, reproduces and minimises violations.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:symbolize=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=1:allocator_may_return_null=1:use_sigaltstack=0:print_legend=0:log_path=stderr";
}
namespace sim {
static int errfd = -1;
static bool verbose = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static char altstack[65536];
static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGVTALRM || sig == SIGALRM) {
    fatal("hang", "cpu-time", "the operation did not finish (op %d %s)", cur->opid, cur->op ? cur->op->verb.c_str() : "");
  }
  u64 pc = (u64)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], a = (u64)si->si_addr;
  const char *cls = "crash:signal", *what = "memory";
  bool wr = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2;
  if (sig == SIGSEGV || sig == SIGBUS) {
    if (a >= 0x210000000000ull && a < 0x220000000000ull) { cls = wr ? "oob-write" : "oob-read"; what = "guarded-buffer"; }
    else if (in_arena(si->si_addr)) { cls = wr ? "oob-write" : "oob-read"; what = "arena"; }
    else { cls = "crash:segv"; what = a < 65536 ? "null-pointer" : "wild-pointer"; }
  } else if (sig == SIGABRT) { cls = "crash:abort"; what = "abort"; }
  else if (sig == SIGFPE) { cls = "crash:fpe"; what = "fpe"; }
  else if (sig == SIGILL) { cls = "crash:ill"; what = "ill"; }
  const char *where = !cur->active ? " outside the code under test" : "";
  sh->fatal_pc = pc;
  fatal(cls, cur->op ? cur->op->verb : "end", "signal %d (%s%s)%s at pc 0x%llx in op %d", sig, what, wr ? ", write" : "", where, (unsigned long long)pc, cur->opid);
}
struct RunOut {
  std::vector<Viol> viols;
  u64 hash = 0;
  bool ok = false; // child ended normally
  std::string errtext;
};
static RunOut exec_plan(const Plan &p, bool trace = false) {
  RunOut out;
  memset((void *)sh, 0, offsetof(Shared, viol));
  sh->hash = 1469598103934665603ull;
  sh->signature = hash_bytes(build_cfg, strlen(build_cfg));
  sh->trace[0] = 0;
  fflush(stdout);
  if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
  pid_t pid = fork();
  if (pid < 0) { out.errtext = "fork failed"; return out; }
  if (pid == 0) {
    if (errfd >= 0) { dup2(errfd, 2); dup2(errfd, 1); }
    close(0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM, SIGALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = p.i("cpulimit", 20);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    alarm((unsigned)p.i("cpulimit", 20) * 8 + 60);
    plan = &p;
    sim_run(p);
    sh->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  out.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done;
  if (!out.ok && !sh->nviol) {
    std::string err;
    if (errfd >= 0) {
      char b[8192];
      ssize_t n = pread(errfd, b, sizeof b - 1, 0);
      if (n > 0) err.assign(b, n);
    }
    Viol v;
    memset(&v, 0, sizeof v);
    size_t a = err.find("ERROR: AddressSanitizer: ");
    if (a != std::string::npos) {
      std::string kind = err.substr(a + 25);
      kind = kind.substr(0, kind.find_first_of(" \n:"));
      std::string cls = "crash:asan-" + kind;
      if (kind == "use-after-poison" || kind == "heap-buffer-overflow" || kind == "stack-buffer-overflow" || kind == "global-buffer-overflow" || kind == "stack-buffer-underflow" || kind == "dynamic-stack-buffer-overflow" || kind == "unknown-crash" || kind == "negative-size-param" || kind == "memcpy-param-overlap") {
        bool w = err.find("\nWRITE of size") != std::string::npos;
        cls = w ? "oob-write" : "oob-read";
      } else if (kind == "stack-use-after-return" || kind == "stack-use-after-scope" || kind == "heap-use-after-free") cls = "use-after-free";
      snprintf(v.cls, sizeof v.cls, "%s", cls.c_str());
      snprintf(v.sig, sizeof v.sig, "asan-%s", kind.c_str());
      size_t f = err.find("#0 ");
      std::string fr = f == std::string::npos ? "" : err.substr(f, err.find('\n', f) - f);
      size_t f2 = err.find("#1 ");
      if (f2 != std::string::npos) fr += " " + err.substr(f2, err.find('\n', f2) - f2);
      snprintf(v.msg, sizeof v.msg, "AddressSanitizer: %s %s", kind.c_str(), fr.substr(0, 300).c_str());
    } else if (WIFSIGNALED(st)) {
      snprintf(v.cls, sizeof v.cls, "crash:signal-%d", WTERMSIG(st));
      snprintf(v.sig, sizeof v.sig, "signal");
      snprintf(v.msg, sizeof v.msg, "child ended by signal %d: %.200s", WTERMSIG(st), err.c_str());
    } else {
      snprintf(v.cls, sizeof v.cls, "crash:exit");
      snprintf(v.sig, sizeof v.sig, "exit-%d", WEXITSTATUS(st));
      snprintf(v.msg, sizeof v.msg, "child ended with status %d: %.200s", WEXITSTATUS(st), err.c_str());
    }
    out.viols.push_back(v);
    sh->hash = hash_bytes(v.cls, strlen(v.cls), sh->hash);
  }
  for (u32 i = 0; i < sh->nviol && i < MAXVIOL; i++) out.viols.push_back(sh->viol[i]);
  out.hash = sh->hash;
  if (trace) {
    out.errtext = std::string(sh->trace, sh->tracelen);
    if (errfd >= 0) {
      char b[4096];
      ssize_t n = pread(errfd, b, sizeof b - 1, 0);
      if (n > 0) out.errtext += "--- output of the simulated process ---\n" + std::string(b, n);
    }
  }
  return out;
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> v;
  size_t a = 0;
  while (a <= s.size()) {
    size_t b = s.find(c, a);
    if (b == std::string::npos) b = s.size();
    if (b > a) v.push_back(s.substr(a, b - a));
    a = b + 1;
  }
  return v;
}
static bool glob(const std::string &pat, const std::string &s) {
  if (!pat.empty() && pat.back() == '*') return s.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0;
  return pat == s;
}
static std::vector<std::string> classes, known;
static bool wanted(const Viol &v) {
  if (classes.empty()) return true;
  for (auto &c : classes) if (glob(c, v.cls)) return true;
  return false;
}
static bool is_known(const Viol &v) {
  std::string k = std::string(v.cls) + "/" + v.sig;
  for (auto &c : known) if (glob(c, k)) return true;
  return false;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
static std::string slurp(const std::string &f) {
  std::string s;
  FILE *h = fopen(f.c_str(), "r");
  if (!h) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h);
  return s;
}
static void spew(const std::string &f, const std::string &s) {
  FILE *h = fopen(f.c_str(), "w");
  if (!h) return;
  fwrite(s.data(), 1, s.size(), h);
  fclose(h);
}
// ---- minimisation --------------------------------------------------------------
static bool same(const RunOut &r, const std::string &cls, const std::string &sig, bool anysig) {
  for (auto &v : r.viols) if (cls == v.cls && (anysig || sig == v.sig)) return true;
  return false;
}
static Plan minimise(Plan p, const std::string &cls, const std::string &sig, double limit) {
  double t0 = now();
  long tries = 0;
  auto test = [&](const Plan &q) { tries++; return same(exec_plan(q), cls, sig, false); };
  auto left = [&] { return now() - t0 < limit; };
  bool again = true;
  while (again && left()) {
    again = false;
    // remove items: faults, switches, signals, operations
    for (int what = 0; what < 4 && left(); what++) {
      auto count = [&](const Plan &q) { return what == 0 ? q.faults.size() : what == 1 ? q.sws.size() : what == 2 ? q.sigs.size() : q.ops.size(); };
      size_t n = count(p);
      for (size_t chunk = n; chunk >= 1 && left(); chunk = chunk / 2) {
        for (size_t at = 0; at < count(p) && left();) {
          Plan q = p;
          size_t e = std::min(at + chunk, count(p));
          if (what == 0) q.faults.erase(q.faults.begin() + at, q.faults.begin() + e);
          if (what == 1) q.sws.erase(q.sws.begin() + at, q.sws.begin() + e);
          if (what == 2) q.sigs.erase(q.sigs.begin() + at, q.sigs.begin() + e);
          if (what == 3) q.ops.erase(q.ops.begin() + at, q.ops.begin() + e);
          if (!(what == 3 && q.ops.empty()) && test(q)) { p = q; again = true; }
          else at = e;
        }
        if (chunk == 1) break;
      }
    }
    auto keys = sim_shrink_keys();
    for (size_t i = 0; i < p.ops.size() && left(); i++)
      for (auto &k : keys) {
        if (!p.ops[i].has(k.c_str())) continue;
        long v = p.ops[i].i(k.c_str());
        for (long c : {0l, 1l, v / 2, v - v / 4, v - 1}) {
          if (c >= v || c < 0 || !left()) continue;
          Plan q = p;
          q.ops[i].set(k.c_str(), c);
          if (test(q)) { p = q; again = true; break; }
        }
      }
  }
  if (verbose) fprintf(stderr, "minimise: %ld runs, %.1f s\n", tries, now() - t0);
  return p;
}
// ---- main ----------------------------------------------------------------------
int worker_main(int argc, char **argv) {
  if (argc < 2) return 2;
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::map<std::string, std::string> o;
  std::string cmd = argv[1], file;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0 && i + 1 < argc) o[a.substr(2)] = argv[++i];
    else file = a;
  }
  verbose = o.count("verbose");
  if (!o["classes"].empty()) classes = split(o["classes"], ',');
  if (!o["known"].empty()) known = split(o["known"], ',');
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  errfd = memfd_create("err", MFD_CLOEXEC);
  sim_warm();
  if (cmd == "replay") {
    Plan p;
    std::string why;
    if (!p.parse(slurp(file), &why)) { printf("cannot parse %s: %s\n", file.c_str(), why.c_str()); return 2; }
    RunOut r = exec_plan(p, true);
    if (verbose) printf("%s", r.errtext.c_str());
    std::string vs;
    for (auto &v : r.viols) vs += std::string(vs.empty() ? "" : ",") + "{\"class\":" + jstr(v.cls) + ",\"sig\":" + jstr(v.sig) + ",\"msg\":" + jstr(v.msg) + "}";
    printf("{\"hash\":\"%016llx\",\"violations\":[%s]}\n", (unsigned long long)r.hash, vs.c_str());
    return 0;
  }
  if (cmd == "minimise") {
    Plan p;
    std::string why;
    if (!p.parse(slurp(file), &why)) { printf("cannot parse: %s\n", why.c_str()); return 2; }
    std::string cls = o["class"], sig = o["sig"];
    if (!same(exec_plan(p), cls, sig, false)) { printf("not reproduced\n"); return 3; }
    Plan q = minimise(p, cls, sig, o.count("limit") ? atof(o["limit"].c_str()) : 40);
    spew(o["out"], q.text());
    return 0;
  }
  if (cmd == "gen") {
    Rng r(mix(strtoull(o["seed"].c_str(), 0, 0), strtoull(o["first"].c_str(), 0, 0)));
    Plan p;
    sim_gen(o["lane"], r, p, strtoull(o["first"].c_str(), 0, 0));
    printf("%s", p.text().c_str());
    return 0;
  }
  if (cmd != "run") return 2;
  u64 seed = strtoull(o["seed"].c_str(), 0, 0), first = strtoull(o["first"].c_str(), 0, 0), count = strtoull(o["count"].c_str(), 0, 0);
  u64 stride = o.count("stride") ? strtoull(o["stride"].c_str(), 0, 0) : 1;
  double budget = o.count("budget") ? atof(o["budget"].c_str()) : 1e9;
  int maxviol = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 1;
  std::string lane = o["lane"], outdir = o["out"];
  FILE *hashes = o.count("hashes") ? fopen(o["hashes"].c_str(), "w") : nullptr;
  double t0 = now();
  u64 runs = 0, bases = 0, steps = 0, nops = 0, switches = 0, sw2 = 0, sigs = 0, bytes = 0, reads = 0, writes = 0, checks = 0, nontrivial = 0;
  u64 fired[NFK] = {0}, seen[NFK] = {0}, faulty = 0;
  u64 probes_[NPROBE] = {0};
  std::set<u64> sigset;
  std::map<std::string, u64> knownhits, other;
  std::vector<std::string> found;
  std::vector<std::string> samples;
  bool timeout = false;
  auto account = [&](const Plan &p, const RunOut &r) {
    runs++;
    steps += sh->steps; nops += sh->nops; switches += sh->switches; sw2 += sh->switches_same_op; sigs += sh->signals;
    bytes += sh->bytes; reads += sh->reads; writes += sh->writes;
    bool any = false;
    for (int k = 0; k < NFK; k++) { fired[k] += sh->fired[k]; seen[k] += sh->seen[k]; any |= sh->fired[k] != 0; }
    faulty += any;
    for (int k = 0; k < NPROBE; k++) probes_[k] += sh->probe[k] ? 1 : 0;
    checks += sh->checks;
    if (any || sh->switches || sh->signals || sh->checks >= 2) { nontrivial++; sigset.insert(sh->signature); }
    if (hashes) fprintf(hashes, "%016llx\n", (unsigned long long)r.hash);
    if (samples.size() < 2 && (p.faults.size() || p.sws.size() || p.sigs.size() || runs > 3)) samples.push_back(p.text());
    for (auto &v : r.viols) {
      std::string key = std::string(v.cls) + "/" + v.sig;
      if (!wanted(v)) { if (!other[key]++) spew(outdir + "/" + strf("other-%d-%zu.plan", (int)getpid(), other.size()), p.text() + "# " + key + " " + v.msg + "\n"); continue; }
      if (is_known(v)) { knownhits[key]++; continue; }
      std::string f = outdir + "/" + strf("viol-%d-%zu.plan", (int)getpid(), found.size());
      Plan q = p;
      q.set("profile", 0l);
      spew(f, q.text());
      found.push_back("{\"class\":" + jstr(v.cls) + ",\"sig\":" + jstr(v.sig) + ",\"msg\":" + jstr(v.msg) + ",\"plan\":" + jstr(f) + strf(",\"hash\":\"%016llx\"}", (unsigned long long)r.hash));
      break;
    }
  };
  for (u64 i = 0; i < count && (int)found.size() < maxviol; i++) {
    if (now() - t0 > budget) { timeout = true; break; }
    u64 idx = first + i * stride;
    Rng r(mix(seed, idx));
    Plan p;
    p.set("sim", sim_name);
    p.set("build", build_cfg);
    p.set("lane", lane);
    p.setu("seed", r.next() >> 1);
    p.setu("index", idx);
    sim_gen(lane, r, p, idx);
    int nv = sim_variants(lane);
    if (p.has_variants >= 0) nv = p.has_variants;
    Plan base = p;
    if (nv > 0) base.set("profile", 1);
    RunOut out = exec_plan(base);
    bases++;
    Profile prof;
    for (u32 k = 0; k < sh->npoint && k < MAXPOINT; k++) prof.points.push_back(sh->point[k]);
    for (u32 k = 0; k < sh->nstep && k < MAXSTEPPT; k++) prof.steps.push_back(sh->step[k]);
    account(p, out);
    for (int v = 0; v < nv && (int)found.size() < maxviol && now() - t0 <= budget; v++) {
      Plan q = p;
      sim_vary(lane, r, p, prof, q);
      q.set("variant", (long)v);
      account(q, exec_plan(q));
    }
  }
  if (hashes) fclose(hashes);
  if (o.count("sigs")) {
    FILE *h = fopen(o["sigs"].c_str(), "w");
    if (h) { for (u64 s : sigset) fwrite(&s, 8, 1, h); fclose(h); }
  }
  std::string j = strf("{\"runs\":%llu,\"bases\":%llu,\"steps\":%llu,\"ops\":%llu,\"switches\":%llu,\"switches_into_running_op\":%llu,\"signals\":%llu,\"bytes\":%llu,\"reads\":%llu,\"writes\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"faulty_runs\":%llu,\"distinct\":%zu,\"wall\":%.3f,\"timeout\":%s",
                       (unsigned long long)runs, (unsigned long long)bases, (unsigned long long)steps, (unsigned long long)nops, (unsigned long long)switches, (unsigned long long)sw2, (unsigned long long)sigs, (unsigned long long)bytes,
                       (unsigned long long)reads, (unsigned long long)writes, (unsigned long long)checks, (unsigned long long)nontrivial, (unsigned long long)faulty, sigset.size(), now() - t0, timeout ? "true" : "false");
  j += ",\"fired\":{";
  bool c = false;
  for (int k = 0; k < NFK; k++) if (seen[k]) { j += strf("%s\"%s\":[%llu,%llu]", c ? "," : "", fk_name[k], (unsigned long long)fired[k], (unsigned long long)seen[k]); c = true; }
  j += "},\"probes\":{";
  c = false;
  for (int k = 0; k < NPROBE; k++) if (probe_name(k)) { j += strf("%s%s:%llu", c ? "," : "", jstr(probe_name(k)).c_str(), (unsigned long long)probes_[k]); c = true; }
  j += "},\"known\":{";
  c = false;
  for (auto &e : knownhits) { j += strf("%s%s:%llu", c ? "," : "", jstr(e.first).c_str(), (unsigned long long)e.second); c = true; }
  j += "},\"other\":{";
  c = false;
  for (auto &e : other) { j += strf("%s%s:%llu", c ? "," : "", jstr(e.first).c_str(), (unsigned long long)e.second); c = true; }
  j += "},\"found\":[";
  for (size_t k = 0; k < found.size(); k++) j += (k ? "," : "") + found[k];
  j += "],\"samples\":[";
  for (size_t k = 0; k < samples.size(); k++) j += (k ? "," : "") + jstr(samples[k]);
  j += "]}";
  printf("%s\n", j.c_str());
  fflush(stdout);
  return 0;
}
} // namespace sim
int main(int argc, char **argv) { return sim::worker_main(argc, argv); }
