// Simulation of runs of the hmacsum program: its real main function and all of
// hmactools and libhmac, on a simulated disk, output, allocator and signals.
#include "tool_sim.h"
#include "hollow.h"
#include "ref.h"
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <openssl/evp.h>
extern "C" int simw_main(int argc, char *const argv[]);
extern "C" int opterr;
namespace sim {
size_t evp_live();
void evp_reset();
void evp_warm();
void on_sigint();
const char *const sim_name = "tool";
static const char *const label[] = {"MD5", "SHA1", "SHA224", "SHA256", "SHA512"};
struct Want {
  bool alg[ref::NALG] = {true, false, false, false, false};
  bool odd = false;     // the options are not plainly valid: failing is fine
  bool compute = false; // a source and no -h or -V
  bool info = false;    // -h or -V
  bool bad = false;     // an invalid option, a missing argument or no source
  std::string source;
};
static const bool permutes = strncmp(build_cfg, "fbn", 3) != 0; // the C library's getopt takes options after the source
static int name_alg(const std::string &s) {
  static const char *const base[] = {"md5", "sha1", "sha224", "sha256", "sha512"};
  std::string t;
  bool lower = false, upper = false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if ((c == '-' || c == '_') && i == 3 && (s[0] == 's' || s[0] == 'S')) continue;
    if (c >= 'a' && c <= 'z') lower = true;
    if (c >= 'A' && c <= 'Z') { upper = true; c += 32; }
    t += c;
  }
  if (lower && upper) return -1;
  for (int a = 0; a < ref::NALG; a++) if (t == base[a]) return a;
  return -1;
}
static bool plain_size(const std::string &s, u64 *out) { // a size the documentation plainly allows
  size_t i = 0;
  u64 v = 0;
  // too large a size is replaced by the default
  if (s == "8EiB" || s == "15EiB" || s == "9300000000000000000" || s == "8192PiB") { *out = 32768; return true; }
  while (i < s.size() && s[i] >= '0' && s[i] <= '9' && v < (evp_hollow ? 1ull << 40 : 1ull << 30)) v = v * 10 + (s[i++] - '0');
  if (!i) return false;
  u64 hundredths = 0;
  if (i < s.size() && s[i] == '.') {
    i++;
    for (int k = 0; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++, k++) if (k < 2) hundredths += (k ? 1 : 10) * (s[i] - '0');
  }
  if (i + 1 < s.size() && s[i] == ' ') i++;
  u64 unit = 1;
  bool f = false;
  if (i < s.size() && strchr("kK", s[i])) { unit = 1024; i++; f = true; }
  else if (i < s.size() && strchr("mM", s[i])) { unit = 1 << 20; i++; f = true; }
  if (i + 2 == s.size() && s[i] == 'i' && s[i + 1] == 'B') i += 2;
  else if (i + 1 == s.size() && s[i] == 'B') { if (f) unit = unit == 1024 ? 1000 : 1000000; i++; }
  *out = v * unit + hundredths * unit / 100;
  return i == s.size() && *out && (v || f) && *out <= (evp_hollow ? (u64)7 << 30 : (u64)64 << 20);
}
static std::string unesc(std::string s) {
  for (auto &c : s) if (c == '~') c = ' ';
  return s;
}
static std::string pct(const std::string &s) {
  std::string t;
  for (unsigned char c : s) if (c <= 32 || c >= 127 || strchr("|%=#", c)) t += strf("%%%02x", c); else t += (char)c;
  return t;
}
static std::vector<std::string> unpct_list(const std::string &s) {
  std::vector<std::string> v(1);
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '|') v.push_back("");
    else if (s[i] == '%') { v.back() += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else v.back() += s[i];
  return v;
}
static void want_types(Want &want, const std::string &s) {
  static const bool none[ref::NALG] = {true, false, false, false, false};
  memcpy(want.alg, none, sizeof none);
  for (size_t a = 0;;) {
    size_t b = s.find(',', a);
    int k = name_alg(s.substr(a, b == std::string::npos ? b : b - a));
    if (k < 0) want.odd = true; else want.alg[k] = true;
    if (b == std::string::npos) break;
    a = b + 1;
  }
}
// What a command line means, worked out independently.
static Want understand(const std::vector<std::string> &a) {
  Want want;
  std::string d, p;
  bool hd = false, hp = false;
  std::vector<std::string> rest;
  size_t i = 1;
  for (; i < a.size(); i++) {
    if (a[i] == "--") { i++; break; }
    if (a[i].size() < 2 || a[i][0] != '-') {
      if (!permutes) break;
      rest.push_back(a[i]);
      continue;
    }
    for (size_t k = 1; k < a[i].size(); k++) {
      char c = a[i][k];
      if (c == 'h' || c == 'V') { want.info = true; return want; }
      if (c == 'v') continue;
      if (c != 'd' && c != 'p') { want.bad = true; return want; }
      std::string v = a[i].substr(k + 1);
      if (v.empty()) {
        if (i + 1 >= a.size()) { want.bad = true; return want; }
        v = a[++i];
      }
      if (c == 'd') { d = v; hd = true; } else { p = v; hp = true; }
      break;
    }
  }
  for (; i < a.size(); i++) rest.push_back(a[i]);
  if (rest.empty()) { want.bad = true; return want; }
  want.source = rest[0];
  if (rest.size() > 1) want.odd = true; // may be refused
  want.compute = true;
  w.reqmax = 32768;
  if (hd) want_types(want, d);
  if (hp && !plain_size(p, &w.reqmax)) { want.odd = true; w.reqmax = ~0ull; }
  return want;
}
static std::string expect[ref::NALG];
static const std::string &expected(int a) {
  if (expect[a].empty()) {
    Quiet q;
    static std::vector<u8> chunk(1 << 20);
    if (evp_hollow) {
      Hollow h;
      h.init(a);
      static std::vector<u8> some(1 << 24);
      for (u64 o = 0; o < w.size;) { size_t n = (size_t)std::min<u64>(some.size(), w.size - o); content(o, some.data(), n); h.update(some.data(), n); o += n; }
      expect[a] = ref::hex(h.final());
    } else if (w.size > (u64)64 << 20) {
      const EVP_MD *mds[] = {EVP_md5(), EVP_sha1(), EVP_sha224(), EVP_sha256(), EVP_sha512()};
      EVP_MD_CTX *c = EVP_MD_CTX_new();
      EVP_DigestInit_ex(c, mds[a], nullptr);
      for (u64 o = 0; o < w.size;) { size_t n = (size_t)std::min<u64>(chunk.size(), w.size - o); content(o, chunk.data(), n); EVP_DigestUpdate(c, chunk.data(), n); o += n; }
      u8 out[64]; unsigned l;
      EVP_DigestFinal_ex(c, out, &l);
      EVP_MD_CTX_free(c);
      expect[a] = ref::hex(std::vector<u8>(out, out + l));
    } else {
      ref::Ctx c;
      c.init(a);
      for (u64 o = 0; o < w.size;) { size_t n = (size_t)std::min<u64>(chunk.size(), w.size - o); content(o, chunk.data(), n); c.update(chunk.data(), n); o += n; }
      expect[a] = ref::hex(c.final());
    }
  }
  return expect[a];
}
struct Lines { int right[ref::NALG] = {0}, wrong[ref::NALG] = {0}; std::string first; };
static Lines scan(const std::string &t) { // a line may follow the remains of one that was cut short
  Lines l;
  std::vector<std::pair<size_t, int>> at;
  for (int k = 0; k < ref::NALG; k++) {
    std::string pre = std::string(label[k]) + " hash";
    for (size_t p = t.find(pre); p != std::string::npos; p = t.find(pre, p + 1)) at.push_back({p, k});
  }
  std::sort(at.begin(), at.end());
  for (size_t i = 0; i < at.size(); i++) {
    size_t b = t.find('\n', at[i].first);
    if (b == std::string::npos || (i + 1 < at.size() && at[i + 1].first < b)) continue; // cut short
    std::string s = t.substr(at[i].first, b - at[i].first);
    int k = at[i].second;
    size_t p = s.find_last_of(" \t:");
    std::string v = p == std::string::npos ? s : s.substr(p + 1);
    sh->checks++;
    if (w.actual >= w.size && v == expected(k)) l.right[k]++;
    else { l.wrong[k]++; if (l.first.empty()) l.first = s; }
  }
  return l;
}
static void exec(const Op &op) {
  // ---- the world
  w.size = op.u("size");
  w.actual = op.has("actual") ? op.u("actual") : w.size;
  w.rmode = (int)op.i("rmode");
  w.rcap = op.u("rcap", 1);
  w.rrng = Rng(op.u("rs", 1));
  Rng d(op.u("ds", 1));
  w.pat.resize(65521);
  for (auto &c : w.pat) c = op.i("dm") == 1 ? 0 : op.i("dm") == 2 ? 0xff : (u8)d.next();
  if (op.has("outcap")) w.outcap = op.u("outcap");
  w.bufmode[1] = op.i("tty") ? _IOLBF : _IOFBF;
  w.bufmode[2] = _IONBF;
  w.stdin_open = !op.i("nostdin");
  if (op.i("hollow")) { evp_hollow = true; trk_limit = (size_t)7 << 30; } // the sizes are what is simulated
  // ---- the command line
  std::vector<std::string> args = {"hmacsum"};
  if (op.has("args")) {
    for (auto &x : unpct_list(op.s("args"))) args.push_back(x);
  } else {
    std::string x = op.s("x");
    if (op.i("v")) args.push_back("-v");
    if (op.has("d")) { args.push_back("-d"); args.push_back(unesc(op.s("d"))); }
    if (op.has("p")) { args.push_back("-p"); args.push_back(unesc(op.s("p"))); }
    if (x == "h") args.push_back("-h");
    if (x == "V") args.push_back("-V");
    if (x == "bad") args.push_back("-z");
    if (x != "nosource" && (permutes || x != "noarg")) args.push_back("input");
    if (x == "noarg") args.push_back("-d");
  }
  Want want = understand(args);
  w.name = want.source;
  std::vector<char *> argv;
  std::vector<GBuf> mem;
  for (auto &a : args) { // each string ends where its memory ends
    GBuf b = g_alloc(a.size() + 1, true);
    memcpy(b.p, a.c_str(), a.size() + 1);
    mem.push_back(b);
    argv.push_back((char *)b.p);
  }
  argv.push_back(nullptr);
  GBuf vec = g_alloc(argv.size() * sizeof(char *), true);
  memcpy(vec.p, argv.data(), argv.size() * sizeof(char *));
  opterr = 0;
  // ---- the run
  Th *t = cur;
  static volatile int rc;
  if (!setjmp(w.top)) {
    t->active = true;
    rc = simw_main((int)args.size(), (char **)vec.p);
    t->active = false;
    w.ended = 1;
    w.status = rc;
  } else t->active = false;
  t->nohook = 0;
  if (w.ended == 1) flush_at_exit();
  ev("end %d status %d", w.ended, w.status);
  // ---- judgement
  sigmix(hash_bytes(w.attempted.data(), w.attempted.size()));
  for (auto &a : args) sigmix(hash_bytes(a.data(), a.size()));
  sigmix(w.reads); sigmix(w.ended * 256 + w.status); sigmix(w.size); sigmix(w.delivered); sigmix(w.handled);
  sh->checks++;
  Lines att = scan(w.attempted);
  std::string what = op.has("actual") && w.actual < w.size ? "truncated" : t->fired_in_op ? "fault" : w.handled ? "interrupt" : "plain";
  for (int k = 0; k < ref::NALG; k++)
    if (att.wrong[k]) viol("wrong-line", what, "printed \"%.120s\" but the digest of the %llu bytes of input is %s", att.first.c_str(), (unsigned long long)w.size, w.actual < w.size ? "not known, the input was cut short" : expected(k).c_str());
  if (w.ended == 1 && w.status == 0 && want.compute) {
    Lines acc = scan(w.accepted);
    for (int k = 0; k < ref::NALG; k++) {
      if (want.alg[k] && acc.right[k] != 1)
        viol(w.outfail ? "success-lost-output" : "success-without-digest", what, "exit status 0, but standard output received %d right %s lines of 1 (%d wrong)", acc.right[k], label[k], acc.wrong[k]);
      if (!want.alg[k] && (acc.right[k] || acc.wrong[k])) viol("success-without-digest", "extra", "a %s line was printed that was not asked for", label[k]);
    }
    if (w.handled_in_input) viol("success-after-interrupt", "input", "exit status 0 although an interrupt was handled while the input was being processed");
    probe(1);
  }
  if (w.ended == 1 && w.status != 0 && want.compute && !want.odd && !t->fired_in_op && !w.outfail && !w.handled && w.actual >= w.size)
    viol("spurious-fail", "run", "exit status %d although nothing failed", w.status);
  int lines = 0;
  for (int k = 0; k < ref::NALG; k++) lines += att.right[k] + att.wrong[k];
  if (want.bad || want.info) {
    if (w.opens || w.reads) viol("bad-option-accepted", want.bad ? "input-bad" : "input-info", "the input was opened although the command line %s", want.bad ? "is invalid" : "asks for help or the version only");
    if (lines) viol("bad-option-accepted", want.bad ? "line-bad" : "line-info", "a digest line was printed although the command line %s", want.bad ? "is invalid" : "asks for help or the version only");
    probe(want.bad ? 6 : 7);
  }
  if (want.bad && w.ended == 1 && w.status == 0) viol("bad-option-accepted", "status", "exit status 0 although the command line is invalid");
  if (want.info && w.ended == 1 && !t->fired_in_op && !w.outfail && !w.handled) {
    if (w.status != 0) viol("info-fail", "status", "exit status %d for help or version", w.status);
    if (w.attempted.size() < 60) viol("info-fail", "text", "help or version printed no more than %zu bytes", w.attempted.size());
  }
  for (size_t k = 0; k < mem.size(); k++)
    if (memcmp(mem[k].p, args[k].c_str(), args[k].size() + 1)) viol("input-modified", "argv", "an argument string was changed");
  if (w.ended == 1 && w.status != 0 && w.handled_in_input) probe(2);
  if (w.ended == 2) probe(4);
  if (w.outfail) probe(5);
  if (w.ended == 1) {
    for (Block *b : trk_live_list()) {
      static const char *const kn[] = {"heap", "error", "file", "split", "evp", "py"};
      viol("leak", strf("%s/%s", kn[b->kind], what.c_str()), "a %zu-byte %s block (pc 0x%llx) was not released when hmacsum ended with status %d", b->n, kn[b->kind], (unsigned long long)b->pc, w.status);
    }
    if (evp_live()) viol("leak", "evp/" + what, "an EVP context was not released when hmacsum ended with status %d", w.status);
  }
  trk_end_check();
}
void sim_warm() {
  if (!ref::selftest()) { fprintf(stderr, "reference digests failed their self test\n"); _exit(3); }
  evp_warm();
  register_probe(0, "a short read");
  register_probe(1, "a successful run");
  register_probe(2, "an interrupt while reading input, ending in failure");
  register_probe(4, "killed by an interrupt outside the handler's reach");
  register_probe(5, "an output failure");
  register_probe(6, "an invalid command line");
  register_probe(7, "a request for help or the version");
  unsetenv("POSIXLY_CORRECT");
}
void sim_run(const Plan &p) {
  trk_limit = (size_t)256 << 20;
  trk_reset(p.u("seed"), p.s("fill", "random"));
  race_reset();
  evp_reset();
  deliver_signal = on_sigint;
  run_ops(p, exec, nullptr);
}
std::vector<std::string> sim_shrink_keys() { return {"size", "actual", "rmode", "rcap", "v", "dm", "tty", "ds", "rs", "nostdin"}; }
// ---- generation ---------------------------------------------------------------------
static const char *const names[ref::NALG][10] = {
    {"md5", "MD5", 0}, {"sha1", "SHA1", "sha-1", "sha_1", "SHA-1", "SHA_1", 0}, {"sha224", "SHA224", "sha-224", "sha_224", "SHA-224", "SHA_224", 0},
    {"sha256", "SHA256", "sha-256", "sha_256", "SHA-256", "SHA_256", 0}, {"sha512", "SHA512", "sha-512", "sha_512", "SHA-512", "SHA_512", 0}};
static const char *fills[] = {"random", "zero", "ff", "stale", "mixed", "recycle"};
static std::string near_name(Rng &r) {
  int a = (int)r.below(ref::NALG), c = 0;
  while (names[a][c]) c++;
  std::string n = names[a][r.below(c)];
  static const char x[] = "0123456789-_.adhmsASHMD";
  char y = x[r.below(sizeof x - 1)];
  size_t at = r.chance(1, 2) ? n.size() - 1 : (size_t)r.below(n.size());
  switch (r.below(6)) {
  case 0: n.insert(at, 1, y); break;
  case 1: n += y; break;
  case 2: n.erase(at, 1); break;
  default: n[at] = y;
  }
  return n;
}
static void gen_options(Rng &r, Op &o, unsigned odd) {
  if (r.chance(4, 5)) {
    std::string d;
    int n = r.chance(1, 15) ? (int)r.range(7, 40) : (int)r.range(1, 6);
    for (int k = 0; k < n; k++) {
      int a = (int)r.below(ref::NALG), c = 0;
      while (names[a][c]) c++;
      if (k) d += ",";
      d += names[a][r.below(c)];
    }
    if (odd && r.chance(1, odd)) { static const char *const x[] = {",", ",,md5", ",sha3", ",Sha1", "x", ",sha1~", ",sha-25"}; if (r.chance(1, 8)) d += (r.chance(1, 2) ? "," : "") + std::string(r.range(10, 3000), r.chance(1, 2) ? 's' : '1'); else d += x[r.below(7)]; }
    else if (odd && r.chance(1, odd)) { // names one character away from known ones
      int m = (int)r.range(1, 6);
      d.clear();
      for (int k = 0; k < m; k++) d += (k ? "," : "") + (r.chance(1, 5) ? std::string("sha1") : near_name(r));
    }
    o.set("d", d);
  }
  if (r.chance(1, 12)) o.set("v", 1);
  if (r.chance(1, 3)) o.set("tty", 1);
  if (r.chance(1, 10)) o.set("nostdin", 1);
}
// Lays out the options of an operation in one of many equivalent ways.
static void gen_args(Rng &r, Op &o, unsigned xden) {
  typedef std::vector<std::string> V;
  auto types = [&]() { std::string d; int n = (int)r.range(1, 3); for (int k = 0; k < n; k++) { int a = (int)r.below(ref::NALG), c = 0; while (names[a][c]) c++; d += (k ? "," : "") + std::string(names[a][r.below(c)]); } return r.chance(1, 6) ? std::string("nonsense") : r.chance(1, 8) ? std::string() : d; };
  std::vector<std::pair<char, std::string>> items;
  auto put = [&](char c, const std::string &v) { items.insert(items.begin() + r.below(items.size() + 1), {c, v}); };
  auto last = [&](char c, const std::string &v) { // after all others of its kind
    size_t at = 0;
    for (size_t k = 0; k < items.size(); k++) if (items[k].first == c) at = k + 1;
    items.insert(items.begin() + at + r.below(items.size() - at + 1), {c, v});
  };
  std::string x = o.s("x");
  if (x.empty() && r.chance(1, xden)) { static const char *const xs[] = {"h", "V", "bad", "bad", "nosource", "noarg"}; x = xs[r.below(6)]; }
  if (o.has("d") && r.chance(1, 16)) o.set("d", ""); // names nothing
  if (o.has("d")) { while (r.chance(1, 4)) put('d', types()); last('d', unesc(o.s("d"))); }
  if (o.has("p")) { while (r.chance(1, 4)) put('p', strf("%d", (int)r.below(5000))); last('p', unesc(o.s("p"))); }
  if (o.i("v") || r.chance(1, 3)) do put('v', ""); while (r.chance(1, 3));
  if (x == "h" || x == "V") put(x[0], "");
  if (x == "bad") { static const char bad[] = "zxDPsWat:?0,=;"; put(bad[r.below(sizeof bad - 1)], ""); }
  V args;
  std::vector<size_t> bounds; // where another argument may stand
  std::string group;
  for (size_t k = 0; k < items.size(); k++) {
    char c = items[k].first;
    if (group.empty()) { bounds.push_back(args.size()); group = "-"; }
    group += c;
    if (c == 'd' || c == 'p') {
      if (!items[k].second.empty() && r.chance(1, 2)) args.push_back(group + items[k].second);
      else { args.push_back(group); args.push_back(items[k].second); }
      group.clear();
    } else if (k + 1 == items.size() || r.chance(1, 2)) { args.push_back(group); group.clear(); }
  }
  static const char *const srcs[] = {"in%s%n%x put", "a", "\xc3\xa9\xff", "a|b=c#", ".", "-", ""};
  std::string src = "input";
  if (r.chance(1, 4)) { int k = (int)r.below(8); src = k == 7 ? std::string(r.range(200, 6000), 'n') : srcs[k]; }
  std::string more; // what follows the source is no other source
  if (r.chance(1, 12)) { static const char *const ms[] = {"more", "input2", "", "x", "sha1"}; more = ms[r.below(5)]; if (more == src) more = "other"; o.set("more", 1); }
  bool dd = r.chance(1, 6);
  if (dd && r.chance(1, 3)) src = "-" + src;
  if (x == "noarg") {
    if (permutes && r.chance(1, 2)) args.push_back(src);
    args.push_back(r.chance(1, 3) ? "-vd" : r.chance(1, 2) ? "-d" : "-p");
  } else if (x == "nosource") { if (dd) args.push_back("--"); }
  else if (dd) { args.push_back("--"); args.push_back(src); }
  else if (permutes && !bounds.empty() && r.chance(1, 4)) args.insert(args.begin() + bounds[r.below(bounds.size())], src);
  else args.push_back(src);
  if (o.has("more")) { if (!x.empty() && x != "bad") o.del("more"); else args.push_back(more); }
  if (args.empty()) { o.kv.erase(std::remove_if(o.kv.begin(), o.kv.end(), [](auto &q) { return q.first == "d" || q.first == "p" || q.first == "v"; }), o.kv.end()); o.set("x", "nosource"); return; }
  std::string e;
  for (size_t k = 0; k < args.size(); k++) e += (k ? "|" : "") + pct(args[k]);
  o.kv.erase(std::remove_if(o.kv.begin(), o.kv.end(), [](auto &q) { return q.first == "d" || q.first == "p" || q.first == "v" || q.first == "x"; }), o.kv.end());
  o.set("args", e);
}
void sim_gen(const std::string &lane, Rng &r, Plan &p, u64 index) {
  p.set("fill", fills[r.below(6)]);
  Op &o = p.add(0, "run");
  if (lane == "big") { // beyond 2^32 bytes
    p.set("cpulimit", 600);
    u64 sz = (1ull << 32) + r.below(1u << 20);
    if (index % 3 == 2) sz = (1ull << 29) + r.below(9999);
    o.setu("size", sz).set("p", "1MiB").setu("ds", r.below(100000));
    if (index % 3 == 1) o.set("rmode", 5).set("rcap", 700001);
    p.has_variants = 0;
    return;
  }
  if (lane == "sizes") { // every type alone and every size of a range
    static const int few[] = {1, 7, 16, 64, 100, 128};
    u64 k = index / ref::NALG;
    o.set("d", names[index % ref::NALG][0]).setu("size", k).setu("ds", r.below(1000000));
    if (r.chance(1, 3)) o.set("p", (long)few[r.below(6)]);
    if (r.chance(1, 4)) o.set("rmode", (long)r.range(1, 3)).setu("rs", r.below(1000));
    p.has_variants = 0;
    return;
  }
  if (lane == "manyreads") { // one run with very many reads
    p.set("cpulimit", 120);
    u64 buf = 1 + index % 3;
    o.setu("p", buf).setu("size", buf * (65520 + r.below(6000)) + r.below(2)).setu("ds", r.below(1000000));
    gen_options(r, o, 0);
    p.has_variants = 0;
    return;
  }
  if (lane == "bigbuf") { // process buffers and single reads beyond 2^31 and 2^32 bytes
    static const u64 M = 1ull << 31, F = 1ull << 32;
    p.set("cpulimit", 300);
    p.set("fill", "zero");
    u64 buf = r.chance(1, 4) ? M + r.below(3) : r.chance(1, 2) ? F + r.below(3) : F + r.below(F / 2);
    u64 size = r.chance(1, 3) ? buf + r.below(3) - 1 : r.chance(1, 2) ? buf + r.below(2 * buf) : F + r.below(F / 2);
    o.set("hollow", 1).setu("size", size).setu("p", buf).setu("ds", r.below(100000));
    gen_options(r, o, 0);
    if (r.chance(1, 3)) o.set("rmode", 2).setu("rs", r.below(1000));
    p.has_variants = 0;
    return;
  }
  if (lane == "names") { // lists of known and almost known type names
    std::string d;
    int n = r.chance(1, 2) ? 1 : (int)r.range(1, 4);
    for (int k = 0; k < n; k++) {
      int a = (int)r.below(ref::NALG), c = 0;
      while (names[a][c]) c++;
      d += (k ? "," : "") + (r.chance(1, 4) ? std::string(names[a][r.below(c)]) : near_name(r));
    }
    o.set("d", d).setu("size", r.below(150)).setu("ds", r.below(1000000));
    if (r.chance(1, 4)) gen_args(r, o, 100);
    return;
  }
  bool instrumented = strstr(build_cfg, "-T") != nullptr;
  gen_options(r, o, lane == "plain" ? 12 : 8);
  u64 buf = 32768, size;
  if (r.chance(3, 4)) {
    char b[40];
    switch (r.below(9)) {
    case 0: buf = 1; break;
    case 1: buf = 1 + r.below(10); break;
    case 2: buf = 63 + r.below(3); break;
    case 3: buf = 127 + r.below(3); break;
    case 4: buf = 1 + r.below(1000); break;
    case 5: buf = 512 * (1 + r.below(16)); break;
    case 6: buf = 4096; break;
    case 7: buf = 1 + r.below(70000); break;
    default: buf = (u64)(1 + r.below(3)) << 20;
    }
    if (u64 c = r.chance(1, 8) ? code_number(r, 1 << 20) : 0) buf = c;
    snprintf(b, sizeof b, "%llu", (unsigned long long)buf);
    if (buf % 1024 == 0 && r.chance(1, 2)) { static const char *const u[] = {"K", "k", "KiB", "kiB"}; snprintf(b, sizeof b, "%llu%s", (unsigned long long)buf / 1024, u[r.below(4)]); }
    if (buf % (1 << 20) == 0 && r.chance(1, 2)) snprintf(b, sizeof b, "%lluM%s", (unsigned long long)buf >> 20, r.chance(1, 2) ? "iB" : "");
    if (r.chance(1, 10)) { // digits after the point, a space, other units
      static const char *const u[] = {"K", "k", "KiB", "kB", "KB", "", "B", "iB", "M", "MiB", "mB"};
      int k = (int)r.below(11);
      std::string t = strf("%d", (int)r.below(k >= 8 ? 3 : 70));
      if (r.chance(2, 3)) { t += "."; for (int n = (int)r.below(4); n >= 0; n--) t += (char)('0' + r.below(10)); }
      if (r.chance(1, 4) && *u[k]) t += "~";
      t += u[k];
      u64 got;
      if (plain_size(unesc(t), &got)) { buf = got; snprintf(b, sizeof b, "%s", t.c_str()); }
    }
    if (r.chance(1, 30)) { static const char *const x[] = {"0", "1.5K", "99999999999999999999", "9EiB", "abc", "1~KiB", "5X", "16Y", "8191PiB", "8EiB", "15EiB", "9300000000000000000", "8192PiB"}; snprintf(b, sizeof b, "%s", x[r.below(13)]); }
    o.set("p", b);
  }
  switch (r.below(8)) {
  case 0: size = r.below(4); break;
  case 1: size = buf * r.range(1, 3) + r.below(3) - 1; break;
  case 2: size = r.below(300); break;
  case 3: size = r.below(3 * buf + 2); break;
  case 4: size = r.below(6000); break;
  case 5: size = buf; break;
  case 6: size = 64 * r.below(40) + r.below(3); break;
  default: size = r.below(200000);
  }
  u64 cap = instrumented ? 3000 : 300000;
  if (u64 c = r.chance(1, 8) ? code_number(r, instrumented ? 20000 : cap) : 0) size = cap = c;
  if (buf < 8) cap = std::min<u64>(cap, 3000);
  if (size > cap) size = 1 + size % cap;
  if (lane == "int" && size < 3 * buf && r.chance(1, 2)) { o.set("p", (long)std::max<u64>(1, size / (2 + r.below(6)))); }
  o.setu("size", size).setu("ds", r.below(1000000));
  int rm = (int)r.below(7);
  if (rm == 1 && size > 3000) rm = 2;
  if (rm == 4 || rm == 5) o.setu("rcap", std::max<u64>(1 + r.below(5000), size / 2000));
  if (u64 c = (rm == 4 || rm == 5) && r.chance(1, 6) ? code_number(r, size) : 0) o.setu("rcap", std::max<u64>(c, size / 2000));
  if (rm && rm < 6) o.set("rmode", rm).setu("rs", r.below(100000));
  if (r.chance(1, 10)) o.set("dm", (long)r.range(1, 2));
  if (lane == "fault" && r.chance(1, 5) && size) o.setu("actual", r.chance(1, 3) ? size - 1 : r.below(size));
  if (lane == "fault" && r.chance(1, 15)) { static const char *const x[] = {"h", "V", "bad", "nosource", "noarg"}; o.set("x", x[r.below(5)]); }
  if (lane == "args") gen_args(r, o, 3);
  else if (r.chance(1, 6)) gen_args(r, o, 40);
  if (lane == "out" && r.chance(1, 2)) { o.setu("outcap", r.below(700)); }
  if (lane == "int") { // what fails on the way, so that the failure paths get interrupted as well
    auto f = [&](int kind, int nth, long param = 0) { Fault x; x.op = o.id; x.kind = kind; x.nth = nth; x.param = param; p.faults.push_back(x); };
    switch (r.below(14)) {
    case 0: f(F_OPEN, 0); break;
    case 1: f(F_SIZE, 0); break;
    case 2: f(F_READ, (int)r.below(3), -1); break;
    case 3: f(F_READ, (int)r.below(4), 0); break;
    case 4: f(F_ALLOC, (int)r.below(14)); break;
    case 5: f(F_CLOSE, 0); break;
    case 6: f(F_SIGNAL, (int)r.below(2)); break;
    case 7: f(F_MEMOP, (int)r.below(30), memop_mode(r)); break;
    case 8: f(F_WRITE, (int)r.below(4)); break;
    case 9: f(F_INTR, 0); break;
    case 10: f(F_FILE_FREE, 0); break;
    default: break;
    }
    if (r.chance(1, 12) && size) o.setu("actual", r.below(size));
  }
}
int sim_variants(const std::string &lane) {
  if (lane == "fault") return 12;
  if (lane == "out") return 4;
  if (lane == "int") return 24;
  return 0;
}
static void add_fault(Rng &r, const Profile &prof, Plan &p) {
  std::vector<const Point *> pts;
  for (auto &pt : prof.points) if (pt.kind != F_INTR && (!(pt.kind == F_LOCALE || pt.kind == F_SETVBUF || pt.kind == F_SIGNAL || pt.kind == F_FILE_INIT) || r.chance(1, 4))) pts.push_back(&pt);
  if (pts.empty()) return;
  const Point *pt = pts[r.below(pts.size())];
  Fault f;
  f.op = pt->op;
  f.kind = (int)pt->kind;
  f.nth = (int)r.below(pt->count);
  if (f.kind == F_READ) { static const long v[] = {-1, -1, -2, 0, 1, 7, 100}; f.param = v[r.below(7)]; }
  if (f.kind == F_WRITE) f.param = (long)r.below(90);
  if (f.kind == F_MEMOP) f.param = memop_mode(r);
  p.faults.push_back(f);
  if (f.kind != F_ERROBJ && r.chance(1, 8)) { Fault e; e.op = f.op; e.kind = F_ERROBJ; e.nth = (int)r.below(3); p.faults.push_back(e); }
}
void sim_vary(const std::string &lane, Rng &r, const Plan &base, const Profile &prof, Plan &out) {
  out = base;
  if (lane == "fault") { int n = r.chance(2, 3) ? 1 : (int)r.range(2, 3); for (int k = 0; k < n; k++) add_fault(r, prof, out); }
  if (lane == "out") {
    for (auto &pt : prof.points) if (pt.kind == F_WRITE) {
      int n = (int)r.range(1, 2);
      for (int k = 0; k < n; k++) { Fault f; f.op = pt.op; f.kind = F_WRITE; f.nth = (int)r.below(pt.count); f.param = (long)r.below(110); out.faults.push_back(f); }
      break;
    }
    if (r.chance(1, 3)) add_fault(r, prof, out);
  }
  if (lane == "int" && !prof.steps.empty()) {
    std::vector<u64> pcs;
    for (auto &s : prof.steps) pcs.push_back(s.pc);
    std::sort(pcs.begin(), pcs.end());
    pcs.erase(std::unique(pcs.begin(), pcs.end()), pcs.end());
    int n = r.chance(3, 4) ? 1 : 2;
    for (int k = 0; k < n; k++) {
      u64 pc = pcs[r.below(pcs.size())];
      const StepPt *sp = nullptr;
      for (auto &s : prof.steps) if (s.pc == pc) sp = &s;
      Sig g;
      g.op = (int)sp->op;
      g.at = (long)sp->at;
      switch (r.below(5)) {
      case 0: g.at = 1 + (long)r.below(sp->at + 3); break;
      case 1: g.at += (long)r.below(6); break;
      default: break;
      }
      out.sigs.push_back(g);
    }
    if (r.chance(1, 6)) add_fault(r, prof, out);
    if (r.chance(1, 8)) { Fault e; e.op = base.ops[0].id; e.kind = F_INTR; out.faults.push_back(e); }
  }
}
} // namespace sim
