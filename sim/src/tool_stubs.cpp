// Stand-ins for everything hmacsum calls: the simulated disk (libcfile), string
// splitting, locale, notifications, standard output, signals and process exit.
#include "tool_sim.h"
#include "hollow.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <unistd.h>
using namespace sim;
#define RA __builtin_return_address(0)
typedef intptr_t obj_t;
extern "C" {
void libcerror_error_set(intptr_t **error, int dom, int code, const char *fmt, ...);
extern int libcnotify_verbose;
int libcnotify_verbose = 0;
}
namespace sim {
World w;
void content(u64 off, u8 *p, size_t n) {
  size_t m = w.pat.size();
  if (evp_hollow) { // only what the sampled digest looks at
    u64 end = off + n, at = off;
    for (; at < end && at < 4096; at++) p[at - off] = w.pat[at % m];
    for (u64 q = (std::max<u64>(at, 1) + 1048572) / 1048573 * 1048573; q < end; q += 1048573) p[q - off] = w.pat[q % m];
    return;
  }
  while (n) {
    size_t o = off % m, k = std::min(n, m - o);
    memcpy(p, w.pat.data() + o, k);
    p += k; off += k; n -= k;
  }
}
struct FileObj { u64 magic; bool open; };
struct SplitObj { u64 magic; int n; char *buf; int *at; size_t *len; };
static const u64 FM = 0x66696c6521210001ull, SM = 0x73706c6974210001ull;
static FileObj *need_file(obj_t *f, const char *what) {
  Block *b = trk_exact(f);
  if (!b || b->kind != BK_FILE) fatal("bad-file", what, "%s on something that is not a file object", what);
  if (b->freed) fatal("use-after-free", what, "%s on a freed file object", what);
  return (FileObj *)f;
}
static SplitObj *need_split(obj_t *f, const char *what) {
  Block *b = trk_exact(f);
  if (!b || b->kind != BK_SPLIT) fatal("bad-split", what, "%s on something that is not a split string", what);
  if (b->freed) fatal("use-after-free", what, "%s on a freed split string", what);
  return (SplitObj *)f;
}
static int fail(intptr_t **e, const char *what) {
  libcerror_error_set(e, 'I', 1, "%s: failed.", what);
  return -1;
}
// ---- output streams ------------------------------------------------------------
static int stream_no(FILE *f) {
  if (f == stdout) return 1;
  if (f == stderr) return 2;
  fatal("bad-stream", "stream", "output to a stream that is neither stdout nor stderr");
}
// One write system call as stdio issues it; returns false when it failed.
static bool sink(int s, const char *p, size_t n) {
  if (s == 2) return true;
  sh->writes++;
  size_t take = n;
  bool ok = true;
  if (w.stdout_closed) { take = 0; ok = false; }
  const Fault *f = fault(F_WRITE);
  if (f && n) { take = std::min<size_t>(take, f->param > 0 ? (size_t)f->param : 0); if (take == n) take = n - 1; ok = false; }
  if (w.accepted.size() + take > w.outcap) { take = w.outcap > w.accepted.size() ? w.outcap - w.accepted.size() : 0; ok = false; ev("output full after %zu", w.accepted.size() + take); }
  w.accepted.append(p, take);
  if (!ok) { w.outfail = true; errno = ENOSPC; }
  return ok;
}
static bool flush_stream(int s) {
  if (w.buffered[s].empty()) return true;
  std::string b;
  b.swap(w.buffered[s]);
  bool ok = sink(s, b.data(), b.size());
  if (!ok && s == 1) w.errflag = true;
  return ok;
}
static bool emit(int s, const std::string &t) {
  if (s == 1) { w.attempted += t; ev("out %s", t.c_str()); }
  if (s == 2) return true;
  if (w.bufmode[s] == _IONBF) {
    bool ok = t.empty() || sink(s, t.data(), t.size());
    if (!ok) w.errflag = true;
    return ok;
  }
  w.buffered[s] += t;
  bool ok = true;
  if (w.bufmode[s] == _IOLBF && t.find('\n') != std::string::npos) ok = flush_stream(s);
  else if (w.buffered[s].size() >= 4096) ok = flush_stream(s);
  return ok;
}
void flush_at_exit() { flush_stream(1); }
// Formats and checks the strings that are printed.
static std::string format(const char *fmt, va_list ap, const void *pc) {
  va_list c;
  va_copy(c, ap);
  for (const char *p = fmt; *p; p++) {
    if (*p != '%') continue;
    p++;
    int l = 0;
    while (*p && strchr("-+ #0123456789.*'", *p)) { if (*p == '*') va_arg(c, int); p++; }
    while (*p && strchr("hljztL", *p)) { if (*p == 'l' || *p == 'j' || *p == 'z' || *p == 't') l = 1; p++; }
    if (!*p) break;
    if (*p == 's') {
      const char *s = va_arg(c, const char *);
      if (!s) continue;
      if (in_arena(s))
        for (const char *q = s;; q++) { trk_access(q, 1, false, pc); if (!*q) break; }
    } else if (*p == '%') ;
    else if (strchr("fFgGeEaA", *p)) va_arg(c, double);
    else if (l) va_arg(c, long);
    else if (*p == 'p' || *p == 'n') va_arg(c, void *);
    else va_arg(c, int);
  }
  va_end(c);
  char b[4096];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
[[noreturn]] static void leave(int how, int status) {
  w.ended = how;
  w.status = status;
  longjmp(w.top, 1);
}
void on_sigint() {
  sh->signals++;
  if (w.ignored) { ev("signal ignored"); return; }
  if (!w.handler) { ev("killed by the signal"); leave(2, SIGINT); }
  w.handled++;
  if (w.opened && w.delivered < w.size) w.handled_in_input++;
  ev("signal handled, %llu bytes read", (unsigned long long)w.delivered);
  w.handler(SIGINT);
}
} // namespace sim
extern "C" {
// ---- libcfile ---------------------------------------------------------------------
int libcfile_file_initialize(obj_t **file, intptr_t **error) {
  step(RA);
  if (!file || *file) return fail(error, "libcfile_file_initialize");
  if (fault(F_FILE_INIT)) return fail(error, "libcfile_file_initialize");
  FileObj *f;
  { Quiet q; f = (FileObj *)trk_alloc(sizeof(FileObj), RA, BK_FILE); }
  f->magic = FM;
  f->open = false;
  *file = (obj_t *)f;
  return 1;
}
int libcfile_file_free(obj_t **file, intptr_t **error) {
  step(RA);
  if (!file) return fail(error, "libcfile_file_free");
  if (!*file) return 1;
  need_file(*file, "libcfile_file_free");
  bool bad = fault(F_FILE_FREE);
  { Quiet q; trk_free(*file, RA); }
  *file = nullptr;
  return bad ? fail(error, "libcfile_file_free") : 1;
}
int libcfile_file_open(obj_t *file, const char *name, int flags, intptr_t **error) {
  step(RA);
  if (!file || !name) return fail(error, "libcfile_file_open");
  FileObj *f = need_file(file, "libcfile_file_open");
  if (fault(F_OPEN)) return fail(error, "libcfile_file_open");
  if (flags != 1) fatal("bad-file", "open-flags", "the input was opened with access flags %d, not for reading only", flags);
  if (w.name != name) fatal("bad-file", "open-name", "a file other than the source was opened");
  if (f->open) return fail(error, "libcfile_file_open");
  f->open = true;
  w.opens++;
  w.pos = 0;
  w.opened = true;
  return 1;
}
int libcfile_file_close(obj_t *file, intptr_t **error) {
  step(RA);
  if (!file) return fail(error, "libcfile_file_close");
  FileObj *f = need_file(file, "libcfile_file_close");
  if (!f->open) return 0;
  f->open = false;
  if (fault(F_CLOSE)) return fail(error, "libcfile_file_close");
  return 0;
}
int libcfile_file_is_open(obj_t *file, intptr_t **error) { step(RA); return file ? need_file(file, "libcfile_file_is_open")->open : fail(error, "libcfile_file_is_open"); }
int libcfile_file_exists(const char *, intptr_t **) { step(RA); return 1; }
int libcfile_file_get_size(obj_t *file, uint64_t *size, intptr_t **error) {
  step(RA);
  if (!file || !size) return fail(error, "libcfile_file_get_size");
  FileObj *f = need_file(file, "libcfile_file_get_size");
  if (!f->open || fault(F_SIZE)) return fail(error, "libcfile_file_get_size");
  *size = w.size;
  return 1;
}
int libcfile_file_get_offset(obj_t *file, off_t *o, intptr_t **error) {
  step(RA);
  if (!file || !o || !need_file(file, "libcfile_file_get_offset")->open) return fail(error, "libcfile_file_get_offset");
  *o = (off_t)w.pos;
  return 1;
}
off_t libcfile_file_seek_offset(obj_t *file, off_t o, int whence, intptr_t **error) {
  step(RA);
  if (!file || !need_file(file, "libcfile_file_seek_offset")->open) return fail(error, "libcfile_file_seek_offset");
  off_t n = whence == SEEK_SET ? o : whence == SEEK_CUR ? (off_t)w.pos + o : (off_t)w.actual + o;
  if (n < 0) return fail(error, "libcfile_file_seek_offset");
  w.pos = (u64)n;
  return n;
}
ssize_t libcfile_file_read_buffer(obj_t *file, uint8_t *buf, size_t n, intptr_t **error) {
  if (w.handled) {
    w.reads_after++;
    if (w.handled_in_input && w.reads_after > 1) fatal("late-stop", "read", "more than one further read was started after the interrupt had been handled");
  }
  if (!file || !buf || n > (size_t)SSIZE_MAX) { step(RA); return fail(error, "libcfile_file_read_buffer"); }
  FileObj *f = need_file(file, "libcfile_file_read_buffer");
  sh->reads++;
  w.reads++;
  if (n > w.reqmax) viol("read-too-large", "request", "a read of %zu bytes was requested with a process buffer of %llu bytes", n, (unsigned long long)w.reqmax);
  if (n) { Quiet q; trk_access(buf, n, true, RA); }
  if (!f->open) return fail(error, "libcfile_file_read_buffer");
  if (w.noprogress > 64) fatal("hang", "reads", "input is still being read after 64 reads in a row gave nothing");
  u64 left = w.pos < w.actual ? w.actual - w.pos : 0;
  size_t want = n < left ? n : (size_t)left, give = want;
  const Fault *ft = fault(F_READ);
  if (ft && ft->param == -2) w.dead = true;
  if (w.dead || (ft && ft->param < 0)) {
    w.noprogress++;
    step(RA);
    return fail(error, "libcfile_file_read_buffer");
  }
  if (ft) { give = std::min<size_t>(give, (size_t)ft->param); }
  else if (want > 1) switch (w.rmode) {
    case 1: give = 1; break;
    case 2: give = 1 + w.rrng.below(want); break;
    case 3: if (w.rrng.chance(1, 4)) give = 1 + w.rrng.below(want); break;
    case 4: give = std::min<u64>(want, w.rcap ? w.rcap : 1); break;
    case 5: give = w.rcap > 1 && w.pos % w.rcap + want > w.rcap ? (size_t)(w.rcap - w.pos % w.rcap) : want; break; // never across a boundary
    default: break;
    }
  if (!give) w.noprogress++; else w.noprogress = 0;
  content(w.pos, buf, give);
  w.pos += give;
  w.delivered += give;
  sh->bytes += give;
  if (give < want) probe(0);
  ev("read %zu of %zu", give, n);
  step(RA);
  return (ssize_t)give;
}
// ---- libcsplit -------------------------------------------------------------------------
int libcsplit_narrow_string_split(const char *s, size_t n, char d, obj_t **out, intptr_t **error) {
  step(RA);
  if (!s || !out || *out || !n) return fail(error, "libcsplit_narrow_string_split");
  if (fault(F_SPLIT)) return fail(error, "libcsplit_narrow_string_split");
  Quiet q;
  n = strnlen(s, n);
  int k = 1;
  for (size_t i = 0; i < n; i++) k += s[i] == d;
  SplitObj *o = (SplitObj *)trk_alloc(sizeof(SplitObj) + k * (sizeof(int) + sizeof(size_t)) + 16 + n + 1, RA, BK_SPLIT);
  o->magic = SM;
  o->n = k;
  o->len = (size_t *)(o + 1);
  o->at = (int *)(o->len + k);
  o->buf = (char *)(o->at + k);
  memcpy(o->buf, s, n);
  o->buf[n] = 0;
  int at = 0, j = 0;
  for (size_t i = 0; i <= n; i++)
    if (i == n || s[i] == d) { o->at[j] = at; o->len[j] = i - at + 1; o->buf[i] = 0; at = (int)i + 1; j++; }
  *out = (obj_t *)o;
  return 1;
}
int libcsplit_narrow_split_string_free(obj_t **s, intptr_t **error) {
  step(RA);
  if (!s) return fail(error, "libcsplit_narrow_split_string_free");
  if (!*s) return 1;
  need_split(*s, "libcsplit_narrow_split_string_free");
  { Quiet q; trk_free(*s, RA); }
  *s = nullptr;
  return 1;
}
int libcsplit_narrow_split_string_get_string(obj_t *s, char **str, size_t *n, intptr_t **error) {
  step(RA);
  if (!s || !str || !n) return fail(error, "libcsplit_narrow_split_string_get_string");
  SplitObj *o = need_split(s, "libcsplit_narrow_split_string_get_string");
  *str = o->buf;
  *n = strlen(o->buf) + 1;
  return 1;
}
int libcsplit_narrow_split_string_get_number_of_segments(obj_t *s, int *n, intptr_t **error) {
  step(RA);
  if (!s || !n) return fail(error, "libcsplit_narrow_split_string_get_number_of_segments");
  SplitObj *o = need_split(s, "libcsplit_narrow_split_string_get_number_of_segments");
  if (fault(F_SPLIT)) return fail(error, "libcsplit_narrow_split_string_get_number_of_segments");
  *n = o->n;
  return 1;
}
int libcsplit_narrow_split_string_get_segment_by_index(obj_t *s, int i, char **str, size_t *n, intptr_t **error) {
  step(RA);
  if (!s || !str || !n) return fail(error, "libcsplit_narrow_split_string_get_segment_by_index");
  SplitObj *o = need_split(s, "libcsplit_narrow_split_string_get_segment_by_index");
  if (i < 0 || i >= o->n || fault(F_SPLIT)) return fail(error, "libcsplit_narrow_split_string_get_segment_by_index");
  *str = o->len[i] > 1 ? o->buf + o->at[i] : nullptr; // an empty segment has no string
  *n = o->len[i];
  return 1;
}
// ---- libclocale, libcnotify ----------------------------------------------------------------
int libclocale_initialize(const char *, intptr_t **error) { step(RA); return fault(F_LOCALE) ? fail(error, "libclocale_initialize") : 1; }
int libclocale_codepage_get(int *c, intptr_t **) { *c = 0; return 1; }
int libclocale_locale_get_codepage(int *c, intptr_t **) { *c = 0; return 1; }
int libclocale_locale_get_decimal_point(int *c, intptr_t **error) {
  step(RA);
  if (!c || fault(F_LOCALE)) return fail(error, "libclocale_locale_get_decimal_point");
  *c = '.';
  return 1;
}
void libcnotify_verbose_set(int v) { step(RA); libcnotify_verbose = v; }
int libcnotify_stream_set(FILE *, intptr_t **) { step(RA); return 1; }
int libcnotify_printf(const char *fmt, ...) {
  step(RA);
  va_list ap;
  va_start(ap, fmt);
  Quiet q;
  std::string t = format(fmt, ap, RA);
  va_end(ap);
  return (int)t.size();
}
int libcnotify_print_data(const uint8_t *, size_t, uint8_t) { step(RA); return 1; }
int libcnotify_print_error_backtrace(intptr_t *error) {
  step(RA);
  Quiet q;
  if (error) {
    Block *k = trk_exact(error);
    if (!k || k->kind != BK_ERR) fatal("bad-error", "print", "backtrace of something that is not an error object");
    if (k->freed) fatal("use-after-free", "error-print", "backtrace of a freed error object");
  }
  return 1;
}
// ---- stdio --------------------------------------------------------------------------------
static int vout(FILE *f, const char *fmt, va_list ap, const void *pc) {
  step(pc);
  Quiet q;
  std::string t = format(fmt, ap, pc);
  bool ok = emit(stream_no(f), t);
  return ok ? (int)t.size() : -1;
}
int simw_vfprintf(FILE *f, const char *fmt, va_list ap) { return vout(f, fmt, ap, RA); }
int simw_vprintf(const char *fmt, va_list ap) { return vout(stdout, fmt, ap, RA); }
int simw_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vout(f, fmt, ap, RA); va_end(ap); return r; }
int simw_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vout(stdout, fmt, ap, RA); va_end(ap); return r; }
static size_t raw(FILE *f, const char *p, size_t n, const void *pc) {
  step(pc);
  Quiet q;
  if (in_arena(p)) trk_access(p, n, false, pc);
  size_t before = w.accepted.size();
  if (emit(stream_no(f), std::string(p, n))) return n;
  return w.accepted.size() - before;
}
size_t simw_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (!a || !b) return 0; size_t n = raw(f, (const char *)p, a * b, RA); return n / a; }
size_t simw_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *f) { if (!a || !b) return 0; return raw(f, (const char *)p, a * b, RA) / a; }
int simw_fputs(const char *s, FILE *f) { size_t n = strlen(s); return raw(f, s, n, RA) == n ? 1 : EOF; }
int simw_fputs_unlocked(const char *s, FILE *f) { return simw_fputs(s, f); }
int simw_puts(const char *s) { std::string t = std::string(s) + "\n"; return raw(stdout, t.data(), t.size(), RA) == t.size() ? 1 : EOF; }
int simw_fputc(int c, FILE *f) { char b = (char)c; return raw(f, &b, 1, RA) == 1 ? (unsigned char)b : EOF; }
int simw_putc(int c, FILE *f) { char b = (char)c; return raw(f, &b, 1, RA) == 1 ? (unsigned char)b : EOF; }
int simw_putchar(int c) { char b = (char)c; return raw(stdout, &b, 1, RA) == 1 ? (unsigned char)b : EOF; }
int simw_fflush(FILE *f) { step(RA); Quiet q; if (!f) { bool a = flush_stream(1); return a ? 0 : EOF; } int s = stream_no(f); return flush_stream(s) ? 0 : EOF; }
int simw_setvbuf(FILE *f, char *, int mode, size_t) {
  step(RA);
  int s = stream_no(f);
  if (fault(F_SETVBUF)) return -1;
  w.bufmode[s] = mode;
  return 0;
}
int simw_fclose(FILE *f) { step(RA); Quiet q; int s = stream_no(f); bool ok = flush_stream(s); if (s == 1) w.stdout_closed = true; return ok ? 0 : EOF; }
int simw_ferror(FILE *f) { step(RA); return stream_no(f) == 1 && w.errflag; }
void simw_clearerr(FILE *f) { step(RA); if (stream_no(f) == 1) w.errflag = false; }
int simw_fileno(FILE *f) { return stream_no(f); }
void simw_perror(const char *) { step(RA); }
ssize_t simw_write(int fd, const void *p, size_t n) {
  step(RA);
  Quiet q;
  if (fd == 2) return (ssize_t)n;
  if (fd != 1) { errno = EBADF; return -1; }
  size_t before = w.accepted.size();
  w.attempted.append((const char *)p, n);
  bool ok = sink(1, (const char *)p, n);
  size_t got = w.accepted.size() - before;
  return ok || got ? (ssize_t)got : -1;
}
ssize_t simw_read(int, void *, size_t) { step(RA); return 0; }
int simw_open(const char *, int, ...) { step(RA); errno = ENOENT; return -1; }
// ---- signals, process ------------------------------------------------------------------------
int simw_close(int fd) {
  step(RA);
  if (fd == 0 && w.stdin_open && !fault(F_INTR)) { w.stdin_open = false; return 0; }
  if (fd == 1) { w.stdout_closed = true; return 0; }
  errno = EBADF;
  return -1;
}
typedef void (*sigh_t)(int);
static sigh_t set_handler(int sig, sigh_t h) {
  if (sig != SIGINT) return SIG_DFL;
  if (fault(F_SIGNAL)) { errno = EINVAL; return SIG_ERR; }
  sigh_t old = w.ignored ? SIG_IGN : w.handler ? w.handler : SIG_DFL;
  w.ignored = h == SIG_IGN;
  w.handler = h == SIG_IGN || h == SIG_DFL ? nullptr : h;
  ev("handler %s", w.handler ? "set" : w.ignored ? "ignored" : "default");
  return old;
}
sigh_t simw_signal(int sig, sigh_t h) { step(RA); sigh_t r = set_handler(sig, h); step(RA); return r; }
sigh_t simw_bsd_signal(int sig, sigh_t h) { return simw_signal(sig, h); }
sigh_t simw_sysv_signal(int sig, sigh_t h) { return simw_signal(sig, h); }
sigh_t simw___sysv_signal(int sig, sigh_t h) { return simw_signal(sig, h); }
int simw_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  step(RA);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = w.ignored ? SIG_IGN : w.handler ? w.handler : SIG_DFL; }
  if (a && set_handler(sig, a->sa_handler) == SIG_ERR) return -1;
  return 0;
}
int simw_sigprocmask(int, const sigset_t *, sigset_t *) { step(RA); return 0; }
unsigned simw_alarm(unsigned) { return 0; }
void simw_exit(int c) { step(RA); leave(1, c); }
void simw__exit(int c) { step(RA); w.buffered[1].clear(); leave(1, c); }
int simw_raise(int sig) { step(RA); if (sig == SIGINT) on_sigint(); return 0; }
int simw_kill(int, int sig) { step(RA); if (sig == SIGINT) on_sigint(); return 0; }
}
