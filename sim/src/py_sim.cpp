// Simulation of Python programs using the pyhmac module: a real CPython 3.12
// interpreter runs the real module; the interpreter lock, the allocators of the
// operations under test, the crypto library and libcerror are the seams.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "core.h"
#include "ref.h"
#include "hollow.h"
#include <algorithm>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;
#define RA __builtin_return_address(0)
extern "C" PyObject *PyInit_pyhmac(void);
#define CNEW(a) extern "C" __attribute__((weak)) PyObject *pyhmac_##a##_context_new(void);
CNEW(md5) CNEW(sha1) CNEW(sha224) CNEW(sha256) CNEW(sha512)
static PyObject *(*const cnew[])(void) = {pyhmac_md5_context_new, pyhmac_sha1_context_new, pyhmac_sha224_context_new, pyhmac_sha256_context_new, pyhmac_sha512_context_new};
namespace sim {
size_t evp_live();
void evp_reset();
void evp_warm();
const char *const sim_name = "py";
enum { NSLOT = 12, GILSLOT = 4000 };
enum SlotState { EMPTY, RAW, LIVE, DONE, POISON };
struct Slot { SlotState st = EMPTY; int alg = 0; PyObject *o = nullptr; ref::Ctx r; u64 chunks = 0; };
static Slot slots[NSLOT];
static PyObject *module = nullptr, *evil, *evilrepr, *evilsur, *fakebytes, *subbytes, *reenter, *rerepr, *gc_collect;
static const int GIL_FREE = -1;
static int gil_owner = 0;             // simulated thread that holds the interpreter lock
static int gil_who(const void *) { return gil_owner; }
static bool track_quiet = false;      // inputs made by the harness go to tracked memory
static bool sticky[MAXT];             // memory has run out for the rest of the operation
static long none_net = 0;             // references to None the module took and did not give back
static long none_op[MAXT];
static bool in_reent[MAXT];
static u64 unraisable = 0;
static PyThreadState *main_ts;
static thread_local PyThreadState *my_ts = nullptr;
static int saved_depth[MAXT];
static PyThreadState *saved_ts[MAXT];
static std::vector<PyGILState_STATE> ensures;

// ---- the interpreter lock ------------------------------------------------------------
static void gil_take(PyThreadState *ts) {
  block_on(gil_who);
  if (gil_owner != GIL_FREE) fatal("gil", "deadlock", "a thread waits for the interpreter lock that it holds itself");
  gil_owner = cur->id;
  slot_acquire_sync(GILSLOT);
  PyEval_RestoreThread(ts);
}
static PyThreadState *gil_give() {
  PyThreadState *ts = PyEval_SaveThread();
  slot_release_sync(GILSLOT);
  gil_owner = GIL_FREE;
  return ts;
}
static void need_gil(const char *what) {
  if (gil_owner != cur->id) fatal("gil", what, "%s was called by a thread that does not hold the interpreter lock", what);
}
extern "C" PyThreadState *simw_PyEval_SaveThread(void) {
  need_gil("PyEval_SaveThread");
  step(RA);
  Th *t = cur;
  PyThreadState *ts;
  { Quiet q; ts = gil_give(); }
  saved_depth[t->id]++;
  saved_ts[t->id] = ts;
  step(RA);
  return ts;
}
extern "C" void simw_PyEval_RestoreThread(PyThreadState *ts) {
  step(RA);
  Th *t = cur;
  if (gil_owner == t->id) fatal("gil", "PyEval_RestoreThread", "the interpreter lock was taken by the thread that already holds it");
  if (saved_depth[t->id] != 1 || ts != saved_ts[t->id]) fatal("gil", "PyEval_RestoreThread", "a thread state was restored that this thread did not save");
  saved_depth[t->id]--;
  { Quiet q; gil_take(ts); }
  step(RA);
}
// ---- locks of the interpreter: they block without giving up the interpreter lock ----
struct PyLk { int owner; };
static int lk_who(const void *p) { return ((const PyLk *)p)->owner; }
static PyLk *lk_get(PyThread_type_lock l) {
  Block *b = trk_exact(l);
  if (!b || b->freed || b->n != sizeof(PyLk)) fatal("bad-lock", "PyThread", "a lock was used that does not exist");
  return (PyLk *)l;
}
extern "C" PyThread_type_lock simw_PyThread_allocate_lock(void) {
  step(RA);
  if (sticky[cur->id]) return nullptr;
  if (const Fault *f = fault(F_PYALLOC)) { if (f->param) sticky[cur->id] = true; return nullptr; }
  Quiet q;
  PyLk *l = (PyLk *)trk_alloc(sizeof(PyLk), RA, BK_PY);
  l->owner = -1;
  return l;
}
extern "C" void simw_PyThread_free_lock(PyThread_type_lock l) {
  step(RA);
  if (!l) return;
  Quiet q;
  if (lk_get(l)->owner >= 0) fatal("bad-lock", "PyThread_free_lock", "a lock was freed while it is held");
  trk_free(l, RA);
}
extern "C" int simw_PyThread_acquire_lock(PyThread_type_lock p, int wait) {
  step(RA);
  PyLk *l;
  { Quiet q; l = lk_get(p); }
  if (l->owner >= 0 && !wait) return 0;
  if (l->owner == cur->id) fatal("hang", "deadlock", "a thread waits for a lock that it holds itself");
  { Quiet q; block_on(lk_who, l); lk_get(p); }
  l->owner = cur->id;
  slot_acquire_sync((int)(((u64)l >> 3) & 0x1fffffff) | 0x20000000);
  step(RA);
  return 1;
}
extern "C" int simw_PyThread_acquire_lock_timed(PyThread_type_lock p, long long us, int) { return simw_PyThread_acquire_lock(p, us != 0); }
extern "C" void simw_PyThread_release_lock(PyThread_type_lock p) {
  step(RA);
  PyLk *l;
  { Quiet q; l = lk_get(p); }
  if (l->owner < 0) fatal("bad-lock", "PyThread_release_lock", "a lock was released that is not held");
  slot_release_sync((int)(((u64)l >> 3) & 0x1fffffff) | 0x20000000);
  l->owner = -1;
  step(RA);
}
extern "C" PyGILState_STATE simw_PyGILState_Ensure(void) {
  step(RA);
  if (gil_owner != cur->id) fatal("gil", "PyGILState_Ensure", "not expected without the interpreter lock");
  PyGILState_STATE s = PyGILState_Ensure();
  ensures.push_back(s);
  return s;
}
extern "C" void simw_PyGILState_Release(PyGILState_STATE s) {
  need_gil("PyGILState_Release");
  if (ensures.empty() || ensures.back() != s) fatal("gil", "PyGILState_Release", "released a lock state that was not ensured");
  ensures.pop_back();
  PyGILState_Release(s);
}
extern "C" void simw_Py_IncRef(PyObject *o) {
  need_gil("Py_IncRef");
  step(RA);
  if (o == Py_None) { none_net++; none_op[cur->id]++; }
  Py_IncRef(o);
}
extern "C" void simw_Py_DecRef(PyObject *o) {
  need_gil("Py_DecRef");
  step(RA);
  if (o == Py_None) { none_net--; none_op[cur->id]--; }
  Py_DecRef(o);
}
static const struct { const char *name; long ret; } apifail[] = {
    {"PyBytes_FromStringAndSize", 0}, {"PyBytes_FromObject", 0}, {"PyArg_ParseTupleAndKeywords", 0}, {"_PyArg_ParseTupleAndKeywords_SizeT", 0}, {"PyModule_Create2", 0}, {"PyType_Ready", -1},
    {"PyModule_AddObject", -1}, {"PyModule_AddObjectRef", -1}, {"PyModule_AddType", -1}, {"PyObject_Repr", 0}, {"PyUnicode_AsUTF8String", 0}, {"PyUnicode_DecodeUTF8", 0}, {"PyUnicode_FromString", 0}, {"PyUnicode_FromStringAndSize", 0}};
// Called before every Python C API function the module uses. Nonzero: the
// function is made to fail and returns *ret.
extern "C" int sim_py_api(const char *name, const void *pc, long *ret) {
  if (!cur->active) return 0;
  need_gil(name);
  step(pc);
  for (auto &a : apifail)
    if (!strcmp(a.name, name)) {
      if (fault(F_PYMODULE)) {
        Quiet q;
        PyErr_SetString(PyExc_MemoryError, "injected");
        *ret = a.ret;
        return 1;
      }
      break;
    }
  return 0;
}
static void header_access(const void *p, size_t n, bool write, const void *pc) {
  if (gil_owner == cur->id || !in_arena(p)) return;
  Block *b = trk_find(p);
  if (b && b->kind == BK_PY && (char *)p - b->p < 16) fatal("gil", "object-header", "the header of a Python object was %s without holding the interpreter lock (pc 0x%llx)", write ? "written" : "read", (unsigned long long)(u64)pc);
}
// ---- objects of very many bytes: one 64 MiB memory file mapped over and over in a row ----
static const size_t UNIT = (size_t)64 << 20;
static int giant_fd = -1;
static std::map<void *, size_t> giants;
static void *giant_alloc(size_t n) {
  if (giant_fd < 0) {
    giant_fd = memfd_create("pattern", 0);
    if (giant_fd < 0 || ftruncate(giant_fd, UNIT)) fatal("harness", "giant", "memfd failed");
    u64 *w = (u64 *)mmap(nullptr, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED, giant_fd, 0);
    Rng r(plan->u("seed"));
    for (size_t i = 0; i < UNIT / 8; i++) w[i] = r.next();
    munmap(w, UNIT);
  }
  size_t k = (n + UNIT - 1) / UNIT;
  char *base = (char *)mmap(nullptr, (k + 1) * UNIT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) fatal("harness", "giant", "mmap failed");
  for (size_t i = 0; i < k; i++)
    if (mmap(base + i * UNIT, UNIT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, giant_fd, 0) == MAP_FAILED) fatal("harness", "giant", "mmap of unit %zu failed", i);
  giants[base] = (k + 1) * UNIT;
  return base;
}
// ---- the allocators ---------------------------------------------------------------------
static PyMemAllocatorEx base_mem[2];
static void *py_alloc(PyMemAllocatorEx *base, size_t n, bool zero) {
  if (cur->active) {
    need_gil("Python allocator");
    if (sticky[cur->id]) return nullptr;
    if (const Fault *f = fault(F_PYALLOC)) { if (f->param) sticky[cur->id] = true; return nullptr; }
  } else if (n > (size_t)1 << 30) return giant_alloc(n);
  else if (!track_quiet) return zero ? base->calloc(base->ctx, 1, n) : base->malloc(base->ctx, n);
  Quiet q;
  void *p = trk_alloc(n ? n : 1, RA, BK_PY);
  if (p && zero) memset(p, 0, n);
  return p;
}
static void *py_malloc(void *c, size_t n) { return py_alloc((PyMemAllocatorEx *)c, n, false); }
static void *py_calloc(void *c, size_t a, size_t b) { return py_alloc((PyMemAllocatorEx *)c, a * b, true); }
static void py_free(void *c, void *p) {
  if (!p) return;
  if (!giants.empty() && giants.count(p)) { munmap(p, giants[p]); giants.erase(p); return; }
  if (!in_arena(p)) { PyMemAllocatorEx *b = (PyMemAllocatorEx *)c; b->free(b->ctx, p); return; }
  Quiet q;
  Block *b = trk_exact(p);
  if (b && b->kind != BK_PY) fatal("bad-free", "python", "Python memory released a block it does not own");
  trk_free(p, RA);
}
static void *py_realloc(void *c, void *p, size_t n) {
  if (p && !in_arena(p)) { PyMemAllocatorEx *b = (PyMemAllocatorEx *)c; return b->realloc(b->ctx, p, n); }
  void *r = py_alloc((PyMemAllocatorEx *)c, n, false);
  if (!r || !p) return r;
  Quiet q;
  Block *b = trk_exact(p);
  if (!b || b->freed) { trk_free(p, RA); return nullptr; }
  memcpy(r, p, std::min(b->n, n));
  trk_free(p, RA);
  return r;
}
struct Tracked { bool o; Tracked() : o(track_quiet) { track_quiet = true; } ~Tracked() { track_quiet = o; } };

// ---- inputs --------------------------------------------------------------------------------
static void fill_data(u8 *p, size_t n, u64 seed, int mode) {
  Rng r(seed);
  if (mode == 1) { memset(p, 0, n); return; }
  if (mode == 2) { memset(p, 0xff, n); return; }
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(p + i, &v, 8); }
  for (; i < n; i++) p[i] = (u8)r.next();
}
static void change_byte(u8 *p, size_t n, u64 x) { // see lib_sim.cpp
  if (!x || !n) return;
  size_t k = (x >> 1) % n;
  if (x & 1) k = n - 1 - k;
  p[k] ^= (u8)(1 + (x >> 1) % 255);
}
struct In {
  PyObject *o = nullptr;
  std::vector<u8> copy;
  bool good = true, either = false; // acceptable; may be accepted or refused
  Py_ssize_t refs = 0;
  In() {}
  In(const std::string &kind, size_t n, u64 seed, int mode, u64 x = 0) {
    Tracked t;
    copy.resize(n);
    fill_data(copy.data(), n, seed, mode);
    change_byte(copy.data(), n, x);
    const char *d = n ? (const char *)copy.data() : "";
    if (kind == "none") { o = Py_None; Py_INCREF(o); good = false; }
    else if (kind == "int") { o = PyLong_FromLong(1000000 + n); good = false; }
    else if (kind == "str") { o = PyUnicode_FromString("text"); good = false; }
    else if (kind == "tuple") { o = PyTuple_New(0); good = false; }
    else if (kind == "type") { o = (PyObject *)&PyBytes_Type; Py_INCREF(o); good = false; }
    else if (kind == "bytearray") { o = PyByteArray_FromStringAndSize(d, n); good = false; either = true; }
    else if (kind == "memoryview") { PyObject *b = PyBytes_FromStringAndSize(d, n); o = PyMemoryView_FromObject(b); Py_DECREF(b); good = false; either = true; }
    else if (kind == "evil") { o = PyObject_CallNoArgs(evil); good = false; }
    else if (kind == "evilrepr") { o = PyObject_CallNoArgs(evilrepr); good = false; }
    else if (kind == "evilsur") { o = PyObject_CallNoArgs(evilsur); good = false; }
    else if (kind == "reenter") { o = PyObject_CallNoArgs(reenter); good = false; }
    else if (kind == "rerepr") { o = PyObject_CallNoArgs(rerepr); good = false; }
    else if (kind == "fakebytes") { o = PyObject_CallNoArgs(fakebytes); good = false; }
    else if (kind == "subclass") { PyObject *b = PyBytes_FromStringAndSize(d, n); o = PyObject_CallOneArg(subbytes, b); Py_DECREF(b); }
    else o = PyBytes_FromStringAndSize(d, n);
    if (!o) fatal("harness", "input", "cannot make an input of kind %s", kind.c_str());
  }
  void before() { refs = Py_REFCNT(o); }
  void after(const char *name) {
    if (Py_REFCNT(o) != refs) viol("refs", name, "the reference count of an argument went from %zd to %zd", refs, Py_REFCNT(o));
    if (PyBytes_Check(o) && (PyBytes_GET_SIZE(o) != (Py_ssize_t)copy.size() || memcmp(PyBytes_AS_STRING(o), copy.data(), copy.size()))) viol("input-modified", name, "an argument was changed by the call");
  }
  void drop() { Py_CLEAR(o); }
};
// ---- one call ------------------------------------------------------------------------------
static int last_failed = 0;
struct Call {
  std::string name;
  bool good = true, either = false, tainted = false;
  PyObject *r = nullptr;
  int outcome = 0; // 1 value, -1 exception
  // calls f(args) as the interpreter would
  void go(PyObject *f, PyObject *args, PyObject *kw) {
    Th *t = cur;
    sticky[t->id] = false;
    none_op[t->id] = 0;
    long heap0 = 0;
    (void)heap0;
    t->active = true;
    // the slot wrapper is called directly: PyObject_Call itself turns a missing value or exception into SystemError
    ternaryfunc tp = Py_TYPE(f)->tp_call;
    if (PyCFunction_Check(f)) {
      int flags = PyCFunction_GET_FLAGS(f) & (METH_VARARGS | METH_KEYWORDS | METH_NOARGS | METH_O);
      PyCFunction m = PyCFunction_GET_FUNCTION(f);
      PyObject *self = PyCFunction_GET_SELF(f);
      if (flags == (METH_VARARGS | METH_KEYWORDS)) r = ((PyCFunctionWithKeywords)(void (*)())m)(self, args, kw);
      else if (flags == METH_VARARGS && !kw) r = m(self, args);
      else if (flags == METH_NOARGS && !kw && PyTuple_GET_SIZE(args) == 0) r = m(self, nullptr);
      else if (flags == METH_O && !kw && PyTuple_GET_SIZE(args) == 1) r = m(self, PyTuple_GET_ITEM(args, 0));
      else r = tp(f, args, kw);
    } else r = tp(f, args, kw);
    t->active = false;
    sticky[t->id] = false;
    settle();
  }
  void go_c(PyObject *(*f)(void)) {
    Th *t = cur;
    sticky[t->id] = false;
    none_op[t->id] = 0;
    t->active = true;
    r = f();
    t->active = false;
    sticky[t->id] = false;
    settle();
  }
  void settle() {
    Th *t = cur;
    if (gil_owner != t->id) fatal("gil", "return", "%s returned without holding the interpreter lock", name.c_str());
    if (saved_depth[t->id]) fatal("gil", "return", "%s returned with a saved thread state", name.c_str());
    PyObject *exc = PyErr_Occurred();
    if (exc && !PyType_Check(exc)) fatal("bad-error", name, "the error indicator is damaged");
    if (r && exc) viol("value-and-exception", name, "%s returned a value with an exception set (%s)", name.c_str(), ((PyTypeObject *)exc)->tp_name);
    if (!r && !exc) viol("no-exception", name, "%s returned NULL without setting an exception", name.c_str());
    outcome = r ? 1 : -1;
    std::string en = exc ? ((PyTypeObject *)exc)->tp_name : "";
    if (en == "SystemError") viol("no-exception", name + "-system", "%s raised SystemError: the module broke the calling convention", name.c_str());
    bool memory = t->fired_kind[F_PYALLOC] || t->fired_kind[F_PYMODULE];
    (void)memory;
    bool anyfault = t->fired_in_op > t->fired_kind[F_ERROBJ];
    ev("op %d %s -> %s faults=%u", t->opid, name.c_str(), r ? "value" : en.c_str(), t->fired_in_op);
    sigmix(hash_bytes(name.data(), name.size()) ^ hash_bytes(en.data(), en.size()));
    if (exc) PyErr_Clear();
    if (r && !good && !either) viol("bad-arg-accepted", name, "%s accepted arguments of a wrong type (%s)", name.c_str(), t->op->s("k").c_str());
    if (!r && good && !anyfault && !tainted) viol("spurious-fail", name, "%s raised %s although nothing failed", name.c_str(), en.c_str());
    if (none_op[t->id] - (r == Py_None ? 1 : 0) > 0) viol("refs", name + "-None", "%s took %ld references to None that it neither returned nor released", name.c_str(), none_op[t->id] - (r == Py_None ? 1 : 0));
    last_failed = !r;
  }
  bool is_digest(int alg, std::vector<u8> &v) {
    if (!r) return false;
    if (!PyBytes_CheckExact(r)) { viol("wrong-value", name, "%s returned a %s, not bytes", name.c_str(), Py_TYPE(r)->tp_name); return false; }
    if (Py_REFCNT(r) != 1) viol("refs", name + "-result", "%s returned an object with %zd references", name.c_str(), Py_REFCNT(r));
    v.assign((u8 *)PyBytes_AS_STRING(r), (u8 *)PyBytes_AS_STRING(r) + PyBytes_GET_SIZE(r));
    if (v.size() != ref::digest_size[alg]) { viol("wrong-digest", name, "%s returned %zu bytes, the digest has %u", name.c_str(), v.size(), ref::digest_size[alg]); return false; }
    return true;
  }
  void drop() { Py_CLEAR(r); }
};
static void want(const std::string &name, const std::vector<u8> &got, const std::vector<u8> &exp) {
  sh->checks++;
  if (got != exp) viol("wrong-digest", name, "%s: got %s, the standard gives %s", name.c_str(), ref::hex(got).c_str(), ref::hex(exp).c_str());
  ev("digest %s", ref::hex(got).c_str());
}
static PyObject *type_of(int alg) {
  PyObject *t = PyObject_GetAttrString(module, strf("%s_context", ref::alg_name[alg]).c_str());
  if (!t) fatal("crash:module", "type", "the module has no type %s_context", ref::alg_name[alg]);
  return t;
}
// dropping the last reference; the interpreter may be propagating an exception meanwhile
static void drop_slot(Slot &s, const Op *op) {
  if (!s.o) { s = Slot(); return; }
  Th *t = cur;
  std::string name = strf("drop-%s", ref::alg_name[s.alg]);
  bool pend = op && op->i("pend");
  if (Py_REFCNT(s.o) != 1) viol("refs", name, "the object has %zd references before the last is dropped", Py_REFCNT(s.o));
  if (pend) PyErr_SetString(PyExc_KeyError, "pending");
  sticky[t->id] = false;
  none_op[t->id] = 0;
  size_t blocks0 = 0;
  bool tracked = in_arena(s.o);
  PyObject *o = s.o;
  (void)blocks0;
  t->active = op != nullptr;
  { bool a = t->active; t->active = true; Py_DECREF(o); t->active = a; }
  t->active = false;
  s.o = nullptr;
  if (gil_owner != t->id || saved_depth[t->id]) fatal("gil", "return", "the deallocator returned without the interpreter lock");
  PyObject *exc = PyErr_Occurred();
  if (pend && (!exc || exc != PyExc_KeyError)) viol("exception-lost", name, "dropping an object while an exception was propagating %s the exception", exc ? "replaced" : "cleared");
  if (!pend && exc) viol("value-and-exception", name, "dropping an object left an exception set (%s)", ((PyTypeObject *)exc)->tp_name);
  PyErr_Clear();
  Block *b = tracked ? trk_find(o) : nullptr;
  if (b && !b->freed) viol("leak", name, "the memory of a dropped %s object was not released", ref::alg_name[s.alg]);
  ev("op %d %s", t->opid, name.c_str());
  s = Slot();
}
static PyObject *make_args(const Op &op, std::vector<PyObject *> v, const std::vector<const char *> &names, PyObject **kw) {
  Tracked tr;
  *kw = nullptr;
  std::string shape = op.s("shape");
  size_t npos = v.size();
  if (shape == "kw") npos = 0;
  if (shape == "mixed") npos = v.size() - 1;
  if (shape == "noargs") { v.clear(); npos = 0; }
  if (shape == "extra") { v.push_back(Py_None); npos = v.size(); }
  if (shape == "dup") npos = v.size();
  PyObject *a = PyTuple_New(npos);
  for (size_t i = 0; i < npos; i++) { Py_INCREF(v[i]); PyTuple_SET_ITEM(a, i, v[i]); }
  if (npos < v.size()) {
    *kw = PyDict_New();
    for (size_t i = npos; i < v.size(); i++) PyDict_SetItemString(*kw, names[i], v[i]);
  }
  if (shape == "badkw") { if (!*kw) *kw = PyDict_New(); PyDict_SetItemString(*kw, "wrong", Py_None); }
  if (shape == "dup" && !v.empty()) { *kw = PyDict_New(); PyDict_SetItemString(*kw, names[0], v[0]); }
  return a;
}
static bool good_shape(const Op &op) {
  std::string s = op.s("shape");
  return s.empty() || s == "kw" || s == "mixed";
}
static void exec1(const Op &op) {
  u64 pseed = plan->u("seed");
  const std::string &v = op.verb;
  last_failed = 0;
  if (v == "new" || v == "raw" || v == "reinit" || v == "upd" || v == "fin" || v == "drop") {
    Slot &s = slots[op.i("s") % NSLOT];
    if (v == "new" || v == "raw") {
      if (s.st != EMPTY) { ev("skip"); return; }
      int alg = ref::alg_by_name(op.s("alg", "md5"));
      PyObject *t = type_of(alg), *f, *a;
      Call c;
      c.name = strf("%s-%s", v.c_str(), ref::alg_name[alg]);
      bool fromc = v == "new" && op.i("c") && cnew[alg];
      if (v == "new") { f = t; Py_INCREF(f); a = PyTuple_New(0); }
      else { f = PyObject_GetAttrString(t, "__new__"); a = PyTuple_Pack(1, t); }
      size_t heap0 = trk_live(BK_HEAP, op.id), err0 = trk_live(BK_ERR, op.id);
      if (fromc) c.go_c(cnew[alg]); else c.go(f, a, nullptr);
      Py_DECREF(f); Py_DECREF(a);
      if (c.r && Py_TYPE(c.r) != (PyTypeObject *)t) { viol("wrong-value", c.name, "%s returned a %s", c.name.c_str(), Py_TYPE(c.r)->tp_name); c.drop(); }
      Py_DECREF(t);
      if (!c.r && (trk_live(BK_HEAP, op.id) != heap0 || trk_live(BK_ERR, op.id) != err0)) viol("leak", c.name, "a failed %s did not release the memory it had allocated", c.name.c_str());
      if (c.r) { s.o = c.r; s.alg = alg; s.st = v == "new" ? LIVE : RAW; s.r.init(alg); s.chunks = 0; }
      return;
    }
    if (s.st == EMPTY) { ev("skip"); return; }
    int alg = s.alg;
    if (v == "drop") { drop_slot(s, &op); return; }
    Py_ssize_t refs = Py_REFCNT(s.o);
    Call c;
    c.name = strf("%s-%s", v.c_str(), ref::alg_name[alg]);
    if (v == "reinit") {
      PyObject *f = PyObject_GetAttrString(s.o, "__init__"), *a = PyTuple_New(0);
      c.tainted = in_reent[cur->id];
      c.go(f, a, nullptr);
      Py_DECREF(f); Py_DECREF(a);
      if (c.r && c.r != Py_None) viol("wrong-value", c.name, "__init__ returned something");
      c.drop();
      if (c.outcome == 1) { s.st = LIVE; s.r.init(alg); s.chunks = 0; }
      else s.st = POISON;
      probe(0);
    } else if (v == "upd") {
      In in(op.s("k"), op.u("len"), mix(pseed, op.u("ds")), (int)op.i("dm"));
      PyObject *f = PyObject_GetAttrString(s.o, "update"), *kw, *a = make_args(op, {in.o}, {"data"}, &kw);
      c.good = in.good && good_shape(op) && s.st != RAW;
      c.either = in.either && good_shape(op) && s.st != RAW;
      c.tainted = s.st == POISON || s.st == DONE || in_reent[cur->id];
      in.before();
      c.go(f, a, kw);
      in.after(c.name.c_str());
      Py_DECREF(f); Py_DECREF(a); Py_XDECREF(kw);
      in.drop();
      if (c.r && c.r != Py_None) viol("wrong-value", c.name, "update returned something other than None");
      c.drop();
      sh->bytes += in.copy.size();
      if (c.outcome == 1) { s.r.update(in.copy.data(), in.copy.size()); s.chunks++; }
      else if (cur->fired_in_op && s.st == LIVE) s.st = POISON;
    } else {
      PyObject *f = PyObject_GetAttrString(s.o, "finalize"), *a = PyTuple_New(0);
      c.good = s.st != RAW;
      c.tainted = s.st == POISON || s.st == DONE || in_reent[cur->id];
      c.go(f, a, nullptr);
      Py_DECREF(f); Py_DECREF(a);
      std::vector<u8> got;
      bool dig = c.is_digest(alg, got);
      c.drop();
      if (dig && s.st == LIVE) want(strf("stream-%s", ref::alg_name[alg]), got, s.r.final());
      if (s.st != RAW) s.st = c.outcome == 1 && s.st == LIVE ? DONE : s.st == DONE ? DONE : c.outcome == -1 ? POISON : s.st;
    }
    if (Py_REFCNT(s.o) != refs) viol("refs", c.name + "-self", "the reference count of the object went from %zd to %zd", refs, Py_REFCNT(s.o));
    return;
  }
  if (v == "calc" || v == "hmac") {
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    Call c;
    c.name = strf("%s-%s", v.c_str(), ref::alg_name[alg]);
    In in(op.s("k"), op.u("len"), mix(pseed, op.u("ds")), (int)op.i("dm"), op.u("dx")), key;
    bool h = v == "hmac";
    if (h) key = In(op.s("kk"), op.u("klen"), mix(pseed, op.u("ks") + 7), (int)op.i("km"), op.u("kx"));
    PyObject *f = PyObject_GetAttrString(module, strf("%s_calculate%s", ref::alg_name[alg], h ? "_hmac" : "").c_str());
    if (!f) fatal("crash:module", "function", "the module has no function for %s", c.name.c_str());
    PyObject *kw, *a = h ? make_args(op, {key.o, in.o}, {"key", "data"}, &kw) : make_args(op, {in.o}, {"data"}, &kw);
    c.good = in.good && (!h || key.good) && good_shape(op);
    c.either = (in.good || in.either) && (!h || key.good || key.either) && good_shape(op);
    in.before();
    if (h) key.before();
    c.go(f, a, kw);
    in.after(c.name.c_str());
    if (h) key.after(c.name.c_str());
    Py_DECREF(f); Py_DECREF(a); Py_XDECREF(kw);
    std::vector<u8> got;
    if (c.is_digest(alg, got) && (c.good || c.either))
      want(c.name, got, h ? ref::hmac(alg, key.copy.data(), key.copy.size(), in.copy.data(), in.copy.size()) : ref::digest(alg, in.copy.data(), in.copy.size()));
    c.drop();
    in.drop();
    if (h) key.drop();
    sh->bytes += in.copy.size();
    for (Block *b : trk_live_list())
      if (b->op == op.id && !in_reent[cur->id] && (b->kind == BK_HEAP || b->kind == BK_ERR)) { viol("leak", c.name, "a %zu-byte block allocated during %s (pc 0x%llx) was not released", b->n, c.name.c_str(), (unsigned long long)b->pc); break; }
    return;
  }
  if (v == "sweep") { // every length of a range, or very many calls
    std::string mode = op.s("mode"), alg = op.s("alg");
    u64 b0 = op.u("b0"), b1 = op.u("b1"), step = op.u("step", 1);
    Op o;
    o.id = op.id;
    o.th = op.th;
    o.set("alg", alg).set("s", op.s("s", "0")).setu("klen", op.u("klen")).setu("ks", op.u("ds") + 1);
    auto one = [&](const char *verb, u64 len, u64 ds) { o.verb = verb; o.setu("len", len).setu("ds", ds); if (mode == "key") o.setu("klen", len).setu("len", op.u("len")); cur->op = &o; exec1(o); cur->op = &op; };
    bool stream = mode == "upd" || mode == "drip";
    if (stream) one("new", 0, 0);
    u64 near = op.u("near"); // and the lengths next to each
    for (u64 at = b0 - near, k = 0; at <= b1 && !sh->nviol; k++) {
      u64 l = at;
      if (near && k % 3 < 2) at++; else at += near ? step - 2 : step;
      u64 ds = op.u("ds") + k % 5;
      if (mode == "calls") one(k % 3 == 2 ? "hmac" : "calc", (l * 7) % 80, ds);
      else if (mode == "drip") one("upd", l % 4, ds); // very many updates of one object
      else if (stream) {
        if (k) one("reinit", 0, 0);
        if (k % 2) one("upd", op.u("len"), ds + 1);
        one("upd", l, ds);
        if (k % 3 == 0) one("upd", op.u("len"), ds + 2);
        one("fin", 0, 0);
      } else one(mode == "calc" ? "calc" : "hmac", l, ds);
    }
    if (mode == "drip") one("fin", 0, 0);
    if (stream) one("drop", 0, 0);
    return;
  }
  if (v == "giant") { // the sizes are what is simulated: the crypto library behind the seam digests a sample
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    std::string mode = op.s("mode");
    size_t n = op.u("n"), m = op.u("m");
    PyObject *big = PyBytes_FromStringAndSize(nullptr, n);
    if (!big) fatal("harness", "giant", "no object of %zu bytes", n);
    const u8 *bp = (const u8 *)PyBytes_AS_STRING(big);
    In in("", m, mix(pseed, 5), 0);
    evp_hollow = true;
    auto hash = [&](const u8 *a, size_t an, const u8 *b, size_t bn) { Hollow h; h.init(alg); h.update(a, an); h.update(b, bn); return h.final(); };
    Call c;
    c.name = strf("giant-%s-%s", mode.c_str(), ref::alg_name[alg]);
    Py_ssize_t refs = Py_REFCNT(big);
    std::vector<u8> exp;
    if (mode == "upd") { // a few bytes, very many, a few
      PyObject *t = type_of(alg), *o = PyObject_CallNoArgs(t);
      Py_DECREF(t);
      if (!o) { PyErr_Clear(); fatal("spurious-fail", c.name, "no object could be created"); }
      Hollow h;
      h.init(alg);
      for (int k = 0; k < 3; k++) {
        PyObject *x = k == 1 ? big : in.o, *f = PyObject_GetAttrString(o, "update"), *a = PyTuple_Pack(1, x);
        h.update(PyBytes_AS_STRING(x), PyBytes_GET_SIZE(x));
        Call u;
        u.name = c.name;
        u.go(f, a, nullptr);
        Py_DECREF(f); Py_DECREF(a);
        u.drop();
      }
      PyObject *f = PyObject_GetAttrString(o, "finalize"), *a = PyTuple_New(0);
      c.go(f, a, nullptr);
      Py_DECREF(f); Py_DECREF(a);
      Py_DECREF(o);
      exp = h.final();
    } else {
      PyObject *f = PyObject_GetAttrString(module, strf("%s_calculate%s", ref::alg_name[alg], mode == "calc" ? "" : "_hmac").c_str());
      PyObject *a = mode == "calc" ? PyTuple_Pack(1, big) : mode == "hmac" ? PyTuple_Pack(2, in.o, big) : PyTuple_Pack(2, big, in.o);
      c.go(f, a, nullptr);
      Py_DECREF(f); Py_DECREF(a);
      if (mode == "calc") exp = hash(nullptr, 0, bp, n);
      else {
        bool kb = mode == "key";
        size_t bs = ref::block_size[alg];
        std::vector<u8> key = in.copy, ip(bs, 0x36), op2(bs, 0x5c);
        if (kb || key.size() > bs) key = kb ? hash(nullptr, 0, bp, n) : hash(nullptr, 0, in.copy.data(), in.copy.size());
        for (size_t i = 0; i < key.size(); i++) { ip[i] ^= key[i]; op2[i] ^= key[i]; }
        auto inner = kb ? hash(ip.data(), bs, in.copy.data(), in.copy.size()) : hash(ip.data(), bs, bp, n);
        exp = hash(op2.data(), bs, inner.data(), inner.size());
      }
    }
    if (Py_REFCNT(big) != refs) viol("refs", c.name, "the reference count of an argument went from %zd to %zd", refs, Py_REFCNT(big));
    std::vector<u8> got;
    if (c.is_digest(alg, got)) want(c.name, got, exp);
    c.drop();
    in.drop();
    Py_DECREF(big);
    evp_hollow = false;
    sh->bytes += n;
    return;
  }
  if (v == "version") {
    Call c;
    c.name = "get_version";
    PyObject *f = PyObject_GetAttrString(module, "get_version"), *a = PyTuple_New(0);
    c.go(f, a, nullptr);
    Py_DECREF(f); Py_DECREF(a);
    if (c.r && (!PyUnicode_Check(c.r) || PyUnicode_GET_LENGTH(c.r) != 8)) viol("wrong-value", c.name, "get_version did not return a version");
    c.drop();
    return;
  }
  if (v == "import") {
    Call c;
    c.name = "import";
    Th *t = cur;
    sticky[t->id] = false;
    none_op[t->id] = 0;
    size_t en = ensures.size();
    t->active = true;
    PyObject *m = PyInit_pyhmac();
    t->active = false;
    sticky[t->id] = false;
    if (ensures.size() != en) fatal("gil", "PyInit_pyhmac", "the module initialisation kept the lock state it ensured");
    c.r = m;
    c.settle();
    if (m) {
      for (int k = 0; k < ref::NALG; k++)
        for (const char *f : {"%s_context", "%s_calculate", "%s_calculate_hmac"}) {
          char n[64];
          snprintf(n, sizeof n, f, ref::alg_name[k]);
          if (!PyObject_HasAttrString(m, n)) viol("wrong-value", "import", "the imported module lacks %s", n);
        }
      if (plan->i("fresh") && !module) { module = m; Py_INCREF(m); }
      Py_DECREF(m);
    }
    probe(1);
    return;
  }
  fatal("harness", "op", "unknown operation %s", v.c_str());
}
// Code of the program that runs in the middle of a call (an attribute or a
// text form of an argument is asked for) makes another call, on the same object.
static PyObject *on_reent(PyObject *, PyObject *) {
  Th *t = cur;
  if (!t->active || !t->op || in_reent[t->id]) Py_RETURN_NONE;
  probe(4);
  const Op *outer = t->op;
  bool st = sticky[t->id];
  long nn = none_op[t->id];
  PyObject *et, *ev_, *tb;
  PyErr_Fetch(&et, &ev_, &tb);
  in_reent[t->id] = true;
  t->active = false;
  static const char *const verb[] = {"upd", "fin", "reinit"};
  Op o;
  o.id = outer->id;
  o.th = outer->th;
  u64 x = outer->u("ds") + outer->u("len");
  bool obj = outer->has("s");
  o.verb = obj ? verb[x % 3] : outer->verb;
  if (obj) o.set("s", outer->s("s"));
  else o.set("alg", outer->s("alg"));
  if (o.verb == "hmac") o.set("klen", (long)(x % 200)).setu("ks", x);
  o.set("len", (long)(x % 150)).setu("ds", x);
  exec1(o);
  t->op = outer;
  t->active = true;
  in_reent[t->id] = false;
  sticky[t->id] = st;
  none_op[t->id] = nn;
  PyErr_Restore(et, ev_, tb);
  Py_RETURN_NONE;
}
// ---- one object used by several threads at once -----------------------------------------------
struct Ev { int slot, kind; u64 inv, res; bool ok, fault; std::vector<u8> data; std::string name; }; // kind 0 update, 1 finalize, 2 __init__
static std::vector<Ev> shared_log;
static u64 event_no = 0;
static void exec_share(const Op &op) {
  Slot &s = slots[op.i("s") % NSLOT];
  if (s.st == EMPTY) { ev("skip"); return; }
  Ev e;
  e.slot = (int)(op.i("s") % NSLOT);
  e.kind = op.verb == "upd" ? 0 : op.verb == "fin" ? 1 : 2;
  e.name = strf("shared-%s-%s", op.verb.c_str(), ref::alg_name[s.alg]);
  Call c;
  c.name = e.name;
  c.tainted = true;
  In in;
  PyObject *f, *kw = nullptr, *a;
  if (e.kind == 0) {
    in = In("", op.u("len"), mix(plan->u("seed"), op.u("ds")), (int)op.i("dm"));
    f = PyObject_GetAttrString(s.o, "update");
    a = make_args(op, {in.o}, {"data"}, &kw);
    in.before();
  } else { f = PyObject_GetAttrString(s.o, e.kind == 1 ? "finalize" : "__init__"); a = PyTuple_New(0); }
  e.inv = ++event_no;
  c.go(f, a, kw);
  e.res = ++event_no;
  e.ok = c.outcome == 1;
  e.fault = cur->fired_in_op > 0;
  if (e.kind == 0) in.after(c.name.c_str());
  Py_DECREF(f); Py_DECREF(a); Py_XDECREF(kw);
  in.drop();
  if (e.kind == 0) e.data = in.copy;
  if (e.kind == 1 && c.r && !c.is_digest(s.alg, e.data)) e.ok = false;
  sh->bytes += in.copy.size();
  c.drop();
  shared_log.push_back(e);
}
// Can the calls have happened one after the other?
static bool linear(const std::vector<Ev> &v, std::vector<bool> &used, ref::Ctx c, bool done, int alg, long &budget) {
  if (--budget < 0) return true;
  u64 first = ~0ull;
  bool any = false;
  for (size_t i = 0; i < v.size(); i++) if (!used[i]) { any = true; first = std::min(first, v[i].res); }
  if (!any) return true;
  for (size_t i = 0; i < v.size(); i++) {
    if (used[i] || v[i].inv > first) continue;
    ref::Ctx d = c;
    bool dn = done;
    if (v[i].kind == 2) { d.init(alg); dn = false; }
    else if (v[i].kind == 0) d.update(v[i].data.data(), v[i].data.size());
    else { if (!done && d.final() != v[i].data) continue; dn = true; }
    used[i] = true;
    bool ok = linear(v, used, d, dn, alg, budget);
    used[i] = false;
    if (ok) return true;
  }
  return false;
}
static void judge_shared() {
  for (int k = 0; k < NSLOT; k++) {
    std::vector<Ev> v;
    bool fault = false, fin = false;
    for (auto &e : shared_log) if (e.slot == k) {
      fault |= e.fault;
      fin |= e.kind == 1;
      if (e.ok) v.push_back(e);
      else {
        bool over = false;
        for (auto &o : shared_log) if (&o != &e && o.slot == k && o.inv < e.res && e.inv < o.res) over = true;
        if (over) probe(3);
        bool after = false; // what a finalized context does with another call is not specified
        for (auto &o : shared_log) if (o.slot == k && o.kind == 1 && o.inv < e.res) after = true;
        if (!over && !after && !fault) viol("spurious-fail", e.name, "%s raised an exception although no other call on the object was in progress and nothing failed", e.name.c_str());
      }
    }
    if (fault || v.empty()) continue;
    std::vector<bool> used(v.size(), false);
    ref::Ctx c;
    c.init(slots[k].alg);
    long budget = 20000;
    sh->checks++;
    if (!linear(v, used, c, false, slots[k].alg, budget)) viol("wrong-digest", strf("shared-%s", ref::alg_name[slots[k].alg]), "the digests returned by calls of several threads on one object do not fit any order of the calls");
  }
}
static void exec(const Op &op) {
  if (nthreads > 1) {
    if (!my_ts) my_ts = PyThreadState_New(main_ts->interp);
    gil_take(my_ts);
  }
  if (!module && op.verb != "import") ev("skip");
  else if (plan->i("share") && (op.verb == "upd" || op.verb == "fin" || op.verb == "reinit")) exec_share(op);
  else {
    for (long k = op.i("rep", 1); k > 0 && !sh->nviol; k--) {
      if (op.i("again")) { // an outage: what fails, fails in every repetition
        memset(cur->kc, 0, sizeof cur->kc);
        memset(cur->fired_kind, 0, sizeof cur->fired_kind);
        cur->fired_in_op = 0;
      }
      exec1(op);
    }
    for (int k = 0; k < 2 && op.i("retry") && last_failed && cur->fired_in_op; k++) {
      cur->fired_in_op = 0;
      memset(cur->fired_kind, 0, sizeof cur->fired_kind);
      probe(2);
      ev("retry op %d", op.id);
      exec1(op);
    }
  }
  if (nthreads > 1) gil_give();
}
static int lock_of(const Op &op) {
  const std::string &v = op.verb;
  if (plan->i("share")) return -1;
  if (v == "new" || v == "raw" || v == "reinit" || v == "upd" || v == "fin" || v == "drop") return (int)(op.i("s") % NSLOT);
  return -1;
}
// ---- set up ---------------------------------------------------------------------------------
static PyObject *on_unraisable(PyObject *, PyObject *) { unraisable++; Py_RETURN_NONE; }
static PyMethodDef unraisable_def = {"unraisablehook", on_unraisable, METH_O, nullptr};
static PyMethodDef reent_def = {"reent", on_reent, METH_NOARGS, nullptr};
static const char *script =
    "class Evil:\n"
    "  @property\n"
    "  def __class__(self): raise RuntimeError('refused')\n"
    "class BadRepr(Exception):\n"
    "  def __repr__(self): raise ValueError('no text')\n"
    "class EvilRepr:\n"
    "  @property\n"
    "  def __class__(self): raise BadRepr()\n"
    "class SurRepr(Exception):\n"
    "  def __repr__(self): return '\\udc80'\n"
    "class EvilSur:\n"
    "  @property\n"
    "  def __class__(self): raise SurRepr()\n"
    "class Reenter:\n"
    "  @property\n"
    "  def __class__(self): reent(); return int\n"
    "class ReErr(Exception):\n"
    "  def __repr__(self): reent(); return 'text'\n"
    "class ReRepr:\n"
    "  @property\n"
    "  def __class__(self): raise ReErr()\n"
    "class FakeBytes:\n"
    "  @property\n"
    "  def __class__(self): return bytes\n"
    "class SubBytes(bytes): pass\n";
static PyObject *import_module() { return PyInit_pyhmac(); }
void sim_warm() {
  if (!ref::selftest()) { fprintf(stderr, "reference digests are wrong\n"); _exit(3); }
  evp_warm();
  register_probe(0, "an object was initialised again");
  register_probe(1, "the module was initialised");
  register_probe(2, "a failed call was tried again");
  register_probe(4, "a call was made in the middle of another call of the same thread");
  register_probe(3, "a call on an object in use by another thread was refused");
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.utf8_mode = 1;
  Py_PreInitialize(&pre);
  PyConfig cfg;
  PyConfig_InitIsolatedConfig(&cfg);
  cfg.site_import = 0;
  cfg.install_signal_handlers = 0;
  cfg.use_hash_seed = 1;
  cfg.hash_seed = 7;
  cfg.write_bytecode = 0;
  PyStatus st = Py_InitializeFromConfig(&cfg);
  if (PyStatus_Exception(st)) { fprintf(stderr, "cannot start Python: %s\n", st.err_msg ? st.err_msg : ""); _exit(3); }
  PyConfig_Clear(&cfg);
  PyObject *g = PyDict_New();
  PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
  PyObject *re = PyCFunction_New(&reent_def, nullptr);
  PyDict_SetItemString(g, "reent", re);
  Py_DECREF(re);
  PyObject *x = PyRun_String(script, Py_file_input, g, g);
  if (!x) { PyErr_Print(); _exit(3); }
  Py_DECREF(x);
  evil = PyDict_GetItemString(g, "Evil");
  evilrepr = PyDict_GetItemString(g, "EvilRepr");
  evilsur = PyDict_GetItemString(g, "EvilSur");
  fakebytes = PyDict_GetItemString(g, "FakeBytes");
  reenter = PyDict_GetItemString(g, "Reenter");
  rerepr = PyDict_GetItemString(g, "ReRepr");
  subbytes = PyDict_GetItemString(g, "SubBytes");
  PySys_SetObject("unraisablehook", PyCFunction_New(&unraisable_def, nullptr));
  PyObject *gc = PyImport_ImportModule("gc");
  if (gc) { Py_XDECREF(PyObject_CallMethod(gc, "disable", nullptr)); gc_collect = PyObject_GetAttrString(gc, "collect"); Py_DECREF(gc); }
  PyErr_Clear();
  main_ts = PyThreadState_Get();
  static PyMemAllocatorDomain dom[2] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
  for (int k = 0; k < 2; k++) {
    PyMem_GetAllocator(dom[k], &base_mem[k]);
    PyMemAllocatorEx a = {&base_mem[k], py_malloc, py_calloc, py_realloc, py_free};
    PyMem_SetAllocator(dom[k], &a);
  }
}
static void end_of_round(const Plan &p) {
  for (auto &s : slots)
    if (s.st != EMPTY) { cur->fired_in_op = 0; memset(cur->fired_kind, 0, sizeof cur->fired_kind); drop_slot(s, nullptr); }
  Py_XDECREF(PyObject_CallNoArgs(gc_collect));
  for (Block *b : trk_live_list())
    if (b->kind == BK_HEAP || b->kind == BK_ERR) {
      std::string vb = "end";
      for (auto &o : p.ops) if (o.id == b->op) vb = o.verb;
      viol("leak", "op-" + vb, "a %zu-byte %s allocated in op %d %s (pc 0x%llx) was not released although all objects were dropped", b->n, b->kind == BK_ERR ? "error object" : "block", b->op, vb.c_str(), (unsigned long long)b->pc);
      break;
    }
  if (evp_live()) viol("leak", "evp", "an EVP context was not released although all objects were dropped");
}
// References to the classes the calls meet. Built-in types are immortal and count nothing.
static Py_ssize_t class_refs() {
  Py_ssize_t n = module ? Py_REFCNT(module) : 0;
  for (PyObject *o : {evil, evilrepr, evilsur, fakebytes, reenter, rerepr, subbytes}) n += Py_REFCNT(o);
  for (int a = 0; a < ref::NALG && module; a++) {
    PyObject *t = type_of(a);
    if (t) { n += Py_REFCNT(t); Py_DECREF(t); }
  }
  PyErr_Clear();
  return n;
}
void sim_run(const Plan &p) {
  trk_reset(p.u("seed"), p.s("fill", "random"));
  race_reset();
  evp_reset();
  set_race_sig([]() -> std::string { return cur->op ? cur->op->verb : "end"; });
  on_access = header_access;
  gil_owner = 0;
  if (!p.i("fresh")) {
    module = import_module();
    if (!module || PyErr_Occurred()) fatal("crash:module", "import", "the module cannot be initialised");
  }
  int th = 1;
  for (auto &o : p.ops) th = std::max(th, o.th + 1);
  if (th > 1) {
    for (int k = 0; k < (int)p.i("share"); k++) { // objects all threads use
      Slot &s = slots[k];
      s.alg = (int)(p.i("alg0") + k) % ref::NALG;
      PyObject *t = type_of(s.alg);
      s.o = PyObject_CallNoArgs(t);
      Py_DECREF(t);
      if (!s.o) fatal("spurious-fail", "shared-new", "an object cannot be created");
      s.st = LIVE;
    }
    PyThreadState *ts = gil_give();
    run_ops(p, exec, lock_of);
    gil_take(ts);
    judge_shared();
    end_of_round(p);
    if (gil_owner != 0) fatal("gil", "end", "the interpreter lock was lost");
  } else {
    int rounds = (int)p.i("rounds", 1);
    if (rounds == 1) { run_ops(p, exec, lock_of); end_of_round(p); }
    else {
      Plan calm = p;
      calm.faults.clear();
      calm.set("profile", 0l);
      Plan later = p;
      later.set("profile", 0l);
      run_ops(calm, exec, lock_of);
      end_of_round(p);
      std::vector<size_t> live;
      std::vector<Py_ssize_t> classes;
      size_t top = 0;
      for (int k = 0; k < rounds && !sh->nviol; k++) {
        for (Block *b : trk_live_list()) top = std::max<size_t>(top, b->serial);
        run_ops(k ? later : p, exec, lock_of);
        end_of_round(p);
        live.push_back(trk_live(BK_PY));
        classes.push_back(class_refs());
      }
      size_t n = live.size();
      bool grow = n >= 4, shrink = n >= 4;
      for (size_t k = n - 3; n >= 4 && k < n; k++) { grow &= classes[k] > classes[k - 1]; shrink &= classes[k] < classes[k - 1]; }
      if (grow || shrink) viol("refs", "classes", "repeating the same operations changes the references to the classes they meet by %zd each time", classes[n - 1] - classes[n - 2]);
      if (n >= 4 && live[n - 1] > live[n - 2] && live[n - 2] > live[n - 3] && live[n - 3] > live[n - 4]) {
        std::string vb = "end";
        size_t sz = 0;
        for (Block *b : trk_live_list()) if (b->kind == BK_PY) { sz = b->n; for (auto &o : p.ops) if (o.id == b->op) vb = o.verb; }
        viol("leak", "growth-" + vb, "repeating the same operations keeps %zu more Python memory blocks each time (the last of %zu bytes from %s)", live[n - 1] - live[n - 2], sz, vb.c_str());
      }
    }
  }
  plan = &p;
  trk_end_check();
}
std::vector<std::string> sim_shrink_keys() { return {"len", "klen", "dm", "ds", "ks", "km", "pend", "retry", "dx", "kx", "rep"}; }

// ---- generation --------------------------------------------------------------------------------
static size_t pick_len(Rng &r, int alg, size_t maxlen, size_t off) {
  size_t bs = ref::block_size[alg], v;
  if (r.chance(1, 8)) {
    u64 c = code_number(r, std::max<u64>(maxlen, maxlen < 700 ? 3000 : 110000));
    if (c && off && r.chance(1, 2)) c = c > off ? c - off : 0; // the sum of all
    if (c) return c;
  }
  switch (r.below(10)) {
  case 0: v = r.chance(1, 2) ? 0 : r.below(4); break;
  case 1: v = bs - off % bs; break;
  case 2: v = bs - off % bs + r.range(0, 2) * bs; break;
  case 3: v = (bs - off % bs) + (r.chance(1, 2) ? 1 : -1); break;
  case 4: v = bs - 12 + r.below(16); break;
  case 5: v = bs * r.range(1, 4) + r.below(3) - 1; break;
  case 6: v = r.below(300); break;
  case 7: v = 2 * bs - 20 + r.below(24); break;
  case 8: v = r.below(3 * bs); break;
  default: v = r.below(maxlen + 1);
  }
  return std::min(v, maxlen);
}
static const char *fills[] = {"random", "zero", "ff", "stale", "mixed", "recycle"};
static const char *badkind[] = {"none", "int", "str", "tuple", "type", "bytearray", "memoryview", "evil", "evilrepr", "evilsur", "fakebytes", "reenter", "rerepr"};
static const char *badshape[] = {"noargs", "extra", "badkw", "dup"};
struct G { int threads = 1, slots = 3, nops = 16; unsigned pbad = 6, preinit = 12, praw = 12; size_t maxlen = 700; bool import = false, share = false; int w[3] = {6, 2, 2}; int only = -1; };
static void gen_ops(Rng &r, Plan &p, const G &g) {
  Op related;
  struct M { bool live = false, raw = false; int alg = 0; size_t off = 0; bool done = false; } m[NSLOT];
  for (int k = 0; k < g.nops; k++) {
    int t = (int)r.below(g.threads);
    if (g.import && g.threads == 1 && r.chance(1, 12)) { p.add(t, "import"); continue; }
    if (r.chance(1, 40)) { p.add(t, "version"); continue; }
    int roll = (int)r.below(g.w[0] + g.w[1] + g.w[2]);
    bool bad = g.pbad && r.chance(1, g.pbad);
    if (roll < g.w[0]) {
      int per = std::max(1, g.slots / g.threads);
      int s = g.share && r.chance(1, 3) ? (int)r.below(g.slots) : t * per + (int)r.below(per);
      s %= NSLOT;
      if (!m[s].live) {
        int alg = g.only >= 0 ? g.only : (int)r.below(ref::NALG);
        bool raw = g.praw && r.chance(1, g.praw);
        Op &o = p.add(t, raw ? "raw" : "new").set("s", s).set("alg", ref::alg_name[alg]);
        if (!raw && r.chance(1, 8)) o.set("c", 1);
        m[s] = M();
        m[s].live = true; m[s].alg = alg; m[s].raw = raw;
        continue;
      }
      if (g.preinit && r.chance(1, m[s].raw ? 2 : g.preinit)) { p.add(t, "reinit").set("s", s); m[s].raw = m[s].done = false; m[s].off = 0; continue; }
      unsigned what = (unsigned)r.below(10);
      if (what == 0 || (m[s].done && what < 7)) { Op &o = p.add(t, "drop").set("s", s); if (r.chance(1, 3)) o.set("pend", 1); m[s].live = false; continue; }
      if (what <= 2) { p.add(t, "fin").set("s", s); m[s].done = true; continue; }
      size_t n = pick_len(r, m[s].alg, g.maxlen, m[s].off);
      Op &o = p.add(t, "upd").set("s", s).set("len", (long)n).setu("ds", r.below(1000000));
      if (r.chance(1, 8)) o.set("dm", (long)r.below(3));
      if (bad) { if (r.chance(1, 3)) o.set("shape", badshape[r.below(4)]); else o.set("k", badkind[r.below(13)]); }
      else { m[s].off += n; if (r.chance(1, 6)) o.set("shape", "kw"); if (r.chance(1, 10)) o.set("k", "subclass"); }
      continue;
    }
    bool hm = roll >= g.w[0] + g.w[1];
    int alg = g.only >= 0 ? g.only : (int)r.below(ref::NALG);
    const Op *prev = nullptr; // make this call resemble an earlier one
    if (r.chance(1, 4)) {
      std::vector<int> c;
      for (int i = 0; i < (int)p.ops.size(); i++) if (p.ops[i].verb == (hm ? "hmac" : "calc")) c.push_back(i);
      if (!c.empty()) related = p.ops[c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 3))]], prev = &related;
    }
    if (prev && !r.chance(1, 8)) alg = ref::alg_by_name(prev->s("alg"));
    Op &o = p.add(t, hm ? "hmac" : "calc");
    o.set("alg", ref::alg_name[alg]).set("len", (long)pick_len(r, alg, g.maxlen, 0)).setu("ds", r.below(1000000));
    if (r.chance(1, 8)) o.set("dm", (long)r.below(3));
    if (hm) {
      size_t bs = ref::block_size[alg], kn;
      switch (r.below(6)) { case 0: kn = r.below(4); break; case 1: kn = bs + r.below(3) - 1; break; case 2: kn = bs + r.below(2 * bs); break; case 3: kn = ref::digest_size[alg]; break; case 4: kn = r.below(bs); break; default: kn = r.below(500); }
      if (r.chance(1, 12)) kn = r.chance(1, 2) ? r.below(5000) : g.maxlen > 5000 ? r.chance(1, 2) ? 65536 + r.below(3000) : r.below(g.maxlen) : 255 + r.below(3);
      if (u64 c = r.chance(1, 8) ? code_number(r, 70000) : 0) kn = c;
      o.set("klen", (long)kn).setu("ks", r.below(1000000));
      if (r.chance(1, 8)) o.set("km", (long)r.below(3));
    }
    if (u64 a = hm && g.maxlen >= 300 && r.chance(1, 8) ? code_number(r, 3000, true) : 0) { // two of them at once
      o.setu("len", a).setu("klen", std::max<u64>(1, code_number(r, 3000, true)));
      prev = nullptr;
    }
    if (prev) {
      auto take = [&](const char *k) { if (prev->has(k)) o.set(k, prev->s(k)); else o.del(k); };
      auto x = [&] { return 1 + 2 * (r.chance(1, 2) ? r.below(4) : r.chance(1, 2) ? 60 + r.below(10) : r.below(2000)) + r.below(2); };
      if (!hm || r.chance(1, 2)) { take("len"); take("ds"); take("dm"); take("dx"); if (r.chance(2, 3)) o.setu("dx", x()); }
      if (hm && r.chance(4, 5)) { take("klen"); take("ks"); take("km"); take("kx"); if (r.chance(2, 3)) o.setu("kx", x()); }
    }
    if (bad) {
      int x = (int)r.below(hm ? 4 : 3);
      if (x == 0) o.set("shape", badshape[r.below(4)]);
      else if (x == 3) o.set("kk", badkind[r.below(13)]);
      else o.set("k", badkind[r.below(13)]);
    } else {
      if (r.chance(1, 6)) o.set("shape", hm && r.chance(1, 2) ? "mixed" : "kw");
      if (r.chance(1, 10)) o.set("k", "subclass");
      if (hm && r.chance(1, 10)) o.set("kk", "subclass");
    }
  }
}
void sim_gen(const std::string &lane, Rng &r, Plan &p, u64 index) {
  p.set("fill", fills[r.below(6)]);
  G g;
  if (lane == "pygiant") {
    static const u64 M = 1ull << 31, F = 1ull << 32;
    static const char *const modes[] = {"calc", "hmac", "upd", "key"};
    p.set("cpulimit", 300);
    p.set("profile", 0l);
    u64 n;
    switch (r.below(6)) { case 0: n = M - 1 + r.below(3); break; case 1: n = M + r.below(100000); break; case 2: n = F - 1 + r.below(3); break; case 3: n = F + r.below(100000); break; case 4: n = F * r.range(1, 4) + r.below(3000); break; default: n = F + M + r.below(3000); }
    p.add(0, "giant").set("alg", ref::alg_name[index % ref::NALG]).set("mode", modes[index / ref::NALG % 4]).setu("n", n).setu("m", r.below(300));
    return;
  }
  if (lane == "pysweep") {
    static const char *const modes[] = {"calc", "hmac", "key", "upd"};
    int alg = (int)(index % ref::NALG);
    u64 k = index / ref::NALG, bs = ref::block_size[alg];
    p.set("cpulimit", 120);
    p.set("profile", 0l);
    Op &o = p.add(0, "sweep").set("alg", ref::alg_name[alg]).setu("ds", r.below(1000000)).setu("klen", r.below(2 * bs)).setu("len", r.below(2 * bs));
    if (k == 0) o.set("mode", "calls").setu("b0", 0).setu("b1", 11999);
    else if (k == 1) o.set("mode", "drip").setu("b0", 1).setu("b1", 20000);
    else {
      o.set("mode", modes[k % 4]);
      u64 part = (k - 2) / 4 % 4;
      if (part < 3) o.setu("b0", part * 400).setu("b1", part * 400 + 399);
      else o.setu("b0", bs / 2).setu("b1", 160 * bs).setu("step", bs / 2).setu("near", 1);
    }
    return;
  }
  if (lane == "pyhist") {
    g.slots = (int)r.range(1, 6);
    g.nops = (int)r.range(10, 50);
    g.maxlen = r.chance(1, 20) ? 300000 : r.chance(1, 4) ? 9000 : 700;
    g.import = r.chance(1, 5);
  } else if (lane == "pyfault") {
    g.nops = (int)r.range(3, 14);
    g.maxlen = 300;
    g.import = r.chance(1, 3);
    g.pbad = 4;
    g.preinit = 8;
    if (r.chance(1, 8)) { p.set("fresh", 1); p.add(0, "import").set("retry", 0l); g.import = true; }
  } else if (lane == "pyleak") {
    g.nops = (int)r.range(3, 14);
    g.maxlen = 300;
    g.import = r.chance(1, 3);
    g.pbad = 3;
    g.preinit = 6;
    p.set("rounds", r.chance(1, 4) ? (long)r.range(6, 24) : 5l);
  } else if (lane == "pythreads") {
    g.threads = (int)r.range(2, 4);
    g.slots = g.threads * 2;
    g.nops = (int)r.range(6, 20);
    g.maxlen = 200;
    g.pbad = 8;
    g.share = r.chance(1, 2);
    if (r.chance(1, 3)) { g.only = (int)r.below(ref::NALG); if (r.chance(1, 2)) { g.w[0] = 1; g.w[r.range(1, 2)] = 6; } }
  }
  if (lane == "pyshare") {
    int th = (int)r.range(2, 3), n = (int)r.range(3, 9), ns = r.chance(1, 4) ? 2 : 1;
    p.set("share", ns);
    p.set("alg0", (long)(index % ref::NALG));
    for (int k = 0; k < n; k++) {
      int t = (int)r.below(th), x = (int)r.below(10), s = (int)r.below(ns);
      if (k < th) t = k;
      if (x < 6) p.add(t, "upd").set("s", s).set("len", (long)pick_len(r, (int)(index + s) % ref::NALG, 300, 0)).setu("ds", r.below(1000000));
      else if (x < 8) p.add(t, "fin").set("s", s);
      else if (x < 9) p.add(t, "reinit").set("s", s);
      else if (r.chance(1, 2)) p.add(t, "calc").set("alg", ref::alg_name[r.below(ref::NALG)]).set("len", (long)r.below(100)).setu("ds", r.below(1000));
    }
    return;
  }
  if (lane == "pythreads" && r.chance(1, 2)) { // all threads do the same with data of their own
    p.has_variants = 8;
    G one = g;
    one.threads = 1;
    one.slots = 2;
    one.nops = (int)r.range(2, 6);
    if (r.chance(1, 2)) one.w[0] = 1, one.w[1] = 2, one.w[2] = 3;
    Plan q;
    gen_ops(r, q, one);
    for (auto &o : q.ops) {
      if (o.has("len") && r.chance(1, 8)) o.set("len", 0l);
      for (int t = 0; t < g.threads; t++) {
        Op &c = p.add(t, o.verb.c_str());
        c.kv = o.kv;
        if (o.has("s")) c.set("s", o.i("s") + 2 * t);
        if (o.has("ds") && r.chance(3, 4)) c.setu("ds", r.below(1000000));
        if (o.has("ks") && r.chance(3, 4)) c.setu("ks", r.below(1000000));
      }
    }
  }
  if (p.ops.empty()) gen_ops(r, p, g);
  if ((lane == "pyfault" || lane == "pyhist" || lane == "pyleak") && r.chance(1, 3)) { // calls repeated many times, failing ones too
    int n = (int)r.range(1, 3);
    for (int k = 0; k < n && !p.ops.empty(); k++) {
      Op &o = p.ops[r.below(p.ops.size())];
      if (o.verb == "upd" || o.verb == "fin" || o.verb == "drop" || o.verb == "reinit") { if (o.verb != "upd" || (!o.has("k") && !o.has("shape"))) continue; }
      if (o.verb == "import" && lane == "pyhist") continue;
      o.set("rep", r.chance(1, 5) ? (long)r.range(100, 300) : (long)r.range(2, 40)).set("again", 1);
      if (u64 c = r.chance(1, 10) ? code_number(r, 1000) : 0) o.setu("rep", c + 1);
      u64 room = (build_cfg[strlen(build_cfg) - 1] == 'T' ? 300000 : 3000000) / (o.u("len") + o.u("klen") + 1);
      if (o.u("rep") > room) o.setu("rep", std::max<u64>(2, room));
    }
  }
  if (lane == "pyfault")
    for (auto &o : p.ops) if (o.verb != "upd" && o.verb != "fin" && o.verb != "drop" && r.chance(1, 2)) o.set("retry", 1);
}
int sim_variants(const std::string &lane) {
  if (lane == "pyfault") return 14;
  if (lane == "pyleak") return 6;
  if (lane == "pythreads" || lane == "pyshare") return 18;
  return 0;
}
static void add_fault(Rng &r, const Profile &prof, Plan &p) {
  std::vector<int> kinds;
  for (auto &pt : prof.points) if (std::find(kinds.begin(), kinds.end(), (int)pt.kind) == kinds.end()) kinds.push_back(pt.kind);
  if (kinds.empty()) return;
  int kind = kinds[r.below(kinds.size())];
  std::vector<const Point *> pts;
  for (auto &pt : prof.points) if ((int)pt.kind == kind) pts.push_back(&pt);
  const Point *pt = pts[r.below(pts.size())];
  Fault f;
  f.op = pt->op;
  f.kind = kind;
  f.nth = (int)r.below(pt->count);
  if (kind == F_PYALLOC && r.chance(1, 4)) f.param = 1;
  if (kind == F_MEMOP) f.param = memop_mode(r);
  p.faults.push_back(f);
  // what reports the failure may fail as well
  if (r.chance(1, 5)) { Fault e; e.op = f.op; e.kind = F_PYALLOC; e.nth = (int)r.below(6); e.param = r.chance(1, 3); p.faults.push_back(e); }
  if (kind != F_ERROBJ && r.chance(1, 10)) { Fault e; e.op = f.op; e.kind = F_ERROBJ; p.faults.push_back(e); }
}
// The same fails in the calls of the same kind of other threads.
static void twin(Rng &r, const Plan &base, Plan &p) {
  Fault f = p.faults[0];
  const Op *a = nullptr;
  for (auto &o : base.ops) if (o.id == f.op) a = &o;
  if (!a) return;
  for (auto &o : base.ops)
    if (o.th != a->th && o.verb == a->verb && o.s("alg") == a->s("alg") && r.chance(2, 3)) { Fault e = f; e.op = o.id; if (r.chance(1, 4)) e.nth = (int)r.below(f.nth + 2); p.faults.push_back(e); }
}
void sim_vary(const std::string &lane, Rng &r, const Plan &base, const Profile &prof, Plan &out) {
  out = base;
  if (lane == "pythreads" || lane == "pyshare") {
    if (!prof.steps.empty()) {
      std::vector<u64> pcs;
      for (auto &s : prof.steps) pcs.push_back(s.pc);
      std::sort(pcs.begin(), pcs.end());
      pcs.erase(std::unique(pcs.begin(), pcs.end()), pcs.end());
      int n = (int)r.range(1, 6), th = 1;
      for (auto &o : base.ops) th = std::max(th, o.th + 1);
      for (int k = 0; k < n; k++) {
        const StepPt *sp;
        if (r.chance(1, 3)) sp = &prof.steps[r.below(prof.steps.size())];
        else {
          u64 pc = pcs[r.below(pcs.size())];
          std::vector<const StepPt *> c;
          for (auto &s : prof.steps) if (s.pc == pc) c.push_back(&s);
          sp = c[r.below(c.size())];
        }
        Sw w;
        w.op = sp->op;
        w.at = sp->at;
        if (r.chance(1, 4)) w.at = 1 + (long)r.below(sp->at + 3);
        int me = 0;
        for (auto &o : base.ops) if (o.id == w.op) me = o.th;
        w.to = (int)r.below(th);
        if (w.to == me) w.to = (w.to + 1) % th;
        w.n = (int)r.range(1, 3);
        out.sws.push_back(w);
      }
    }
    if (r.chance(1, 4)) {
      add_fault(r, prof, out);
      if (!out.faults.empty() && r.chance(1, 2)) twin(r, base, out);
    }
    return;
  }
  int n = r.chance(2, 3) ? 1 : (int)r.range(2, 3);
  for (int k = 0; k < n; k++) add_fault(r, prof, out);
}
} // namespace sim
