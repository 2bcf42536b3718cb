#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

A target is (simulator, configuration, kind):
  simulator      lib | tool | py
  configuration  fbu  fallback digests, unfolded loops (what a build without OpenSSL gets)
                 fbf  fallback digests, folded loops
                 fbn  as fbu, hmacsum with its own option parser
                 fbv  as fbu, verbose output enabled
                 evp  OpenSSL 3 EVP with EVP_DigestInit_ex2
                 evp1 OpenSSL 1.1 EVP (EVP_DigestInit_ex)
                 evpl EVP interface of OpenSSL before 1.1 (simulated library)
                 low  OpenSSL low level MD5_/SHA_ interface
  kind           R gcc -O2, the results of memory functions are not assumed   O gcc -O2
                 C clang -O2   A gcc AddressSanitizer
                 T gcc, every memory access a hook of the simulator
Nothing of the repository's own build is used, and nothing is written to /repo.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(HERE, 'src')
ALGS = ['md5', 'sha1', 'sha224', 'sha256', 'sha512']
PYINC = '/usr/include/python3.12'

BASE = '''HAVE_STDLIB_H HAVE_STRING_H HAVE_STRINGS_H HAVE_UNISTD_H HAVE_STDARG_H HAVE_VARARGS_H HAVE_STDINT_H HAVE_INTTYPES_H HAVE_STDIO_H
HAVE_LIMITS_H HAVE_WCHAR_H HAVE_SIGNAL_H HAVE_SYS_SIGNAL_H HAVE_SYS_TYPES_H HAVE_SYS_STAT_H HAVE_ERRNO_H HAVE_FCNTL_H HAVE_LOCALE_H
HAVE_MALLOC HAVE_REALLOC HAVE_FREE HAVE_MEMCPY HAVE_MEMSET HAVE_MEMCMP HAVE_MEMCHR HAVE_STRLEN HAVE_STRCHR HAVE_STRRCHR HAVE_STRNCMP HAVE_STRNCPY
HAVE_STRCASECMP HAVE_STRNCASECMP HAVE_STRSTR HAVE_SNPRINTF HAVE_VSNPRINTF HAVE_SPRINTF HAVE_SETVBUF HAVE_GETOPT HAVE_CLOSE HAVE_FCLOSE HAVE_FOPEN
HAVE_FREAD HAVE_FWRITE HAVE_FEOF HAVE_FGETS HAVE_SETLOCALE HAVE_PRINTF_JD HAVE_PRINTF_ZD HAVE_WCSLEN HAVE_WMEMCPY HAVE_LIBCERROR HAVE_LIBCFILE HAVE_LIBCLOCALE
HAVE_LIBCNOTIFY HAVE_LIBCPATH HAVE_LIBCSPLIT HAVE_LIBUNA STDC_HEADERS'''.split()
EVPALG = ['HAVE_EVP_' + a.upper() for a in ALGS]
CONFIGS = {
    'fbu': dict(defs=[], unfolded=True, evp=None),
    'fbn': dict(defs=[], unfolded=True, evp=None, undef=['HAVE_GETOPT']),
    'fbv': dict(defs=['HAVE_VERBOSE_OUTPUT'], unfolded=True, evp=None),
    'fbf': dict(defs=[], unfolded=False, evp=None),
    'evp': dict(defs=['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H', 'HAVE_EVP_DIGESTINIT_EX2'] + EVPALG, unfolded=True, evp='modern'),
    'evp1': dict(defs=['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H'] + EVPALG, unfolded=True, evp='modern'),
    'evpl': dict(defs=['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H', 'HAVE_EVP_MD_CTX_INIT', 'HAVE_EVP_MD_CTX_CLEANUP'] + EVPALG, unfolded=True, evp='legacy'),
    'low': dict(defs=['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_MD5_H', 'HAVE_OPENSSL_SHA_H'], unfolded=True, evp='modern'),
}
KINDS = {
    'R': ['gcc', '-O2', '-g1', '-fstack-protector-strong', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset'],
    'O': ['gcc', '-O2', '-g1', '-fstack-protector-strong'],
    'C': ['clang', '-O2', '-g1', '-fstack-protector-strong'],
    'A': ['gcc', '-O1', '-g1', '-fsanitize=address', '-fno-builtin', '-fno-omit-frame-pointer'],
    'T': ['gcc', '-O1', '-g1', '-fsanitize=thread', '-fno-builtin', '-fstack-protector-strong', '--param', 'tsan-instrument-func-entry-exit=0'],
}
MEMSYMS = ['malloc', 'calloc', 'realloc', 'free', 'strdup', '__strdup', 'strndup', '__strndup', 'reallocarray', 'posix_memalign', 'aligned_alloc', 'memalign',
           'asprintf', 'vasprintf', '__asprintf', 'wcsdup', 'memcpy', 'memmove', 'memset', 'memcmp', 'abort',
           'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once']
TOOLSYMS = ['fprintf', 'printf', 'vfprintf', 'vprintf', 'puts', 'fputs', 'fputc', 'putc', 'putchar', 'fwrite', 'fflush', 'setvbuf', 'fclose', 'ferror',
            'clearerr', 'fileno', 'perror', 'signal', 'sigaction', 'close', 'read', 'open', 'write', 'exit', '_exit', 'raise', 'kill', '__isoc99_fprintf',
            'fputs_unlocked', 'fwrite_unlocked', 'sigprocmask', 'alarm', 'bsd_signal', 'sysv_signal', '__sysv_signal']
EVPSYMS = ['EVP_MD_CTX_new', 'EVP_MD_CTX_free', 'EVP_MD_CTX_reset', 'EVP_DigestInit_ex2', 'EVP_DigestInit_ex', 'EVP_DigestInit', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'EVP_DigestFinal'] + \
          [f'{a}_{o}' for a in ('MD5', 'SHA1', 'SHA224', 'SHA256', 'SHA512') for o in ('Init', 'Update', 'Final')]
LEGSYMS = ['EVP_MD_CTX_init', 'EVP_MD_CTX_cleanup', 'EVP_DigestInit_ex', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'ERR_remove_thread_state'] + ['EVP_' + a for a in ALGS]


CFLAGS = ['-w', '-std=gnu11', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-pointer-types', '-fPIC', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-DHAVE_CONFIG_H', '-D_FILE_OFFSET_BITS=64']
PYOWN = ['PyEval_SaveThread', 'PyEval_RestoreThread', 'PyGILState_Ensure', 'PyGILState_Release', 'Py_IncRef', 'Py_DecRef',
         'PyThread_allocate_lock', 'PyThread_free_lock', 'PyThread_acquire_lock', 'PyThread_acquire_lock_timed', 'PyThread_release_lock']
PYNAME = re.compile('_?Py')


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def version():
    try:
        m = re.search(r'AC_INIT\(\s*\[libhmac\],\s*\[(\d+)\]', open(os.path.join(REPO, 'configure.ac')).read())
        return m.group(1) if m else '20241028'
    except OSError:
        return '20241028'


def subst(text):
    known = {'VERSION': version(), 'PACKAGE': 'libhmac', 'HAVE_SYS_TYPES_H': '1', 'HAVE_INTTYPES_H': '1', 'HAVE_STDINT_H': '1', 'HAVE_WCHAR_H': '1'}
    return re.sub(r'@([A-Za-z0-9_]+)@', lambda m: known.get(m.group(1), '0'), text)


def write_if(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def gen_headers(cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, 'gen', cfg)
    for h in ('include/libhmac.h', 'include/libhmac/definitions.h', 'include/libhmac/features.h', 'include/libhmac/types.h', 'common/types.h', 'libhmac/libhmac_definitions.h'):
        t = subst(open(os.path.join(REPO, h + '.in')).read())
        if h.endswith('libhmac_definitions.h') and not c['unfolded']:
            t = re.sub(r'(?m)^#define LIBHMAC_UNFOLLED_LOOPS.*$', '', t)
        write_if(os.path.join(d, h), t)
    cfgh = ''.join(f'#define {k} 1\n' for k in BASE + c['defs'] if k not in c.get('undef', ()))
    cfgh += '\n'.join(['#define SIZEOF_INT 4', '#define SIZEOF_LONG 8', '#define SIZEOF_OFF_T 8', '#define SIZEOF_SIZE_T 8', '#define SIZEOF_WCHAR_T 4', '#define PACKAGE "libhmac"', '#define PACKAGE_NAME "libhmac"',
                       '#define PACKAGE_VERSION "%s"' % version(), '#define VERSION "%s"' % version(), '#define PACKAGE_BUGREPORT "joachim.metz@gmail.com"', '#define LOCALEDIR "/nonexistent"', ''])
    write_if(os.path.join(d, 'common', 'config.h'), cfgh)
    return d


def sources(sim):
    dirs = {'lib': ['libhmac'], 'tool': ['libhmac', 'hmactools'], 'py': ['libhmac', 'pyhmac']}[sim]
    out = []
    for d in dirs:
        out += [(d, f) for f in sorted(glob.glob(os.path.join(REPO, d, '*.c')))]
    return out


def digest_inputs(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_inputs():
    out = []
    for d in ('libhmac', 'hmactools', 'pyhmac', 'common', 'include', 'include/libhmac'):
        out += [f for pat in ('*.c', '*.h', '*.in') for f in glob.glob(os.path.join(REPO, d, pat))]
    out.append(os.path.join(REPO, 'configure.ac'))
    return [p for p in out if os.path.exists(p)]


def sim_inputs():
    out = []
    for r, _, fs in os.walk(HERE):
        if '__pycache__' in r:
            continue
        out += [os.path.join(r, f) for f in fs if f.endswith(('.h', '.cpp', '.c', '.py', '.S'))]
    return out


HARNESS = {'lib': ['core', 'worker', 'wrap', 'ref', 'lib_sim', 'giant'], 'tool': ['core', 'worker', 'wrap', 'ref', 'tool_stubs', 'tool_sim'], 'py': ['core', 'worker', 'wrap', 'ref', 'py_sim']}
_pool = concurrent.futures.ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 4))


def cached(out, deps, cmds_for):
    """Runs the commands unless out exists for these dependencies."""
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for c in cmds_for(tmp):
        run(c)
    os.rename(tmp, out)
    return out


def harness_obj(name, key):
    out = os.path.join(BUILD, 'h', key, name + '.o')
    inc = ['-I' + PYINC] if name.startswith('py') else []
    return cached(out, None, lambda t: [['g++', '-std=c++17', '-O2', '-g1', '-w', *inc, '-c', os.path.join(SRC, name + '.cpp'), '-o', t]])


def repo_obj(sim, cfg, kind, d, f, gen, key):
    base = os.path.basename(f)[:-2]
    out = os.path.join(BUILD, 'o', key, cfg + '-' + kind, d + '_' + base + '.o')
    c = CONFIGS[cfg]
    inc = ['-I' + os.path.join(gen, 'include'), '-I' + os.path.join(gen, 'common'), '-I' + os.path.join(gen, 'libhmac'), '-I' + os.path.join(REPO, d), '-I' + os.path.join(REPO, 'common'), '-I' + os.path.join(REPO, 'include')]
    if c['evp'] == 'legacy':
        inc.append('-I' + os.path.join(HERE, 'stubs', 'legacy'))
    inc.append('-I' + os.path.join(HERE, 'stubs', 'include'))
    if d == 'pyhmac':
        inc.append('-I' + PYINC)
    syms = list(MEMSYMS) + (EVPSYMS if c['evp'] == 'modern' else LEGSYMS if c['evp'] == 'legacy' else [])
    if d == 'hmactools':
        syms += TOOLSYMS + ['main']
    if d == 'pyhmac':
        syms += PYOWN
    mapf = out + '.syms'
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if d == 'pyhmac' and not os.path.exists(out):
        # every function of the Python C API goes through a trampoline of its own
        run([*KINDS[kind], *CFLAGS, *inc, '-c', f, '-o', out + '.nm.o'])
        syms += [x for x in py_undefined(out + '.nm.o') if x not in syms and not x.startswith('simw_')]
        os.unlink(out + '.nm.o')
    write_if(mapf, ''.join(f'{s} {"simpy_" if PYNAME.match(s) and s not in PYOWN else "simw_"}{s}\n' for s in syms))
    return cached(out, None, lambda t: [
        [*KINDS[kind], *CFLAGS, *inc, '-c', f, '-o', t + '.o'],
        ['objcopy', '--redefine-syms=' + mapf, t + '.o', t],
        ['rm', '-f', t + '.o']])


CMP = re.compile(r'\b(cmp|sub|and|test)[bwlq]?\s+\$0x([0-9a-f]+),(\S*)')
LEA = re.compile(r'\blea\s+-0x([0-9a-f]+)\((%[a-z0-9]+)\),')


def code_constants(obj, lea):
    """Numbers the compiled code compares something with (sizes worth trying)."""
    out = obj + '.consts'
    if not os.path.exists(out):
        r = set()
        for l in run(['objdump', '-d', '--no-show-raw-insn', obj]).splitlines():
            m = CMP.search(l)
            if m:
                op, v = m.group(1), int(m.group(2), 16)
                if op in ('sub', 'and') and m.group(3) in ('%rsp', '%esp'):
                    continue
                r.add(v)
                if op in ('test', 'and'):
                    r.add(v + 1)
            m = LEA.search(l) if lea else None
            if m and m.group(2) not in ('%rbp', '%rsp'):
                r.add(int(m.group(1), 16))
        write_if(out, ' '.join(str(v) for v in sorted(r) if 5 <= v <= 1 << 27))
    return {int(v) for v in open(out).read().split()}


def build_all(targets):
    """targets: iterable of (sim, cfg, kind). Returns {target: path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hkey = digest_inputs(sim_inputs(), 'harness')
        rkey = digest_inputs(repo_inputs() + [os.path.abspath(__file__)] + glob.glob(os.path.join(HERE, 'stubs', '**', '*.h'), recursive=True), 'repo' + REPO)
        # keep only the current generation of objects
        for sub, key in (('h', hkey), ('o', rkey)):
            for old in glob.glob(os.path.join(BUILD, sub, '*')):
                if os.path.basename(old) != key:
                    shutil.rmtree(old, ignore_errors=True)
        for old in glob.glob(os.path.join(BUILD, 'bin', '*')):
            # another check may be running what it has built from another tree
            if os.path.basename(old) != hkey + rkey and time.time() - os.path.getmtime(old) > 600:
                shutil.rmtree(old, ignore_errors=True)
        jobs, paths = {}, {}
        hobjs, robjs = {}, {}
        gens = {cfg: gen_headers(cfg) for cfg in {t[1] for t in targets}}
        for sim, cfg, kind in targets:
            evp = 'evp_' + (CONFIGS[cfg]['evp'] or 'none')
            for n in HARNESS[sim] + [evp]:
                if n not in hobjs:
                    hobjs[n] = _pool.submit(harness_obj, n, hkey)
            for d, f in sources(sim):
                k = (cfg, kind, f)
                if k not in robjs:
                    robjs[k] = _pool.submit(repo_obj, sim, cfg, kind, d, f, gens[cfg], rkey)
        for fu in list(hobjs.values()) + list(robjs.values()):
            fu.result()

        def link(sim, cfg, kind):
            out = os.path.join(BUILD, 'bin', hkey + rkey, f'{sim}-{cfg}-{kind}')
            evp = 'evp_' + (CONFIGS[cfg]['evp'] or 'none')
            objs = [hobjs[n].result() for n in HARNESS[sim] + [evp]] + [robjs[(cfg, kind, f)].result() for d, f in sources(sim)]
            extra = ['-fsanitize=address'] if kind == 'A' else []
            cfgc = out + '.cfg.cpp'
            os.makedirs(os.path.dirname(out), exist_ok=True)
            consts = set()
            if os.path.exists(out):
                return out
            for d, f in sources(sim):
                consts |= code_constants(robjs[(cfg, kind, f)].result(), kind != 'A')
            write_if(cfgc, 'namespace sim { extern const char *const build_cfg; const char *const build_cfg = "%s-%s"; extern const unsigned long code_consts[]; extern const int n_code_consts; const unsigned long code_consts[] = {%s}; const int n_code_consts = %d; }\n'
                     % (cfg, kind, ', '.join('%dul' % v for v in sorted(consts) + [0]), len(consts)))
            libs = ['-lcrypto', '-lpthread', '-ldl', '-lm'] + (['-lpython3.12'] if sim == 'py' else [])
            more = []
            if sim == 'py' and not os.path.exists(out):
                more = py_trampolines(out, [robjs[(cfg, kind, f)].result() for d, f in sources(sim) if d == 'pyhmac'])
            return cached(out, None, lambda t: [['g++', '-no-pie', '-g1', '-o', t, cfgc, *objs, *more, *extra, *libs]])
        for t in targets:
            paths[t] = _pool.submit(link, *t)
        return {t: p.result() for t, p in paths.items()}
    finally:
        lock.close()


_pyfuncs = None


def py_functions():
    global _pyfuncs
    if _pyfuncs is None:
        lib = None
        for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib', '/usr/lib64', '/usr/local/lib'):
            c = glob.glob(d + '/libpython3.12.so*')
            if c:
                lib = c[0]
                break
        if not lib:
            raise BuildError('libpython3.12.so not found')
        _pyfuncs = {l.split()[2].split('@')[0] for l in run(['nm', '-D', '--defined-only', lib]).splitlines() if len(l.split()) == 3 and l.split()[1] in 'TtWi'}
    return _pyfuncs


def py_undefined(obj):
    return [x for x in run(['nm', '-u', '-j', obj]).split() if PYNAME.match(x) and x in py_functions()]


TRAMP = """
  .globl simpy_{n}
  .type simpy_{n},@function
simpy_{n}:
  push %rbp
  mov %rsp,%rbp
  sub $192,%rsp
  mov %rdi,(%rsp)
  mov %rsi,8(%rsp)
  mov %rdx,16(%rsp)
  mov %rcx,24(%rsp)
  mov %r8,32(%rsp)
  mov %r9,40(%rsp)
  mov %rax,48(%rsp)
  movups %xmm0,64(%rsp)
  movups %xmm1,80(%rsp)
  movups %xmm2,96(%rsp)
  movups %xmm3,112(%rsp)
  movups %xmm4,128(%rsp)
  movups %xmm5,144(%rsp)
  movups %xmm6,160(%rsp)
  movups %xmm7,176(%rsp)
  lea .Ln_{n}(%rip),%rdi
  mov 8(%rbp),%rsi
  lea 56(%rsp),%rdx
  call sim_py_api
  test %eax,%eax
  jnz 1f
  mov (%rsp),%rdi
  mov 8(%rsp),%rsi
  mov 16(%rsp),%rdx
  mov 24(%rsp),%rcx
  mov 32(%rsp),%r8
  mov 40(%rsp),%r9
  mov 48(%rsp),%rax
  movups 64(%rsp),%xmm0
  movups 80(%rsp),%xmm1
  movups 96(%rsp),%xmm2
  movups 112(%rsp),%xmm3
  movups 128(%rsp),%xmm4
  movups 144(%rsp),%xmm5
  movups 160(%rsp),%xmm6
  movups 176(%rsp),%xmm7
  leave
  jmp {n}@PLT
1:
  mov 56(%rsp),%rax
  leave
  ret
  .section .rodata
.Ln_{n}: .asciz "{n}"
  .text
"""


def py_trampolines(out, objs):
    names = sorted({x[6:] for o in objs for x in run(['nm', '-u', '-j', o]).split() if x.startswith('simpy_')})
    f = out + '.tramp.S'
    write_if(f, '  .text\n' + ''.join(TRAMP.format(n=n) for n in names) + '  .section .note.GNU-stack,"",@progbits\n')
    return [f]


if __name__ == '__main__':
    ts = [tuple(a.split('-')) for a in sys.argv[1:]]
    for t, p in build_all(ts).items():
        print('-'.join(t), p)
