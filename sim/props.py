"""What each check runs: property -> simulator lanes, builds, run counts and the
violation classes that break the property."""
MEM = ['oob-*', 'use-after-free', 'uaf-write', 'double-free', 'bad-free', 'bad-error', 'bad-evp', 'bad-file', 'bad-split', 'bad-stream', 'crash:*', 'hang']
VALUE = ['wrong-digest', 'spurious-fail', 'bad-return', 'error-on-success']

# quick: base plans per target; thorough: multiplied by `deep` (giant is listed apart)
def jobs(lane, n, targets, deep=12, thorough_only=()):
    return dict(lane=lane, n=n, targets=list(targets), deep=deep, thorough=list(thorough_only))

ALL = ['fbu', 'fbf', 'evp', 'evp1', 'evpl', 'low']
def T(kind, *cfgs, sim='lib'):
    return [f'{sim}-{c}-{kind}' for c in cfgs]

PROPS = {
    'C01': dict(how='seeded chunk histories over several contexts against an independent reference model',
        note='Seeded search: no violation in the explored histories; first-chunk/second-chunk sizes up to three blocks are swept completely for every algorithm in the thorough and most of it in the quick run. Trusts the reference digests.',
        classes=VALUE + MEM, jobs=[
        jobs('stream', 700, T('R', 'fbu', 'fbf', 'evp', 'evp1', 'evpl', 'low') + T('C', 'fbu', 'fbf'), 14, T('C', 'evp', 'low') + T('A', 'fbu', 'fbf')),
        jobs('lattice', 825, T('R', 'fbu', 'fbf') + T('C', 'fbu', 'fbf'), 4, T('R', 'evp', 'evpl', 'low')),
        jobs('stride', 215, T('R', 'fbu') + T('C', 'fbf'), 3, T('R', 'evp', 'evpl', 'low', 'fbf')),
        jobs('crowd', 60, T('R', *ALL) + T('T', 'fbu'), 14, T('A', 'fbu', 'evp')),
        jobs('many', 16, T('R', *ALL), 14, T('T', 'fbu', 'evp')),
        jobs('large', 32, T('R', 'fbu', 'fbf') + T('C', 'fbu', 'fbf'), 14, T('R', 'evp', 'low')),
        jobs('hollow', 50, T('R', 'evp', 'evp1', 'evpl', 'low'), 10)],
        giant=[('lib-fbu-C', [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14]), ('lib-evp-R', [1, 4]), ('lib-low-R', [2])],
        giant_deep=[('lib-fbu-C', list(range(20))), ('lib-fbf-R', list(range(20))), ('lib-fbu-R', [10, 11, 12, 13, 14]), ('lib-evp-R', list(range(20))), ('lib-low-R', list(range(20))), ('lib-evpl-R', list(range(5)))]),
    'C02': dict(how='seeded one-shot call histories with faults and adversarial memory contents against a reference model',
        note='Seeded search over keys, messages, histories and faults. Trusts the reference digests.',
        classes=VALUE + ['no-error-object'] + MEM, jobs=[
        jobs('oneshot', 700, T('R', *ALL) + T('C', 'fbu', 'fbf') + T('A', 'fbu'), 14, T('A', 'evp', 'low', 'evpl', 'fbf')),
        jobs('hmacfaults', 90, T('R', *ALL), 14),
        jobs('sweep', 120, T('R', 'fbu', 'low', 'evp') + T('C', 'fbf'), 3, T('R', 'evp1', 'evpl', 'fbf')),
        jobs('many', 16, T('R', *ALL), 14, T('T', 'fbu')),
        jobs('large', 32, T('R', 'fbu', 'fbf') + T('C', 'fbu', 'fbf'), 14, T('R', 'evp', 'low')),
        jobs('hollow', 50, T('R', 'evp', 'evp1', 'evpl', 'low'), 10)],
        giant=[('lib-fbu-C', [15, 16, 17, 18, 19, 21, 22, 40, 41, 42, 43, 44])],
        giant_deep=[('lib-fbu-C', list(range(15, 30)) + list(range(40, 60))), ('lib-fbf-R', list(range(15, 20))), ('lib-evp-R', list(range(15, 20))), ('lib-low-R', list(range(15, 20)))]),
    'C03': dict(how='seeded fault injection at every allocation, memory and crypto call, outcome against a reference model',
        note='Seeded search over fault points found by profiling each history. Trusts the seams (tracked allocator, EVP seam).',
        classes=VALUE + ['no-error-object', 'context-set-on-fail', 'error-print'] + MEM, jobs=[
        jobs('stream', 120, T('R', *ALL), 14), jobs('oneshot', 120, T('R', *ALL), 14), jobs('outage', 30, T('R', 'fbu', 'evp', 'evpl'), 14),
        jobs('faults', 160, T('R', *ALL) + T('A', 'fbu', 'evp', 'evpl') + T('T', 'fbu'), 14, T('A', 'fbf', 'low') + T('C', 'fbu', 'evp')),
        jobs('hmacfaults', 160, T('R', *ALL) + T('A', 'fbu', 'evp', 'evpl'), 14, T('A', 'fbf', 'low') + T('C', 'fbu', 'evp'))]),
    'C04': dict(how='seeded histories mixing rejected and accepted calls against a reference model',
        note='Seeded search over histories.',
        classes=VALUE + ['bad-arg-accepted', 'no-error-object', 'context-set-on-fail', 'input-modified', 'error-print', 'not-nulled'] + MEM, jobs=[
        jobs('reject', 700, T('R', *ALL) + T('C', 'fbu') + T('A', 'fbu', 'evp', 'evpl', 'low'), 14, T('A', 'fbf', 'evp1') + T('T', 'fbu'))]),
    'C05': dict(how='seeded fault injection with a tracking allocator and crypto seam',
        note='Seeded search over failure points; accounting is exact for each run.',
        classes=['leak', 'not-nulled', 'context-set-on-fail'] + MEM, jobs=[
        jobs('faults', 150, T('R', *ALL) + T('A', 'fbu', 'evp') + T('T', 'fbu', 'evpl'), 14, T('A', 'fbf', 'low', 'evpl')),
        jobs('hmacfaults', 150, T('R', *ALL) + T('A', 'fbu', 'evp') + T('T', 'fbu', 'evpl'), 14, T('A', 'fbf', 'low', 'evpl')),
        jobs('outage', 40, T('R', *ALL), 14), jobs('oneshot', 150, T('T', 'fbu', 'evp'), 10), jobs('stream', 150, T('T', 'fbu', 'evp'), 10),
        jobs('crowd', 60, T('R', *ALL) + T('A', 'fbu', 'evp', 'evpl'), 14), jobs('many', 16, T('R', *ALL), 14)]),
    'C06': dict(how='seeded fault sequences followed by further use, against a reference model',
        note='Seeded search over fault sequences.',
        classes=VALUE + ['context-set-on-fail', 'not-nulled'] + MEM, jobs=[
        jobs('outage', 120, T('R', *ALL) + T('A', 'fbu', 'evp'), 14),
        jobs('stream', 60, T('R', 'fbu', 'evp'), 14),
        jobs('recover', 110, T('R', *ALL) + T('A', 'fbu', 'evp', 'evpl') + T('T', 'fbu'), 14, T('A', 'fbf', 'low') + T('C', 'fbu', 'evp'))]),
    'C07': dict(how='seeded histories with guard pages, instrumented memory accesses and AddressSanitizer builds',
        note='Seeded search; a stray access in an explored run is always detected outside red zones of 64 bytes or guard pages.',
        classes=['oob-*', 'input-modified'] + MEM, jobs=[
        jobs('stream', 260, T('A', *ALL) + T('T', 'fbu', 'fbf') + T('R', 'fbu', 'evp'), 14, T('C', 'fbu') + T('T', 'evp', 'low')),
        jobs('oneshot', 260, T('A', *ALL) + T('T', 'fbu', 'fbf') + T('R', 'fbu', 'evp'), 14, T('C', 'fbu') + T('T', 'evp', 'low')),
        jobs('lattice', 330, T('A', 'fbu', 'fbf'), 10),
        jobs('crowd', 60, T('A', *ALL), 14), jobs('many', 16, T('A', 'fbu', 'evp', 'low'), 14), jobs('large', 24, T('R', 'fbu', 'fbf'), 14),
        jobs('faults', 25, T('A', 'fbu', 'evp'), 14)]),
    'C08': dict(how='seeded preemptive schedules at memory access granularity with a vector clock race detector',
        note='Seeded search over schedules; race detection also covers reorderings of explored schedules. The crypto library itself is not instrumented.',
        classes=['race', 'no-error-object', 'leak', 'context-set-on-fail'] + VALUE + MEM, jobs=[
        jobs('threads', 460, T('T', *ALL), 22, T('A', 'fbu', 'evp'))]),
    'C09': dict(how='seeded HMAC runs with faults, every freed block scanned, optimised gcc and clang builds',
        note='Seeded search over keys, messages and faults. Stack and registers are outside the property.',
        classes=['secret-in-freed'], jobs=[
        jobs('secret', 300, T('O', *ALL) + T('C', *ALL), 16, T('A', 'fbu', 'evp')),
        jobs('residue', 200, T('O', *ALL) + T('C', *ALL), 16, T('A', 'fbu', 'evp'))]),
    'C10': dict(how='seeded simulated runs of the whole hmacsum program with short reads, buffer sizes and options, output against the reference digests',
        note='Seeded search over inputs, read patterns and options. libcfile, libcsplit and stdio are simulated.',
        classes=['wrong-line', 'success-without-digest', 'spurious-fail'] + MEM, jobs=[
        jobs('args', 200, T('R', 'fbu', 'fbn', sim='tool'), 14),
        jobs('plain', 900, T('R', *ALL, sim='tool') + T('C', 'fbu', sim='tool') + T('T', 'fbu', sim='tool'), 14, T('C', 'evp', sim='tool')),
        jobs('plain', 250, T('A', 'fbu', 'evp', sim='tool'), 14),
        jobs('sizes', 1400, T('R', 'fbu', 'evp', sim='tool'), 2, T('R', 'low', 'fbf', 'evp1', 'evpl', sim='tool')),
        jobs('manyreads', 6, T('R', 'fbu', 'evp', sim='tool'), 10),
        jobs('bigbuf', 6, T('R', 'evp', 'low', sim='tool'), 10)],
        giant=[('tool-evp-R', [0, 1], 'big'), ('tool-fbu-C', [0, 2], 'big')],
        giant_deep=[('tool-evp-R', list(range(6)), 'big'), ('tool-fbu-C', list(range(6)), 'big'), ('tool-low-R', list(range(3)), 'big')]),
    'C11': dict(how='seeded simulated runs of the whole hmacsum program with disk, allocation and crypto faults and truncated inputs',
        note='Seeded search over fault points found by profiling each run.',
        classes=['wrong-line', 'success-without-digest', 'spurious-fail'] + MEM, jobs=[
        jobs('fault', 240, T('R', *ALL, sim='tool') + T('C', 'fbu', sim='tool') + T('T', 'fbu', 'evpl', sim='tool'), 14),
        jobs('fault', 60, T('A', 'fbu', 'evp', sim='tool'), 14)]),
    'C12': dict(how='seeded simulated runs of the whole hmacsum program on an output that fills up or fails at chosen bytes',
        note='Seeded search over the failing byte, transient and permanent failures and stdio buffering modes.',
        classes=['success-lost-output', 'success-without-digest'] + MEM, jobs=[
        jobs('out', 500, T('R', 'fbu', 'evp', 'evpl', sim='tool') + T('C', 'fbu', sim='tool') + T('T', 'fbu', sim='tool'), 20, T('R', 'low', 'fbf', sim='tool')),
        jobs('out', 60, T('A', 'fbu', sim='tool'), 20)]),
    'C13': dict(how='seeded simulated runs of the whole hmacsum program with interrupts at chosen instructions, with faults',
        note='Seeded search over interrupt points: every memory access and call of the instrumented program is one.',
        classes=['late-stop', 'success-after-interrupt', 'wrong-line', 'success-without-digest', 'success-lost-output'] + MEM, jobs=[
        jobs('int', 260, T('T', 'fbu', 'evp', 'evpl', sim='tool'), 14, T('T', 'fbf', 'low', sim='tool')),
        jobs('int', 80, T('R', 'fbu', 'evp', 'evpl', sim='tool') + T('C', 'fbu', sim='tool'), 14),
        jobs('int', 20, T('A', 'fbu', sim='tool'), 14)]),
    'C14': dict(how='seeded simulated runs of the whole hmacsum program with faults and interrupts, exact accounting of every resource',
        note='Seeded search over failure and interrupt points; accounting is exact for each run.',
        classes=['leak'] + MEM, jobs=[
        jobs('fault', 200, T('R', *ALL, sim='tool') + T('T', 'fbu', 'evpl', sim='tool'), 14),
        jobs('int', 70, T('R', 'fbu', 'evp', 'evpl', sim='tool') + T('T', 'fbu', 'evp', sim='tool'), 14),
        jobs('out', 100, T('R', 'fbu', 'evp', sim='tool'), 14), jobs('plain', 200, T('R', 'fbu', 'evp', sim='tool'), 14), jobs('args', 200, T('R', 'fbn', 'fbu', sim='tool'), 14), jobs('fault', 40, T('R', 'fbn', sim='tool'), 14)]),
    'C15': dict(how='seeded call histories of the real Python module in a simulated CPython process against a reference model',
        note='Seeded search over histories, argument types and contents. Trusts the reference digests and CPython.',
        classes=['wrong-digest', 'wrong-value', 'spurious-fail', 'bad-arg-accepted', 'input-modified', 'value-and-exception', 'no-exception'] + MEM, jobs=[
        jobs('pyhist', 4000, T('R', *ALL, sim='py') + T('C', 'fbu', sim='py') + T('T', 'fbu', sim='py'), 30, T('T', 'evp', sim='py')),
        jobs('pyhist', 1200, T('A', 'fbu', 'evp', sim='py'), 20, T('A', 'low', sim='py')),
        jobs('pythreads', 40, T('R', 'fbu', 'evp', sim='py') + T('T', 'fbu', sim='py'), 25),
        jobs('pysweep', 90, T('R', 'fbu', sim='py'), 2, T('R', 'evp', 'low', sim='py')), jobs('pysweep', 45, T('R', 'evp', 'low', sim='py'), 4),
        jobs('pygiant', 20, T('R', 'evp', 'low', sim='py'), 10)]),
    'C16': dict(how='seeded fault injection at every allocation, crypto, memory and Python API call inside the Python module',
        note='Seeded search over failure points found by profiling each history. Failures inside CPython itself are limited to its allocators and to the API functions the module calls.',
        classes=['wrong-digest', 'wrong-value', 'spurious-fail', 'value-and-exception', 'no-exception', 'exception-lost'] + MEM, jobs=[
        jobs('pyfault', 480, T('R', *ALL, sim='py') + T('C', 'fbu', sim='py') + T('T', 'fbu', sim='py'), 25, T('T', 'evp', 'low', sim='py')),
        jobs('pyfault', 120, T('A', 'fbu', 'evp', sim='py'), 20, T('A', 'low', 'evpl', sim='py')),
        jobs('pyleak', 150, T('R', 'fbu', 'evp', sim='py'), 25)]),
    'C17': dict(how='seeded histories and faults with exact accounting of every allocation, context and reference, repeated rounds for growth',
        note='Seeded search over histories and failure points. References are counted on the arguments and None, and growth of interpreter memory over repeated rounds.',
        classes=['leak', 'refs'] + MEM, jobs=[
        jobs('pyleak', 450, T('R', *ALL, sim='py') + T('T', 'fbu', sim='py'), 25),
        jobs('pyfault', 110, T('R', *ALL, sim='py'), 25),
        jobs('pyhist', 800, T('R', *ALL, sim='py'), 25),
        jobs('pyleak', 60, T('A', 'fbu', 'evp', sim='py'), 20, T('A', 'low', 'evpl', sim='py'))]),
    'C18': dict(how='seeded schedules of threads at every lock hand-over and memory access, lock state checked at every Python API call and object access',
        note='Seeded search over schedules of up to four threads, with faults, on objects of their own and on shared objects.',
        classes=['gil', 'race', 'wrong-digest', 'wrong-value', 'spurious-fail'] + MEM, jobs=[
        jobs('pythreads', 600, T('T', *ALL, sim='py') + T('R', 'fbu', 'evp', sim='py'), 25),
        jobs('pythreads', 40, T('A', 'fbu', sim='py'), 25, T('A', 'evp', sim='py')),
        jobs('pyshare', 120, T('T', *ALL, sim='py') + T('R', 'fbu', 'evp', sim='py'), 25),
        jobs('pyshare', 25, T('A', 'fbu', sim='py'), 25, T('A', 'evp', sim='py'))]),
    'C19': dict(how='seeded command lines in many equivalent and invalid forms in simulated runs of the whole hmacsum program, against an independent reading of the command line',
        note='Seeded search over command lines, for both option parsers.',
        classes=['bad-option-accepted', 'info-fail', 'read-too-large', 'input-modified', 'wrong-line', 'success-without-digest', 'spurious-fail'] + MEM, jobs=[
        jobs('args', 700, T('R', 'fbn', 'fbu', 'fbf', 'evp', 'low', sim='tool') + T('C', 'fbn', sim='tool') + T('T', 'fbn', 'fbu', sim='tool'), 14, T('R', 'evp1', 'evpl', sim='tool')),
        jobs('args', 250, T('A', 'fbn', 'fbu', sim='tool'), 14), jobs('args', 400, T('R', 'fbv', sim='tool'), 14), jobs('args', 150, T('A', 'fbv', sim='tool'), 14),
        jobs('names', 2500, T('R', 'fbn', 'fbu', 'evp', sim='tool'), 14), jobs('names', 400, T('A', 'fbn', sim='tool'), 14),
        jobs('fault', 100, T('R', 'fbn', sim='tool') + T('T', 'fbn', sim='tool'), 14)]),
}

NOTES = ('Every check runs seeded simulations (VERIF_SEED) of the real code of /repo, rebuilt from its working tree, in forked processes under a deterministic scheduler and fault injector; '
         'replay.py FILE replays a reported plan. No hooks in /repo are needed: the seams are libc, OpenSSL, libcerror and libcfile symbols redirected at link time.')
NA = {}
