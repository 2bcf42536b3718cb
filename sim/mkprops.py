#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
CTX = ['libhmac/libhmac_%s_context.c' % a for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha512')]
ONE = ['libhmac/libhmac_%s.c' % a for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha512')]
PYC = ['pyhmac/pyhmac_%s_context.c' % a for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha512')]
PYO = ['pyhmac/pyhmac_%s.c' % a for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha512')]
TOOL = ['hmactools/hmacsum.c', 'hmactools/sum_handle.c', 'hmactools/digest_hash.c', 'hmactools/hmactools_output.c', 'hmactools/hmactools_signal.c']
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))


prop('C01', 'Streaming digests equal the standard digest for every way of chunking',
     "Feeding any byte sequence to an MD5, SHA-1, SHA-224, SHA-256 or SHA-512 context in any number of updates of any sizes (including empty ones, and totals beyond 2^29 and 2^32 bytes) and then finalizing it yields exactly the digest the "
     "standard defines for the concatenated bytes. Any number of contexts of any of the algorithms may be in use at once, with their calls interleaved in any order, without affecting each other's digests. This holds for every back end the "
     "library can be built with (its own code with or without unrolled loops, and each OpenSSL interface) and for the deprecated function names.",
     ['inputs', 'histories', 'configurations'], 'all byte strings, all partitions into updates, all interleavings of several contexts, all build configurations',
     'The unit tests feed one or two fixed buffers per algorithm in one or two updates, on one context, in one configuration; the partial block logic depends on the whole sequence of chunk sizes and the length field on totals no test reaches.',
     CTX + ['libhmac/libhmac_deprecated.c', 'libhmac/libhmac_byte_stream.h', 'libhmac/libhmac_bit_rotate.h'],
     [('block buffer completion and remainder handling in update', 'libhmac_*_context_update'), ('padding and 64/128-bit length in finalize', 'libhmac_*_context_finalize'), ('compression function', 'libhmac_*_context_transform'), ('EVP and low level calls', 'libhmac_*_context_*')],
     [('block, block_index', 'bytes not yet compressed', 'libhmac_internal_*_context_t'), ('hash_count', 'bytes compressed so far, becomes the length field', 'libhmac_internal_*_context_t'), ('hash_values', 'chaining value', 'libhmac_internal_*_context_t')],
     ['return values and output buffers of libhmac_*_context_*'])
prop('C02', 'One-shot digests and HMACs are right for every key, message and history',
     'A one-shot digest or HMAC call that reports success has written exactly the value that the digest standard, or RFC 2104 on top of it, defines for the given message and key, for keys of every length (empty, shorter than, equal to and longer '
     'than the block, hashed ones included). The result does not depend on earlier calls, on what fresh memory happened to contain, or on failures of other calls. A call with acceptable arguments succeeds when nothing it depends on fails.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all messages, keys and call histories, all contents of uninitialised memory, all back ends',
     'The tests use a handful of RFC vectors with two or three key lengths, on zeroed fresh heaps; a bug in one key length range or one that reads uninitialised memory passes them.',
     ONE + CTX, [('key padding or hashing, inner and outer pass', 'libhmac_*_calculate_hmac'), ('one context per pass', 'libhmac_*_calculate')], None, ['return value and output buffer of libhmac_*_calculate, libhmac_*_calculate_hmac'])
prop('C03', 'A failure inside a call is reported, never passed off as a result',
     'When an allocation, a memory operation or a crypto library call fails inside a library call, that call either still delivers exactly the right result and reports success with no error set, or returns -1 with an error object set (unless that '
     'object itself cannot be allocated). A creation call that fails leaves the handle null. No digest or HMAC that differs from the standard value is ever delivered as a success.',
     ['fault_sequences', 'histories', 'configurations'], 'every fault point in every call of every history, several faults per history, all back ends',
     'The tests run with working memory and crypto (the few injected failures cover the first allocation of an initialise call); failures in the middle of an HMAC, in the second context or in clean up are never reached.',
     CTX + ONE + ['libhmac/libhmac_error.c', 'libhmac/libhmac_deprecated.c'], [('check of every call, goto on_error', 'all functions'), ('propagation of the result of nested calls', 'libhmac_*_calculate*')], None, ['return values, error objects, output buffers'])
prop('C04', 'Rejected calls return an error and change nothing',
     'A call with a null handle or buffer, a creation call on a handle that is already set, a size above the largest signed size, or an output buffer smaller than the digest is rejected with -1 and an error object. A rejected call leaves the '
     'context it was given as usable as before: continuing with it gives the digest of exactly the accepted updates. It changes no handle and no input.',
     ['histories', 'inputs', 'configurations'], 'every sequence mixing accepted and rejected calls, every position, all back ends',
     'The tests check that bad arguments return -1 but never go on using the context afterwards, so state damaged before the check (or an argument check that comes too late) is invisible.',
     CTX + ONE + ['libhmac/libhmac_deprecated.c'], [('argument checks before any state change', 'start of every public function')], None, ['return values, later digests of the same context'])
prop('C05', 'Every resource is released exactly once',
     'Everything the library acquires (heap memory, crypto library contexts, error objects) is released exactly once: a one-shot call has given back all it took when it returns, whether it succeeds or fails at any point, a failed creation keeps '
     'nothing, and freeing a context gives back all that context holds. Freeing a context or an error object sets the pointer of the caller to null. Freeing a handle that is already null succeeds and does nothing. Nothing is used after it was released.',
     ['fault_sequences', 'histories', 'configurations'], 'every path through every call with failures at any combination of points, all back ends',
     'The tests do not count allocations and reach few failure paths; a leak or double release on the path after the n-th failing call has no visible effect in them.',
     CTX + ONE, [('on_error blocks, handles set to NULL after release', 'libhmac_*_context_initialize, _free, libhmac_*_calculate*')], None, ['tracked allocator, EVP context count, error object count'])
prop('C06', 'After a failure the library keeps working',
     'A call that fails because memory or the crypto library failed damages nothing else: all other contexts continue to the right digests, and once the resource is back, however often calls failed before, repeating the failed creation or one-shot call succeeds with the right '
     'result. A context whose update or finalize failed can always be freed safely. Using a context again after it was finalized may fail, but damages nothing and affects no other context.',
     ['fault_sequences', 'histories', 'configurations'], 'histories with one to several failures followed by arbitrary further calls, all back ends',
     'No test continues after an injected failure with anything but a free.',
     CTX + ONE, [('no process wide state except constant tables', 'libhmac_*_context.c'), ('failure paths confined to the object at hand', 'on_error blocks')], None, ['results of the calls after the failure'])
prop('C07', 'The library touches only the memory it was given',
     'A call reads only the stated bytes of its message and key buffers and writes only the leading digest-size bytes of its output buffer, for every size, alignment and neighbourhood, on success and on failure. It never modifies its inputs, and '
     'nothing refers to a caller\'s buffer after the call has returned. Its own heap blocks and tables are never accessed outside their bounds.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all sizes and alignments of all buffers, all chunk histories, all back ends',
     'An access one byte beyond a buffer is invisible in the tests: their buffers are static arrays with readable neighbours, and only a few sizes are used.',
     CTX + ONE + ['libhmac/libhmac_byte_stream.h'], [('loop bounds against the remaining size', 'libhmac_*_context_update, _transform'), ('hash_size check, copies of fixed size', 'libhmac_*_context_finalize')], None,
     ['guard pages around every buffer, instrumented accesses, AddressSanitizer builds'])
prop('C08', 'Threads using different contexts do not affect each other',
     'Concurrent calls from any number of threads that do not use the same context at the same time give the same results as if each ran alone, however they are preempted. There is no data race on heap or static memory among such calls. A context may '
     'be handed from one thread to another between calls.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'], 'every interleaving, at the granularity of single memory accesses, of calls by up to four threads on contexts of their own, all back ends',
     'The tests are single threaded.',
     CTX + ONE, [('all mutable state lives in the context or on the stack; static data is constant', 'libhmac_*_context.c')], None, ['results per thread, race detector over all memory accesses'])
prop('C09', 'HMAC keys do not survive in freed heap memory',
     'When an HMAC call returns, successfully or because memory or the crypto library failed part way, no heap memory it released still contains bytes of the key, of the hashed key or of the padded keys derived from it. This holds in optimised builds.',
     ['inputs', 'fault_sequences', 'configurations'], 'all key lengths, all failure points, optimised builds of two compilers, all back ends',
     'No test looks at freed memory, and compilers remove clearing code that the source shows.',
     ONE + CTX + ['common/memory.h'], [('clearing of key data and paddings before free', 'libhmac_*_calculate_hmac'), ('clearing that the optimiser cannot remove', 'common/memory.h')], None, ['contents of every block at the time it is freed'])
prop('C10', 'hmacsum prints the right digests however its input is delivered',
     'When a run that was given a source (and not -h or -V) exits with success, hmacsum has printed exactly one line for MD5 and one for each digest type selected on the command line, each with the lower case hexadecimal digest of exactly the bytes of its input, whatever sizes the individual reads return and whatever '
     'read buffer size is chosen. If nothing fails it does exit with success.',
     ['inputs', 'schedules', 'histories'], 'all input sizes, all sequences of short reads, all buffer sizes and type selections',
     'There is no test that runs hmacsum with short reads or chosen buffer sizes; in this build the tools are not run at all.',
     TOOL, [('read loop with remaining size', 'sum_handle_process_input'), ('update of every selected context', 'sum_handle_update_integrity_hash'), ('hex conversion and printing', 'digest_hash_copy_to_string, sum_handle_hash_values_fprint')],
     [('calculate_md5 .. calculate_sha512', 'selected types', 'sum_handle_t'), ('processing buffer size', 'bytes per read', 'sum_handle_t')], ['standard output and exit status'])
prop('C11', 'hmacsum never presents a wrong digest after an input or resource failure',
     'If opening the input, determining its size, reading it, allocating memory or a crypto call fails, or the input ends before its stated size, hmacsum exits with failure after a bounded number of reads, unless every requested line is '
     'nevertheless printed and right. Every digest line it prints in any run is the digest of the whole input.',
     ['fault_sequences', 'inputs', 'schedules'], 'failures at any call, truncated inputs, any short read pattern, any combination with the options',
     'No test makes an input call of the tool fail.',
     TOOL, [('check of read counts and sizes', 'sum_handle_process_input'), ('result propagation to the exit status', 'hmacsum main')], None, ['standard output, exit status, number of reads'])
prop('C12', 'hmacsum reports success only if its output was delivered',
     'hmacsum exits with success only if every digest line was completely accepted by standard output; if writing any of them fails or is cut short (full disk, closed pipe), it exits with failure.',
     ['fault_sequences', 'inputs'], 'an output failure at any byte of the output, permanent or transient, any buffering',
     'No test runs the tool on an output that fails.',
     TOOL, [('check of output calls', 'sum_handle_hash_values_fprint'), ('unbuffered standard output', 'hmactools_output_initialize')], None, ['bytes accepted by standard output, exit status'])
prop('C13', 'An interrupt stops hmacsum promptly and cleanly at any moment',
     'If hmacsum receives an interrupt signal while it processes its input, it stops after at most one more read and exits with failure without printing a digest of partial data; once an interrupt has been handled, success is never reported with lines missing or wrong. An interrupt at any other moment of the run, start up and '
     'clean up included, never causes a crash, a use of released memory, an endless run or a wrong digest line.',
     ['schedules', 'crash_points', 'inputs'], 'a signal before any instruction that touches memory or calls out, one or more per run, combined with short reads and failures',
     'The tests send no signals, and the failing windows are a few instructions wide.',
     TOOL, [('abort flags polled in the loop', 'hmacsum_abort, sum_handle->abort'), ('handler calls signal_abort and closes standard input', 'hmacsum_signal_handler'), ('attach and detach', 'hmactools_signal_attach, _detach')],
     [('hmacsum_sum_handle', 'handle the signal handler dereferences', 'hmacsum.c'), ('hmacsum_abort', 'abort requested', 'hmacsum.c')], ['standard output, exit status, reads after the signal, memory'])
prop('C14', 'hmacsum releases everything it acquired on every path',
     'Whichever way a run of hmacsum ends normally (success, any failure, abort), every block of memory, file, list of split strings, error object and crypto context it acquired has been released exactly once.',
     ['fault_sequences', 'schedules', 'inputs'], 'all failure points and combinations, aborts at any moment, all options',
     'No test counts what the tool releases.',
     TOOL, [('on_error paths, free functions', 'hmacsum main, sum_handle_free, sum_handle_initialize, sum_handle_set_digest_types')], None, ['tracked allocator, file, list and error object counts at exit'])
prop('C15', 'The Python bindings return the right digests for every history',
     'For every sequence of creating context objects, updating, finalizing and dropping them, and of one-shot digest and HMAC calls, with bytes of any content and length, the Python module returns bytes objects equal to what the standards define. Bad argument types and misuse raise Python exceptions and affect no other '
     'object.',
     ['inputs', 'histories', 'schedules'], 'all data, keys and call sequences on any number of objects, from one or several threads',
     'The Python tests use one fixed input per algorithm and are not run in this build.',
     PYC + PYO + ['pyhmac/pyhmac.c'], [('argument parsing and conversion', 'pyhmac_*_context_update, pyhmac_*_calculate*'), ('result object of digest size', 'pyhmac_*_context_finalize')], None, ['values and exceptions seen by Python code'])
prop('C16', 'A failure inside the Python bindings becomes a Python exception',
     'If memory, the crypto library or the Python runtime fails inside a call of the module, the call raises an exception (never returns a wrong value, never returns without either a value or an exception) and never crashes the interpreter. Afterwards the module '
     'and all other objects continue to work correctly.',
     ['fault_sequences', 'histories'], 'failures at any point of any call, in any history',
     'The tests run without failures.',
     PYC + PYO + ['pyhmac/pyhmac.c', 'pyhmac/pyhmac_error.c'], [('result checks and pyhmac_error_raise', 'all methods'), ('error indicator handling', 'pyhmac_error.c')], None, ['return values, exceptions, later results'])
prop('C17', 'The Python bindings neither leak nor over-release objects and memory',
     'After any call of the module, successful or failing, and after dropping an object, the module holds no memory, context or reference it held only for that call or object: reference counts of all objects involved, None included, are what they were, and repeated use does not grow memory.',
     ['histories', 'fault_sequences'], 'all call sequences incl. repeated initialisation, failures at any point',
     'The tests do not look at reference counts or memory growth.',
     PYC + PYO + ['pyhmac/pyhmac.c', 'pyhmac/pyhmac_error.c'], [('one owner per reference', 'all methods'), ('tp_dealloc frees the library context', 'pyhmac_*_context_free')], None, ['reference counts, tracked allocations after each step'])
prop('C18', 'The Python bindings use the interpreter lock correctly under threads',
     'Module code touches Python objects only while its thread holds the interpreter lock, releases and re-acquires it in pairs on every path, and keeps the buffers it works on alive meanwhile. Threads that use different objects get the right results however they are switched where the lock is released; calls of several threads on one object take effect one after another, or are refused with an exception while another one is under way, and never corrupt its digest or the process.',
     ['schedules', 'histories', 'fault_sequences'], 'all switches at points where the lock is released or taken, up to four threads, with failures',
     'The Python tests are single threaded.',
     PYC + PYO, [('Py_BEGIN_ALLOW_THREADS / Py_END_ALLOW_THREADS around library calls only', 'all methods')], None, ['lock state at every Python API call, results per thread'])
prop('C19', 'hmacsum does exactly what its command line says',
     'Every way of writing the same options (grouped, with attached or separate arguments, repeated with the last one counting, in any order, with -- before the source) has the same effect; the source is opened for reading exactly as it was named and '
     'nothing else is opened, and no read asks for more than the selected process buffer size. An unknown option, a missing option argument or a missing source ends the run with failure, and -h or -V prints its text and ends it with success, '
     'in either case without opening any input or printing any digest. This holds with the option parser of the C library and with the one of the program, no type name that is not one of the known ones selects anything, and no argument is read beyond its end or changed.',
     ['inputs', 'configurations', 'fault_sequences'], 'all command lines, both option parsers, all inputs and read patterns, with failures on the way',
     'The tests never run hmacsum with options, and the parser of the program is not even compiled where getopt exists.',
     TOOL + ['hmactools/hmactools_getopt.c', 'hmactools/byte_size_string.c'], [('option loop and order of actions', 'hmacsum main'), ('own option parser', 'hmactools_getopt'), ('type names and sizes', 'sum_handle_set_digest_types, byte_size_string_convert')],
     [('optind, optarg, next_option', 'position in the command line', 'hmactools_getopt.c')], ['arguments of open and read, standard output, exit status'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
