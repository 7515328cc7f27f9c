"""What each check runs: variants with their share of the time, tiers, and what its evidence states."""
COMMON_REAL = ['all of /repo/src (C sources, compiled from the working tree)', 'the public headers']
COMMON_STUB = ['memory: ledger allocator behind roaring_init_memory_hook',
               'CPU: croaring_hardware_support() masked by the simulator',
               'disk: in-memory images, torn/damaged/lost at crash']
BASE = ['sampled, not enumerated: a clean run is evidence for the plans executed',
        'the library sources are compiled by clang with NDEBUG; assertions are off',
        'x86-64 with AVX2/AVX-512 present; other architectures are not simulated']


def p(level, quick, thorough, variants, note, extra=(), **k):
    return dict(level=level, secs={'quick': quick, 'thorough': thorough}, variants=variants, note=note,
                assumptions=BASE + list(extra), **k)


THR_REAL = ['all of /repo/src (C sources, compiled from the working tree with an instrumentation callback at every memory access)',
            'the public headers, the reference-count operations of portability.h']
THR_STUB = ['threads: simulated tasks, one running at a time; a seeded scheduler switches at memory accesses, atomics, allocations or call boundaries',
            'memory: an arena that never hands an address out twice, behind roaring_init_memory_hook',
            'memcpy, memmove, memset, memcmp: replaced so that their accesses are seen too',
            'CPU: croaring_hardware_support() masked by the simulator, mostly to the portable code (vector intrinsics are seen as the accesses they make)']
THR = ['the memory model is sequential consistency plus happens-before race detection: weak-memory outcomes appear as reported races, not as wrong values',
       'a race is reported for the schedules executed; atomics and fences are modelled after C11']
T = [('thr', 1.0)]


H = [('hist', 1.0)]
PROPS = {
    'C01': p('exploration', 45, 900, T, 'threads working on copy-on-write copies under a seeded scheduler: race detection, each thread against its own set model, memory released exactly once', THR, real=THR_REAL, stub=THR_STUB),
    'C02': p('exploration', 45, 900, T, 'threads querying one unmodified bitmap or view under a seeded scheduler: inputs sealed against writes, race detection, each answer against the model', THR, real=THR_REAL, stub=THR_STUB),
    'C03': p('fault_enumeration', 45, 900, H, 'every allocation request of each swept call is refused in turn (and every suffix of them)'),
    'C04': p('exploration', 45, 900, H, 'damaged bytes from a simulated disk fed to every bounded reader, exact-bounds buffers under ASan'),
    'C05': p('fault_enumeration', 45, 900, H, 'every truncation point of each image built (bounded number of points for long ones)'),
    'C06': p('exploration', 45, 900, H, 'store/crash/restart histories against the set model and independent codecs'),
    'C07': p('exploration', 45, 900, H, 'each history executed on three simulated machines with different recycled memory'),
    'C08': p('exploration', 45, 900, [('hist', 0.85), ('hist-na', 0.15)], 'ledger allocator and bypass traps over whole histories'),
    'C09': p('exploration', 45, 900, H, 'refinement against a set of integers'),
    'C10': p('exploration', 45, 900, H, '64-bit refinement against a set of integers'),
    'C11': p('exploration', 45, 900, H, 'cursor machines against an ordered-set cursor'),
    'C12': p('exploration', 45, 900, H, 'deferred work interleaved arbitrarily against immediate set operations'),
    'C13': p('exploration', 45, 900, H, 'bitset histories against a set model, with seeded allocation refusals'),
    'C14': p('exploration', 45, 900, H, 'histories of the C++ classes against a set model, with refused requests (library and C++ runtime) and torn or damaged bytes', ['the C++ classes are compiled by clang++ as C++17 with AddressSanitizer']),
    'C15': p('exploration', 45, 900, H, 'internal validation plus an independent reader after every step'),
    'C16': p('fault_enumeration', 45, 900, H, 'every allocation request of the set-building and combining calls is refused in turn'),
    'C17': p('exploration', 45, 900, H, 'stored sizes of every container before and after compression, heap bytes before and after shrinking, against the set'),
    'C19': p('exploration', 45, 900, [('hist-am', 1.0)], 'the generated single-file distribution under the whole history simulator, and plan by plan against the separate build',
             ['the distribution is generated from a copy of the working tree without git metadata'],
             real=['the output of /repo/amalgamation.sh (roaring.c, roaring.h, roaring.hh)']),
    'C20': p('exploration', 45, 900, H, 'the same cycle of changes repeated up to 192 times, bytes held through the memory hook after 12, 24, 48, 96 and 192 cycles'),
}
