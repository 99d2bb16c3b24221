"""What each check builds and how long it searches."""
ALL = ['scalar', 'sse2', 'sse4', 'avx', 'avx2']

REAL = ['all code of Vc\'s headers and libVc sources reached by the workload, as compiled by gcc -O2 from the current '
        'tree (with a yield point before each access to possibly shared memory)']
STUB = ['thread scheduler (seeded)', 'system heap (malloc family)', 'cpuid/xgetbv/rdtsc']
ASSUME = ['memory accesses are interleaved at instruction granularity and sequentially consistent; store buffers and '
          'non-temporal write combining are not modelled',
          'gcc 13 -O2 code generation; other compilers may order accesses differently']


def prop(source, quick, thorough, level='exploration', impls=ALL, parts=(0,), **kw):
    d = dict(source=source, impls=list(impls), parts=list(parts), time=dict(quick=quick, thorough=thorough),
             level=level, real=REAL, stub=STUB, assumptions=ASSUME)
    d.update(kw)
    return d


PROPERTIES = {
    'C02': prop('c02.cpp', 70, 1500, parts=(0, 1, 2), more=[('sse4+bsf', 1), ('avx+popcnt', 0), ('sse4+popcnt', 0), ('avx2+popcnt', 1)],
                rule='one run = one seed: a type, an assignment of the elements of a window to 2-3 writers or nobody, '
                     'operations per writer, and a schedule over their instructions; counted distinct by the hash of '
                     'the sequence of (preempted instruction, thread) of the run, runs without a preemption count nothing'),
}
PROPERTIES['C01'] = prop('c01.cpp', 90, 1500, parts=(0, 1, 2, 3, 4, 5), batch=6,
                         rule='one run = one seed: 2-4 threads, 1-3 operations each (type, operation, operands, rounding '
                              'mode), same or different ones, cold or warm process, and a schedule over their '
                              'instructions; counted distinct by the hash of the sequence of (preempted instruction, '
                              'thread), runs without a preemption count nothing')
PROPERTIES['C11'] = prop('c01.cpp', 80, 1500, parts=(0, 1, 2, 3, 4, 5), batch=12, defines=['WAITFREE'],
                         rule='one run = one seed: 2-4 threads with 1-3 operations each; in three of four runs one thread '
                              'is suspended for ever after a drawn number of its own instructions while the others must '
                              'complete; counted distinct by the hash of the sequence of (preempted instruction, thread)')
PROPERTIES['C03'] = prop('c03.cpp', 70, 1500, parts=(0, 1, 2, 3, 4, 5), more=[('sse4+bsf', 2), ('avx+bsf', 0), ('avx+popcnt', 0), ('sse4+popcnt', 0), ('avx2+popcnt', 2)],
                         rule='one run = one seed: a vector type, a source type or structure size, a placement of the '
                              'elements against inaccessible pages, 1-3 threads that read, rewrite elements or unmap '
                              'unrequested pages, and a schedule over their instructions; counted distinct by the hash '
                              'of the sequence of (preempted instruction, thread)')
PROPERTIES['C04'] = prop('c04.cpp', 50, 1500, parts=(0, 1, 2, 3),
                         rule='one run = one seed: a value type, a window placed against inaccessible pages and cut into '
                              'segments owned by 1-3 threads, up to 7 calls or element writes with functors that modify, '
                              'throw or nest, and a schedule over their instructions; counted distinct by the hash of the '
                              'sequence of (preempted instruction, thread)')
PROPERTIES['C05'] = prop('c05.cpp', 30, 1500,
                         rule='one run = one seed: up to 12 allocations and deallocations of about 50 kinds in 1-3 threads, '
                              'sizes from 0 to beyond what can be represented, a failure plan of the simulated heap, throwing '
                              'constructors, and a schedule over their instructions; counted distinct by the hash of the '
                              'sequence of (preempted instruction, thread)')
PROPERTIES['C06'] = prop('c06.cpp', 40, 1500, parts=(0, 1, 2),
                         rule='one run = one seed: up to 20 operations in 1-3 threads on five objects of one kind of type '
                              '(Vc::Memory in nine shapes, or one of twelve containers of vectors), a failure plan of the '
                              'simulated heap, throwing element copies, and a schedule over their instructions; counted '
                              'distinct by the hash of the sequence of (preempted instruction, thread)')
PROPERTIES['C07'] = prop('c07.cpp', 40, 1500, batch=1,
                         rule='one run = one seed in a process of its own: a processor (vendor, leaves that exist, feature '
                              'bits, cache descriptions), an operating system (saved register state), up to 9 calls in 1-4 '
                              'threads that find the library uninitialised, and a schedule over their instructions; counted '
                              'distinct by the hash of the sequence of (preempted instruction, thread)')
PROPERTIES['C08'] = prop('c08.cpp', 30, 1500, parts=(0, 1),
                         rule='one run = one seed: 1-3 threads that print up to 8 objects (own or shared) to streams of five '
                              'kinds with drawn formatting, redirections and faults (short and refused writes, for once or for '
                              'ever, throwing buffers, failed flushes, terminals that hang up, streams already broken), and a '
                              'schedule over their instructions; counted distinct by the hash of the sequence of (preempted '
                              'instruction, thread)')
PROPERTIES['C09'] = prop('c09.cpp', 40, 1500, batch=24,
                         rule='one run = one seed: a state of the generators as some history leaves it, 1-4 threads with up to '
                              '10 groups of draws of one or several types (or one thread that draws while others do other '
                              'things), and a schedule over their instructions; counted distinct by the hash of the sequence of '
                              '(preempted instruction, thread)')
PROPERTIES['C10'] = prop('c10.cpp', 30, 1500, parts=(0, 1, 2),
                         rule='one run = one seed: 1-3 threads with up to 9 operations whose callbacks are logged call by call, '
                              'throw at a drawn call, use the library themselves or work on shared operands, and a schedule over '
                              'their instructions; counted distinct by the hash of the sequence of (preempted instruction, thread)')
