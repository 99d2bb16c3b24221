#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so that the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe,
         'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Value operations are reentrant, towards other threads and signal handlers',
     'Every operation on vectors, masks and private arrays - arithmetic, comparison, elementary functions, sorting, '
     'conversion, shuffling, reduction, gather, printing to a private stream - returns bit for bit what it returns '
     'when the program has a single thread, however its instructions interleave with the same or other operations in '
     'other threads, or are interrupted by a signal handler that itself uses such operations (printing excepted). That '
     'includes the first use of an operation in the process and a use from a static initialiser '
     'that runs before the library\'s own. No operation alters the floating-point control state (rounding mode, '
     'exception masks, flush-to-zero) of its thread.',
     ['schedules', 'inputs', 'programs'],
     'all interleavings, at instruction granularity, of any operations with any operands in 2-4 threads and of signal '
     'handlers on their stacks, from a cold or a warm process',
     'The test programs are single-threaded and compare values only: a scratch buffer, cache or lazily filled table '
     'shared between threads gives them the right answer every time.',
     ['Vc/common/vector.h', 'Vc/common/math.h', 'Vc/common/logarithm.h', 'Vc/common/exponential.h',
      'Vc/common/trigonometric.h', 'Vc/common/simdarray.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc',
      'Vc/scalar/vector.tcc', 'Vc/sse/math.h', 'Vc/avx/math.h', 'src/trigonometric.cpp', 'src/sse_sorthelper.cpp',
      'src/avx_sorthelper.cpp', 'src/const.cpp', 'Vc/IO'],
     [('operations keep all intermediate values in registers or automatic storage', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc'),
      ('constant tables are constant-initialised and read-only', 'src/const.cpp:1, Vc/sse/const_data.h, Vc/avx/const_data.h'),
      ('sorting networks and sincos work on locals', 'src/sse_sorthelper.cpp, src/trigonometric.cpp')],
     ['results and MXCSR control bits of each simulated thread against the same operation run alone'],
     [('constant tables', 'SIMD constants shared by all threads', 'src/const.cpp')])

prop('C02', 'A store changes exactly the selected elements, also against concurrent writers',
     'A full, masked, streaming or interleaved store, an assignment through a vectorised iterator, a scatter (masked or not, through a pointer, a subscripted '
     'container, a struct member or a nested array), and an element or vector assignment to a Memory object or '
     'vector give exactly the selected elements the new values. They never write any other element, not even with '
     'the value it already had: what another thread concurrently stores to a neighbouring or unselected element, '
     'including the tail of a partially selected vector, is never lost.',
     ['schedules', 'inputs', 'programs'],
     'all types, masks, index vectors, alignments, flags and target placements, and all interleavings with writers '
     'of the other elements',
     'A store implemented as load-blend-store leaves memory looking perfect in a single-threaded test; only a writer '
     'that gets in between load and store sees its own value disappear.',
     ['Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/avx/intrinsics.h', 'Vc/common/storeinterface.h',
      'Vc/common/scatterimplementation.h', 'Vc/common/scatterinterface.h', 'Vc/common/subscript.h',
      'Vc/common/interleavedmemory.h', 'Vc/common/interleave.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h',
      'Vc/common/memorybase.h', 'Vc/common/memory.h', 'Vc/common/simdarray.h', 'Vc/scalar/vector.tcc'],
     [('byte-masked store instructions instead of load-blend-store', 'Vc/sse/vectorhelper.h:59, Vc/avx/intrinsics.h:489'),
      ('scatter visits set mask bits one by one', 'Vc/common/scatterimplementation.h'),
      ('interleaved stores write whole or masked structs', 'Vc/sse/detail.h:860, Vc/avx/detail.h:1760')],
     ['every element of the shared array: its only writer must read back what it wrote last; margins and guard pages'])

prop('C03', 'Loads and gathers touch only what they are asked for',
     'A load, gather, interleaved load, vectorised iterator or container read accesses only the requested elements (an interleaved load, the whole of each requested structure): it succeeds when '
     'every unrequested byte around them is inaccessible or is unmapped or rewritten by other threads, and unselected '
     'lanes of a masked gather may carry any index. Each selected lane receives a value that its element held during '
     'the operation, never a mixture, a stale earlier value or another element\'s value; unselected lanes keep their '
     'old value. Prefetch hints never fault or change memory.',
     ['schedules', 'inputs', 'fault_sequences', 'programs'],
     'all types, masks, index vectors, alignments and placements against inaccessible pages, and all interleavings '
     'with writers of the elements',
     'Tests read from ordinary memory that is mapped on all sides and constant meanwhile; an over-read or a double '
     'read returns the expected value there.',
     ['Vc/common/gatherimplementation.h', 'Vc/common/gatherinterface.h', 'Vc/common/loadinterface.h',
      'Vc/common/subscript.h', 'Vc/common/interleavedmemory.h', 'Vc/common/deinterleave.h',
      'Vc/sse/deinterleave.tcc', 'Vc/avx/deinterleave.tcc', 'Vc/sse/detail.h', 'Vc/avx/detail.h',
      'Vc/common/x86_prefetches.h', 'Vc/common/memorybase.h', 'Vc/sse/casts.h', 'Vc/avx/vector.tcc'],
     [('masked gathers visit set mask bits one by one or use masked gather instructions', 'Vc/common/gatherimplementation.h'),
      ('loads are one vector load or element-wise', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc')],
     ['page faults in guarded memory; values of lanes against the set of values the element held'])

prop('C04', 'simd_for_each visits every element exactly once, in order, and nothing else',
     'simd_for_each and simd_for_each_n pass every element of the range to the functor exactly once, in sequence '
     'order, with the value it holds when its turn comes, whatever the length, alignment and kind of random access iterator, and write back exactly the range when the functor modifies its '
     'argument, nothing when it does not. They neither read nor write outside the range, so that disjoint sub-ranges '
     'can be processed concurrently and a range may end at an inaccessible page. When the functor throws, all '
     'elements of earlier calls are written back, no later element is touched, and the exception reaches the caller.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all lengths, offsets, element types, functors, partitions among threads, throwing call positions and interleavings',
     'The tests use a handful of lengths in one thread on a private, padded vector and never throw.',
     ['Vc/common/algorithms.h', 'Vc/common/simdize.h', 'Vc/common/interleave.h', 'Vc/common/loadstoreflags.h'],
     [('vector loop over whole vectors, then scalar loop over the rest', 'Vc/common/algorithms.h:70'),
      ('separate overloads for functors that do and do not modify', 'Vc/common/algorithms.h:66')],
     ['sequence of lanes the functor receives; array contents and surroundings afterwards'])

prop('C05', 'Aligned allocation: right, disjoint and leak-free, also when memory runs out',
     'Vc::malloc, Vc::Allocator, the aligned base classes\' new/delete and make_unique return storage with the promised '
     'alignment, size and padding that overlaps no live storage, from any thread, and freeing it returns exactly '
     'what was obtained. When the system refuses memory or the request is too large to represent, they report it the '
     'way their kind does - a null pointer from malloc, std::bad_alloc from allocators, new and make_unique - and '
     'never hand out too little storage, construct an object in no storage, or leak, also when a constructor throws.',
     ['fault_sequences', 'histories', 'schedules', 'inputs'],
     'all sequences of allocations and releases from several threads, all failure points, all sizes including those '
     'near the address-space limit, all placements the system allocator may choose',
     'Tests allocate a few times with a heap that never fails and is usually over-aligned by luck.',
     ['Vc/common/malloc.h', 'Vc/Allocator', 'Vc/common/alignedbase.h', 'Vc/common/macros.h', 'Vc/common/make_unique.h'],
     [('posix_memalign with rounded-up size', 'Vc/common/malloc.h:53'),
      ('over-allocation with the original pointer stored in front', 'Vc/Allocator:184'),
      ('class-level operator new/delete', 'Vc/common/macros.h:156')],
     ['returned pointers, simulated heap contents and balance, exceptions'])

prop('C06', 'Containers keep contents and storage through any history and allocation failure',
     'Vc::Memory of every dimension, Vc::vector and standard containers of vector types behave like an array of '
     'elements under any sequence of construction, copy, assignment, swap, element and vector access, growth and '
     'destruction. A failed allocation or throwing copy in that sequence surfaces as std::bad_alloc (or the thrown '
     'exception), leaves every existing object unchanged or at least destructible, accesses no memory outside the objects\' '
     'own, and leaks nothing; zero-sized objects are allowed. Padding entries behind the last element exist, are '
     'accessible, and read as zero until written.',
     ['histories', 'fault_sequences', 'inputs'],
     'all operation sequences over all sizes, with allocation failures and throwing element operations at every point',
     'Tests run fixed sequences on a heap that never fails, and never look at what lies behind an object.',
     ['Vc/common/memory.h', 'Vc/common/memorybase.h', 'Vc/Allocator', 'Vc/Memory', 'Vc/vector'],
     [('padded size computed from the vector size', 'Vc/common/memory.h:440'),
      ('last vector zeroed on construction', 'Vc/common/memory.h'),
      ('allocator used by std::vector', 'Vc/vector')],
     ['contents against a plain array model, heap balance, canaries and guard pages'])

prop('C07', 'CPU feature detection is correct for every CPU, OS and first-use race',
     'For every processor and operating system, what the library reports - supported implementation, extra '
     'instructions, cache sizes, line sizes, vendor, family - is exactly what the processor\'s identification data '
     'says, and an implementation or extension that needs operating-system support for wider registers is reported '
     'only when that support is enabled. The answer is the same at every call, also when the first calls come from '
     'several threads at once or when initialisation is repeated. Detection executes no instruction the processor '
     'does not have and consults no identification data the processor does not provide.',
     ['configurations', 'schedules'],
     'all identification data (vendors, leaf counts, feature bits, caches), OS register-state settings, and all '
     'interleavings of first calls',
     'A test sees the one CPU it runs on, from one thread, after static initialisation.',
     ['src/cpuid.cpp', 'Vc/cpuid.h', 'src/support_x86.cpp', 'Vc/support.h', 'Vc/common/support.h'],
     [('identification cached in static members', 'src/cpuid.cpp:126'),
      ('OS support checked before AVX is reported', 'src/support_x86.cpp:30')],
     ['return values of the query functions against an independent decoder of the simulated CPU'],
     [('CpuId::s_*', 'cached identification data', 'src/cpuid.cpp:34')])

prop('C08', 'Printing survives stream faults and keeps text exact',
     'Printing a vector, mask, SimdArray or Memory object to a stream emits the documented text of exactly its '
     'elements in order; when the stream fails after any number of characters, what arrived is a prefix of that text, '
     'the stream\'s state (or its exception, if enabled) reports the failure, and nothing else breaks. Printing does '
     'not change the printed object, respects and preserves the stream\'s formatting settings, and adds colour codes '
     'only if the stream is a terminal.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all types and values, stream settings, failure points and kinds (short write, error, exception), terminal or not',
     'The only stream tests print to a working string stream.',
     ['Vc/IO'],
     [('element-wise insertion into the stream', 'Vc/IO:118'), ('terminal detection before colour codes', 'Vc/IO:50')],
     ['characters that reach the stream buffer, stream state, exceptions'])

prop('C09', 'Random numbers stay in range and reproducible under concurrency',
     'Random floating-point vectors always lie in [0, 1) lane by lane and random integer vectors are valid values, '
     'however calls in several threads interleave and from the very first call. In a program with one thread the '
     'sequence is a fixed function of the starting state: the same program prints the same numbers. Concurrent '
     'callers may obtain equal draws but never derail the generator: it continues along the same sequences afterwards.',
     ['schedules', 'histories'],
     'all interleavings of calls of all types in 2-4 threads and all call histories',
     'Tests draw from one thread and check ranges and a rough distribution.',
     ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/sse/math.h', 'src/const.cpp',
      'Vc/common/data.h'],
     [('linear congruential state shared in memory, whole-vector load and store', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc'),
      ('mantissa filled and 1 subtracted', 'Vc/sse/vector.tcc')],
     ['values returned to each simulated thread, generator state afterwards'],
     [('RandomState', 'generator state', 'src/const.cpp')])

prop('C10', 'User callbacks run once per (active) lane, in order, also when they throw',
     'generate (of vectors and masks), fill from a generator, call, apply, their masked forms and SimdArray '
     'counterparts, loops over where(mask) and loops over the lanes of a vector or mask invoke the '
     'callback exactly once for each (active) lane, in lane order, with that lane\'s value or index, and put each '
     'result in its lane, leaving inactive lanes alone; callWithValuesSorted passes each distinct value '
     'once, in ascending order. When the callback throws at any call, the exception '
     'propagates, no further call is made, and objects the operation was not assigning to are unchanged. Callbacks '
     'may themselves use the library.',
     ['inputs', 'fault_sequences', 'schedules', 'programs'],
     'all types, masks, callbacks, throwing positions and interleavings with other threads',
     'Tests use pure callbacks that never throw and whose call order and count is not observable.',
     ['Vc/common/vector.h', 'Vc/common/generalinterface.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc',
      'Vc/scalar/vector.h', 'Vc/common/simdarray.h', 'Vc/sse/mask.h', 'Vc/common/bitscanintrinsics.h',
      'Vc/common/iterators.h', 'Vc/common/elementreference.h'],
     [('loop over lanes or over set mask bits', 'Vc/common/generalinterface.h, Vc/common/bitscanintrinsics.h')],
     ['call log of the callback, results, operands afterwards'])

prop('C11', 'Value operations never wait for another thread',
     'Every vector, mask, math, sort, load, store, gather and scatter operation completes within a bounded number of '
     'its own instructions, whatever other threads do or fail to do - including a thread that is suspended for ever '
     'in the middle of the same operation - and makes no heap allocation and takes no lock. Exempt are printing, '
     'allocation and the first processor-feature query.',
     ['schedules', 'fault_sequences', 'programs'],
     'all operations, operands, and all points at which another thread may be suspended',
     'A lock or a retry loop costs nothing noticeable in a single-threaded test.',
     ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/common/math.h', 'src/trigonometric.cpp', 'src/sse_sorthelper.cpp',
      'src/avx_sorthelper.cpp', 'Vc/common/bitscanintrinsics.h', 'Vc/common/simdarray.h'],
     [('no shared state, no locks, loops bounded by the number of lanes', 'throughout')],
     ['own steps per operation while another simulated thread is stalled; allocation and lock calls'])

# -------------------------------------------------------- not decidable by simulation
NA = [
    ('C12', 'Lane-wise arithmetic equals scalar arithmetic',
     'For every element type, implementation and operand, an arithmetic, bitwise, shift or comparison operator on '
     'vectors gives in each lane what the scalar operator gives for that lane\'s operands, and masked forms change only active lanes.',
     ['Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/scalar/vector.h', 'Vc/common/operators.h', 'Vc/common/simdarray.h']),
    ('C13', 'Elementary functions stay within their documented error',
     'For every finite argument, elementary functions (square root, reciprocal, exponential, logarithms, trigonometric '
     'functions, rounding, frexp and ldexp) are within their documented error of the exact value and handle infinities, NaN and zeros as documented.',
     ['Vc/common/logarithm.h', 'Vc/common/exponential.h', 'Vc/common/trigonometric.h', 'Vc/sse/math.h', 'Vc/avx/math.h']),
    ('C14', 'Conversions preserve values',
     'simd_cast, vector and mask conversions and loads or stores with conversion give each lane the value the '
     'corresponding scalar conversion gives, for every pair of types and widths, and keep mask truth values.',
     ['Vc/common/simd_cast.h', 'Vc/sse/simd_cast.h', 'Vc/avx/simd_cast.h', 'Vc/scalar/simd_cast.h']),
    ('C15', 'Reductions, sorting and permutations are exact rearrangements',
     'Sorting yields the ascending permutation of the lanes; rotate, shift, reverse, interleave and shuffle move each '
     'lane to its documented place; sums, products, minima and maxima combine every lane exactly once.',
     ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'src/sse_sorthelper.cpp', 'src/avx_sorthelper.cpp']),
    ('C16', 'Masks are consistent with their lanes',
     'all, any, none and part-wise tests, counts, first-set positions, conversion to bits and boolean operators of a mask agree with its lanes for every mask.',
     ['Vc/sse/mask.h', 'Vc/avx/mask.h', 'Vc/scalar/mask.h', 'Vc/common/simdmaskarray.h']),
    ('C17', 'simdize maps scalar types to vector types faithfully',
     'A simdized template instance has the same members as the scalar one, each widened, and element extraction, assignment and swap agree with scalar objects for every supported template.',
     ['Vc/common/simdize.h']),
    ('C18', 'All implementations agree',
     'The same source built for scalar, SSE, AVX and AVX2 targets gives the same results lane by lane for every program that does not depend on the vector width.',
     ['Vc/vector.h', 'Vc/common/vectorabi.h', 'Vc/global.h']),
    ('C19', 'Translation units with different targets link without mixing implementations',
     'Objects compiled for different instruction sets and different library versions can be linked into one program without sharing incompatible symbols or types.',
     ['Vc/version.h', 'Vc/global.h', 'src/const.cpp']),
]
for id, t, s, files in NA:
    prop(id, t, s, ['inputs', 'configurations'], 'all operand values, types and targets',
         'Tests sample operands; the operation is a pure function of its operands.',
         files, [('intrinsics per implementation', files[0])], ['return values'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
