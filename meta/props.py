VG = ('static value-graph (GVN-style) equivalence: compiled templates in gated SSA, rational-function / BDD normal forms, against '
      'independent definitions')
VGNOTE = ('Every obligation is decided for all inputs from the normal form of the compiled expression, with no execution of the code; floating point is '
          'interpreted over the reals (rounding, overflow and NaN propagation are outside), integers exactly modulo 2^w. Trusted: clang 18 front end and -O2, '
          'the irdump tool, the normal-form library in lib/. An obligation that cannot be normalised is reported as undecided, never as a violation. ')
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=VG, note=VGNOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[f if f.startswith('src/') else 'include/muu/' + f for f in files],
                      mech=mech, technique=technique, note=note, **kw))


P('M01', 'Vector operations equal their componentwise definitions in every dimension',
  'Every vector operation (construction, conversion, element access, swizzle, comparison, arithmetic, dot, cross, length, distance, normalize, direction, angle, '
  'min, max, clamp, lerp, abs, ceil, floor) returns exactly the mathematical componentwise or Euclidean result for every dimension and every ordinary scalar '
  'input, up to rounding. The run-time and the constant-evaluation implementation of an operation agree with each other, and in-place forms agree with '
  'the forms that return a value, also when an operand is the object itself.',
  ['inputs', 'configurations'], 'all finite scalar values, dimensions 1-6, float/double/int, both evaluation branches',
  'unit tests sample a few random vectors per dimension with tolerances; a wrong lane, sign or branch that needs a particular dimension or sign combination is not sampled',
  ['vector.h', 'impl/vector_base.h'],
  [('one fold/loop per operation with an unrolled branch for dimensions up to 4', 'vector.h: raw_* and public members')])

P('M02', 'Matrix operations and transforms equal their linear-algebra definitions',
  'Every matrix operation (construction, row/column access, arithmetic, products with matrices and vectors, transpose, determinant, inverse, '
  'orthonormalize, equality and tolerance comparison) returns the textbook linear-algebra result for every size, up to rounding. The translation, '
  'scale, rotation and perspective constructors, the latter in left- and right-handed and in both depth conventions, produce the matrices that their parameters define, '
  'and the accessors that read a transform back (translation, scale, axes, rotation part) return those parameters.',
  ['inputs', 'configurations'], 'all finite scalar inputs, square sizes 1-6 and rectangular shapes, float/double/int',
  'a determinant or inverse has up to 120 signed terms and the tests check a handful of matrices; no test covers the perspective projections',
  ['matrix.h', 'impl/matrix_base.h'],
  [('hard-coded cofactor expansions', 'matrix.h: determinant, invert'), ('projection constructors', 'matrix.h: ortho/perspective')])

P('M03', 'Quaternion, axis-angle, Euler and matrix forms describe the same rotation',
  'Quaternion algebra (product, conjugate, dot, equality, normalization, spherical interpolation, scaling of a rotation by a factor) follows the Hamilton definitions with no '
  'input-dependent exception. Every conversion between quaternions, axis-angle pairs, Euler angles and rotation matrices maps to the same rotation as the defining formula, '
  'and rotating a vector by any of the forms gives the rotated vector, up to rounding.',
  ['inputs', 'configurations'], 'all finite inputs of each form (unit-length where the documentation requires it), float and double',
  'the conversions have branches per dominant component and per gimbal-lock case; tests exercise a few angles with tolerances',
  ['quaternion.h', 'axis_angle.h', 'euler_angles.h', 'impl/quaternion_x_matrix.h'],
  [('Hamilton product and sandwich product', 'quaternion.h'), ('branching matrix-to-quaternion conversion', 'impl/quaternion_x_matrix.h')])

P('M04', 'Bounding-box queries and edits equal their interval definitions',
  'A bounding box (axis-aligned, center and half sizes) built from a center, corner pair, point set or sphere encloses exactly those inputs, and its corner, size, volume, mass and '
  'density accessors return the corresponding interval quantities, up to rounding. Containment and intersection with points, point sets, spheres, line segments, planes and other '
  'boxes are true exactly when the sets described by their intervals satisfy them; merging (append), translating, scaling and transforming give the smallest box that encloses the result; '
  'equality and tolerance comparisons are componentwise.',
  ['inputs', 'configurations'], 'all finite coordinates with non-negative half sizes, float and double',
  'a wrong axis, sign or corner matters only for particular relative positions of the two shapes; unit tests check a few of them',
  ['bounding_box.h', 'impl/geometry_common.h', 'impl/bounding_box_x_bounding_sphere.h', 'impl/bounding_box_x_line_segment.h', 'impl/bounding_box_x_plane.h'],
  [('per-axis interval comparisons', 'impl/geometry_common.h: aabbs_common'), ('constructors and append', 'bounding_box.h')])

P('M05', 'Sphere, plane, ray, segment, triangle and oriented-box queries are exact',
  'The queries of bounding spheres, planes, rays, line segments, triangles and oriented boxes (sizes, areas, volumes, normals, distances, projections, closest points, barycentric coordinates, containment, '
  'coplanarity) and the intersection tests of segments and spheres and the ray-hit tests against these shapes return what the defining formula of the shape gives for every ordinary input, up to rounding. Ray hits report the non-negative distance along the ray to the nearest intersection, '
  'a transformed or translated shape is the image of the shape, and equality and tolerance comparisons are componentwise.',
  ['inputs', 'configurations'], 'all finite non-degenerate shapes, float and double',
  'the predicates branch on relative positions (inside/outside, in front/behind, which feature is closest); half of the pairs have no unit test at all',
  ['bounding_sphere.h', 'plane.h', 'ray.h', 'line_segment.h', 'triangle.h', 'oriented_bounding_box.h', 'sat_tester.h', 'impl/geometry_common.h', 'impl/ray_x_plane.h',
   'impl/ray_x_bounding_box.h', 'impl/ray_x_bounding_sphere.h', 'impl/ray_x_triangle.h', 'impl/plane_x_line_segment.h', 'impl/oriented_bounding_box_x_bounding_sphere.h', 'impl/oriented_bounding_box_x_line_segment.h'],
  [('shared predicate implementations', 'impl/geometry_common.h'), ('separating axis projections', 'sat_tester.h')])

BITNOTE = ('Every obligation is decided exactly, for all inputs, by comparing canonical bit-level forms (BDDs) of the compiled expressions, with no execution of the code. '
           'Trusted: clang 18 front end and -O2, the irdump tool, the normal-form library in lib/. ')

P('B01', 'Bit-counting functions are exact for every width, at run and compile time',
  'popcount, has_single_bit, countl_zero, countl_one, countr_zero, countr_one and bit_width return the number their names describe for every value of every unsigned integer type '
  'and every enum, zero and all-ones included. The constant-evaluation implementation returns the same number as the run-time one.',
  ['inputs', 'configurations'], 'all values of 8- to 128-bit unsigned integers and enums, run-time and constant-evaluation branch',
  'the tests run one of the branches on random samples; the value space is 2^64 or larger',
  ['bit.h', 'popcount.h', 'countl.h', 'countr.h'],
  [('intrinsics with a fallback loop for constant evaluation', 'popcount.h, countl.h, countr.h')], note=BITNOTE)

P('B02', 'Bit and byte rearranging functions place every bit where documented',
  'bit_ceil, bit_floor, bit_fill_left, bit_fill_right, bit_pack, bit_cast, byte_reverse, byte_select, swizzle and apply_alignment move every bit of their operands to the documented '
  'position and clear all others, for every value of every supported integer and enum type, also for out-of-range counts and indices. The constant-evaluation implementation agrees with the run-time one.',
  ['inputs', 'configurations'], 'all values, counts and indices; all unsigned widths, enums and signed inputs; both evaluation branches',
  'a shift by the full width, a sign extension or a saturating count is reached only by particular values',
  ['bit_ceil.h', 'bit_floor.h', 'bit_fill.h', 'bit_pack.h', 'bit_cast.h', 'byte_reverse.h', 'bit.h', 'apply_alignment.h'],
  [('shift-and-mask expressions per width', 'the listed headers')], note=BITNOTE)

P('B03', 'A tagged pointer never lets its tag and its address disturb each other',
  'A tagged_ptr returns exactly the address and the tag last stored in it, whatever the tag value or type and whatever sequence of construction, reset, pointer assignment, tag assignment, '
  'tag-bit edit and clearing led there. Tags keep their full bit range up to max_tag and comparisons see exactly the documented parts.',
  ['inputs', 'histories', 'configurations'], 'all aligned canonical addresses and all tags, for alignments 2 to 65536 and 48, 57 and 64 address bits',
  'an overlap of tag and address bits depends on the alignment, the platform address width and on particular tag values',
  ['tagged_ptr.h'],
  [('mask arithmetic derived from the alignment', 'tagged_ptr.h: impl::tptr')], note=BITNOTE)

P('M06', 'Scalar utilities return their mathematical definition for every argument',
  'min, max, clamp and between select or compare by value for any mix of signed, unsigned, enum and floating-point arguments; abs, floor, ceil, sqrt, the trigonometric functions, lerp and the tolerance comparisons return '
  'the value of the function they name, up to rounding; angle normalization returns the equivalent angle inside the documented half-open range, even distribution maps the index range '
  'onto the unit interval as documented, and byte offsets move a pointer by exactly the given number of bytes. The constant-evaluation branches (except the trigonometric series and the square-root iteration) compute the same function.',
  ['inputs', 'configurations'], 'all arguments (finite for floats), argument type mixes, run-time and constant-evaluation branch',
  'the tests sample multiples of pi/2 and small integers; mixed-sign comparisons fail only at particular values',
  ['math.h', 'impl/core_utils.h'],
  [('sign handling before conversion to a common type', 'impl/core_utils.h: between'), ('floor by truncation', 'math.h: floor_naive, ceil_naive')])

P('M09', 'Every named constant is the nearest representable value of what it names',
  'Each member of muu::constants<T> (pi, e, phi, their roots, multiples and quotients, integers, limits, infinities, NaNs, ASCII characters) is the nearest value of T to the number its name denotes, '
  'for every arithmetic and character type, for wrapped halves and for __float128; for the emulated half it is one of the two neighbouring values. std::numeric_limits<muu::half> describes IEEE binary16.',
  ['inputs', 'configurations'], 'all constants of all 22 types, native and emulated half',
  'the tests compare against literals copied from the implementation, within a tolerance wider than the errors',
  ['impl/core_constants.h', 'half.h'],
  [('literal digits', 'impl/core_constants.h: floating_point_named_constants'), ('hand-assembled bit patterns', 'half.h: floating_point_named_constants<half>')],
  technique='constant lint over compiler-folded initialisers enumerated from the AST',
  note='Decided by reading every initialiser as folded by clang (gcc for __float128) and comparing it with the value of its name at 60 digits. Trusted: the constant evaluators of the compilers. ')

P('H01', 'SHA-1 and FNV-1a digests do not depend on how the input is split into calls',
  'A sha1 hasher fed a message through any sequence of calls (bytes, raw buffers of any length, string views, empty or null data) and finished produces the FIPS 180-4 digest of the concatenated message, '
  'for every content, every length including those around the 56- and 64-byte padding boundaries and any number of preceding blocks, and ignores input after finish(). fnv1a produces the FNV-1a hash of the '
  'bytes it was fed, and hash_combiner combines by its documented formula.',
  ['inputs', 'histories'], 'all message contents; 50 listed lengths and splits of 0 to 264 bytes (every padding case); any digest and block count before the last block',
  'the tests hash one 43-byte sentence in one call',
  ['hashing.h', 'src/hashing.cpp'],
  [('padding and partial blocks', 'src/hashing.cpp: sha1::add, sha1::finish'), ('hand-unrolled rounds', 'src/hashing.cpp: sha1_utils'), ('primes and offsets', 'hashing.h: fnv1a_traits, hash_combiner_traits')], note=BITNOTE)

P('H02', 'UUIDs carry their fields in the RFC 4122 byte order and compare accordingly',
  'A uuid built from fields, a 128-bit integer or nothing has the RFC 4122 byte layout, every accessor returns its field, version() and variant() classify every bit pattern, and the six relations and compare() order by the bytes. '
  'A name-based uuid is the version-5 uuid of its namespace and name, the namespace constants are those of the RFC, and printing gives the 36 hexadecimal characters of the bytes in order.',
  ['inputs'], 'all uuids and field values; names of all contents with the lengths of every padding case',
  'swapped bytes or a wrong mask show only for particular field values; the tests use a handful of uuids',
  ['uuid.h', 'src/uuid.cpp', 'hashing.h'],
  [('field slicing', 'uuid.h: uuid_slicer'), ('version and variant bits', 'src/uuid.cpp: muu_impl_uuid_generate_named')], note=BITNOTE)

P('T01', 'Character classification matches the Unicode database for every code unit',
  'For each of char, unsigned char, char8_t, char16_t, char32_t and wchar_t and every value of it, each classification function (letter, number, lower case, upper case, combining mark, whitespace, '
  'hyphen, octal, decimal and hexadecimal digit, code point, their ascii and non-ascii halves and their negations) gives the answer of the Unicode 15.0 character database. Hexadecimal digit and byte conversions '
  'are exact in both directions.',
  ['inputs'], 'all 2^32, 2^16 or 2^8 code units of each type',
  'the tests are generated from the same tables by the same script, stop at 0x110009 and skip wchar_t',
  ['chars.h', 'impl/unicode_char32_t.h', 'impl/unicode_char16_t.h', 'impl/unicode_wchar_t.h', 'impl/unicode_char.h', 'impl/unicode_char8_t.h', 'impl/unicode_unsigned_char.h'],
  [('generated bit tables and range switches', 'impl/unicode_char32_t.h'), ('hexadecimal digits', 'chars.h: hex_to_dec, dec_to_hex, byte_to_hex')], note=BITNOTE)

P('X02', 'Every public header works alone, in any order and configuration, leaking nothing',
  'Each public header compiles when it is the only one included, twice, or with the others in any order, with clang and gcc, in C++17 to C++23, with or without exceptions, RTTI, optimisation, fast-math or 16-bit wchar_t. '
  'Including it leaves no macro without the library prefix, no changed warning or optimisation state, no name outside of muu, and no definition that breaks a program of several translation units; every function it declares '
  'is defined exactly once by the library, and every member of every public class template compiles when instantiated.',
  ['configurations'], '70 headers, 20 compiler configurations, explicit instantiation of every class template for up to 8 element types',
  'the tests are built with one compiler, include everything through a few umbrella files and instantiate what they happen to call',
  ['all.h', 'preprocessor.h', 'impl/header_start.h', 'impl/header_end.h', 'accumulator.h', 'assume_aligned.h', 'chars.h', 'fixed_string.h', 'blob.h', 'source_location.h', 'static_array.h', 'meta.h', 'math.h'],
  [('each header names its own includes', 'all headers'), ('push/pop of warnings and options', 'impl/header_start.h, impl/header_end.h')],
  technique='compile-fail witnesses per header and configuration, preprocessor-state audit, declaration/definition audit over the type-checked AST (LibTooling)',
  note='Decided by the type checkers of clang 18 and gcc 13 on the headers themselves and by a scan of their preprocessed output and AST. MSVC, ICC, 32-bit and ARM configurations are not available here. ')

P('X03', 'Functions declared pure or const keep that promise to the optimiser',
  'A function that the library declares pure in release builds (MUU_PURE and the getter macros made of it) writes to no object of the caller and to no variable that outlives the call; '
  'one declared const (MUU_CONST) moreover reads nothing but the values of its arguments and constants, neither through `this` nor through a reference or pointer. '
  'So no optimised program may drop, merge or reorder such a call and behave differently.',
  ['configurations'], 'every pure or const function that the instantiated class templates, the drivers of the other checks and the library sources contain; effects through pointers loaded from memory are reported as undecided',
  'the macros are empty in the debug configuration that the tests are built in, and a broken promise shows only where the optimiser uses it',
  ['preprocessor.h', 'vector.h', 'triangle.h', 'line_segment.h', 'impl/tri_tri_intersection.h', 'uuid.h'],
  [('MUU_PURE, MUU_CONST and the getter macros', 'preprocessor.h'), ('functions with output parameters', 'vector.h, line_segment.h, triangle.h')],
  technique='interprocedural memory-effect analysis over LLVM IR of the release configuration (own tool on LLVM 18), compared with the attributes in the AST',
  note='Unoptimised IR after promotion of locals; effects are propagated over the call graph to a fixpoint; dead blocks (asserted unreachable) are ignored; errno does not count. ')
TS = ('path-sensitive typestate and lockset dataflow over the flattened LLVM IR of the thread pool: symbolic objects, held locks, task phases and counters '
      'along every path, joined at loop heads')
TSNOTE = ('The deciding step abstractly interprets every path of every entry point and of the worker function (no execution, no solver). The roles of the fields are inferred, not taken from names. '
          'Assumed: locking, unlocking and notifying never fail; no counter wraps around 2^64; no loop goes round 2^40 times; callers of the C interface respect its protocol. ')

P('P01', 'Thread pool: shared state is only touched under the lock that owns it',
  'While workers may be running, every access to the counters and task slots of a queue of the thread pool happens with the mutex of that same queue held, and every access to the count '
  'of unfinished tasks with the mutex that guards it. Locking a queue returns the index of the queue that was locked and holds nothing else; no operation returns with a mutex '
  'left locked, a failed lock_multiple included, and unlock releases. Mutexes are taken in one consistent order, and no task runs and no thread is joined while the pool holds a mutex.',
  ['schedules', 'histories'], 'every interleaving of enqueuing threads, workers and waiters; every path of each entry point',
  'a missing lock shows only under a particular interleaving; the tests run a handful of schedules and pass with the lock removed',
  ['src/thread_pool.cpp', 'thread_pool.h'],
  [('one mutex per queue, taken with try_lock or lock; one mutex and condition variable for the count of unfinished tasks', 'src/thread_pool.cpp: thread_pool_queue, thread_pool_monitor')],
  technique=TS, note=TSNOTE)

P('P02', 'Thread pool: every enqueued task is run exactly once and counted',
  'A queue is handed out only when it has room for the number of tasks asked for (and is not refused when it has), each acquired slot is distinct, and the slots of all queues are disjoint and lie '
  'inside the memory of the pool. A worker takes a task only from a non-empty queue, in order, out of the slot it was stored in, and advances the queue by one; it runs each task exactly once, '
  'destroys it exactly once, and only then counts it as finished exactly once. Every task is counted as unfinished before its queue is released, and capacity() is the number of slots.',
  ['schedules', 'histories', 'inputs'], 'every interleaving and every sequence of enqueue, full and wrapped-around queues, every worker and queue size',
  'losing, overwriting or double-running a task needs a full or wrapped-around queue, or a particular interleaving of producer and worker',
  ['src/thread_pool.cpp', 'thread_pool.h'],
  [('front and back counters modulo the capacity; tasks moved to a local buffer, invoked, destroyed, counted', 'src/thread_pool.cpp: thread_pool_queue, thread_pool_worker')],
  technique=TS, note=TSNOTE + 'The layout of the memory is decided by evaluating the extracted address expressions for 16 combinations of worker count and queue size. ')

P('P03', 'Thread pool: shutdown and failed construction leave nothing running or leaked',
  'Destroying a thread pool tells every worker to stop before joining it, joins every worker before any queue, the counter or the memory is destroyed, destroys every task that is still queued exactly once, '
  'and frees the memory once. When construction fails part way the workers already started are stopped and joined, the queues destroyed and the memory freed. '
  'As many workers are started as workers() reports; a worker stops only when told to, and cannot go round any of its loops for ever without looking.',
  ['schedules', 'histories', 'crash points'], 'every point at which construction can throw, every state of the queues at destruction, any number of workers',
  'tests construct and destroy idle pools; the order of teardown matters only when tasks are queued or running, and no test makes a thread fail to start',
  ['src/thread_pool.cpp', 'thread_pool.h'],
  [('scope guards in the constructor; reverse loops over workers and queues in the destructor', 'src/thread_pool.cpp: thread_pool_impl, muu_impl_thread_pool_create/destroy')],
  technique=TS, note=TSNOTE + 'That the tasks get the index of their worker, and that workers work on the queues of their own pool, is not decided. ')

P('P04', 'Thread pool: wait() returns only when idle and never misses a wake-up',
  'wait() returns only after having seen, under the mutex, that no enqueued task is unfinished, also after a spurious wake-up. Whenever the number of unfinished tasks can reach zero, all waiting '
  'threads are notified. No wait without a time-out depends on a condition that can change without its mutex being held.',
  ['schedules', 'histories'], 'any number of waiting threads, every interleaving of finishing workers, spurious wake-ups',
  'a lost or single wake-up needs two waiting threads or a particular interleaving; the tests wait from one thread',
  ['src/thread_pool.cpp'],
  [('counter, mutex and condition variable; decrement notifies when it reaches zero', 'src/thread_pool.cpp: thread_pool_monitor')],
  technique=TS, note=TSNOTE)

P('P05', 'Thread pool: enqueue and for_each run each piece of work exactly once',
  'enqueue() accepts every kind of callable (small, large, movable, copyable, assignable only, function, stateless), runs it once on a live object holding the value it was given, with the index of its worker, '
  'and destroys every copy it made. for_each() over an integer range (forwards or backwards), an iterator range or a collection visits every element exactly once and nothing else, each batch with its own index below '
  'workers(), for any numbers of elements and workers; every slot is acquired under the lock of its queue, holds a task before the queue is released, and a moved or destroyed pool is destroyed exactly once.',
  ['inputs', 'configurations'], 'callable kinds x storage kinds; 0 to 10 items x 1 to 5 workers x forward/backward x element types, symbolic start; division of 0 to 255 jobs into 1 to 8 batches',
  'a lost or doubled index needs a particular ratio of items to workers, a range start beyond 2^31, or a callable with observable copies; the tests use one pool size and reference-capturing lambdas',
  ['thread_pool.h'],
  [('type-erased task: store, move, invoke, destroy', 'thread_pool.h: impl::thread_pool_task'), ('batches', 'thread_pool.h: impl::batch_size_generator, enqueue_for_each_batch, for_each_with_iterators')],
  note='The inline half of the thread pool, against a recording stand-in for the compiled half (which P01 to P04 cover); item and worker counts are fixed per obligation, start values and payloads are symbolic. Function references passed to for_each are undecided.')

P('C01', 'accumulator reports the count, least, greatest and sum of exactly its samples',
  'After any sequence of samples, ranges of samples and merges of other accumulators (empty ones, itself, copies), an accumulator reports the number of samples, their least and greatest value and their sum; '
  'integers are summed in the wider of their type and 32 bits, vectors per component. Floating-point sums carry the rounding errors along, also across merges, so that small terms are not lost to large ones. '
  'Merging or copying leaves the source unchanged.',
  ['inputs', 'histories'], '8 integer types, float, double, long double, vectors; 0 to 4 samples, 8 shapes of merge; all values',
  'the tests add a handful of ascending values; merges into or from empty accumulators and sequences whose first sample is the extreme are not sampled',
  ['accumulator.h', 'fwd.h', 'vector.h'],
  [('start/add per sample, merge, Neumaier summation', 'accumulator.h: accumulator, impl::basic_accumulator, impl::kahan_accumulator'), ('per component', 'vector.h: accumulator for vectors')],
  technique='value-graph equivalence against independent definitions; compile-time evaluation of witness sequences for compensated summation',
  note='The number of samples per obligation is fixed; values are symbolic. That errors are carried along is shown by 17 witness sequences evaluated by the compiler, not for all sequences. ')

P('C02', 'integral_range is the half-open interval it names, for every type and bound',
  'For bounds s <= e, an integral_range of integers or pointers has e - s elements (also where the difference does not fit the signed type), contains exactly the values v with s <= v < e, '
  'and its first, last, empty, bool, equality, contains(range), adjacent, intersects, intersects_or_adjacent and union_with agree with that interval. '
  'Its iterators visit every value once in order, step and jump both ways, compare by position, and their difference is the number of steps.',
  ['inputs', 'configurations'], '8 integer types x all bounds; pointers to 1, 4 and 8 byte elements',
  'the extremes of each type, unsigned differences beyond the signed maximum and pointer iterators are not sampled by the tests',
  ['integral_range.h'],
  [('comparisons on the bounds, arithmetic in the widened type', 'integral_range.h')],
  technique='value-graph equivalence against independent definitions (exact, over all bit patterns)',
  note='Visiting is decided for ranges of 0 to 4 values with symbolic start. ')

P('C03', 'span views exactly its elements, agrees with std::span, keeps const-correctness',
  'A span made from a pointer and count, two pointers, an array, a std::array or another span views exactly those elements: data, size, size_bytes, empty, front, back, indexing, iteration both ways, '
  'first, last, subspan and as_bytes / as_writable_bytes designate the same elements as those of std::span, for fixed and dynamic extents. '
  'No conversion or deduction gives write access to const elements, drops volatile, changes the element type, or turns N elements into a different fixed number.',
  ['inputs', 'configurations'], '4 element types x fixed/dynamic extents; all pointers, sizes, offsets and counts within the preconditions; 50 conversions',
  'the tests construct spans over one array of five ints and never take a subspan with both bounds, or try a conversion that must not exist',
  ['span.h', 'fwd.h'],
  [('storage by extent; constructors constrained by qualifier compatibility', 'span.h: impl::span_storage, impl::span_constructors, impl::is_qualifier_compatible')],
  technique='value-graph equivalence against std::span; conversion matrix decided by the type checker',
  note='Conversions that drop const exist on the current tree and are required by the existing tests (known findings). Calls outside the preconditions (asserted) are not covered. ')

P('P06', 'spin_mutex: exclusive, properly ordered, and live once free',
  'lock() returns only when the caller owns the mutex, which it takes with one atomic operation, and never keeps spinning once the mutex is free; try_lock() never waits, succeeds on a free mutex, '
  'and reports success exactly when it took the mutex. unlock() leaves it free, nothing but the owner ever frees it, and a new mutex is free. '
  'Taking has acquire ordering and freeing has release ordering, so what the previous owner wrote is visible to the next.',
  ['schedules', 'inputs'], 'any number of threads: the flag may change at every step unless the thread itself owns it',
  'lost exclusion needs two threads inside a window of nanoseconds, and missing orderings do not show on x86 at all',
  ['spin_mutex.h'],
  [('exchange with acquire, relaxed spinning with back-off, store with release', 'spin_mutex.h')],
  technique='abstract interpretation of the IR of each operation against an environment that owns the flag (ownership typestate, ordering rules, cycle analysis)',
  note='Decided on the LLVM IR of clang 18 (C++17 and C++20, O1 and O2), in which the orderings of the source are explicit. Fairness between waiting threads is not claimed. ')
