from engine.runner import Unit, ALLISA

COMMON_ASSUMPTIONS = [
    'clang 18 -O1 IR generation from the /repo headers is correct; the IR interpreter models a 64-bit little-endian '
    'flat memory with separate, bounds-checked objects',
    'z3 verdicts are correct (every reported violation is additionally replayed)',
    'std:: code (vector, string, exceptions\' payload) is part of the encoding where it appears in the IR',
]
SPECS = {}


def spec(id, units, quick, thorough, outside, assumptions=()):
    SPECS[id] = {'units': units, 'assumptions': list(assumptions),
                 'bounds': {'quick': quick, 'thorough': thorough, 'outside': outside}}


def wide(id):
    return [Unit('cwide.cpp', configs=['avx2'], defs=['PART_' + id])]


def parts(src, ps, **kw):
    return [Unit(src, configs=['avx2'], defs=['PART_' + p], **kw) for p in ps]


spec('C01', parts('c01_grid.cpp', 'ABCD') + wide('C01'),
     'grids of up to 16 cells per axis (listed shapes), histories of 2 writes with symbolic coordinates, streaks up to '
     '3 cells, complete fills of up to 40 cells; streaks of up to 65 cells (23 lengths) at the start, middle and end of '
     'rows of up to 70 cells, also in grids of 3x34x3 and 4x2x34; corners of grids of up to 1032^3, 32800^2, 2^30; '
     'cells with array members of 21, 34 and 130 elements.',
     'as quick with histories of 3 writes.',
     'larger grids and longer histories; the address arithmetic for large extents is decided in C02',
     ['bit patterns of floating-point members are moved, not computed with'])
spec('C02', [Unit('c02_layout.cpp', configs=['avx2']), Unit('c02_lists.cpp', configs=['avx2'])],
     'unbounded in base address (46 bit), index and step (41 bit); 9 extents up to 2100x2050x2060, 70000x66000x3 and '
     '2^33; 7 neighbour offsets; 6 cell types of up to 50 members; lists of 1 to 50 elements.',
     'the same.',
     'other extents and offsets (they are template arguments; the expressions are the same)')
spec('C03', [Unit('c03_sizes.cpp', configs=['avx2']),
             Unit('c03_sizes.cpp', configs=['avx2'], defs=['WITH_RECT'], only='default_2d$|beyond_[23]d$')],
     'unbounded: all 64-bit dimensions; 4 custom lists and the default lists (the rectangular 3D default list only '
     'along the diagonal of its dimensions).',
     'the same.',
     'other custom lists')
spec('C04', [Unit('c04_geometry.cpp', configs=['avx2'])],
     'all dimensions for single grids; histories of 1 to 3 operations on two grids over menus of 5 to 8 '
     'shapes; one '
     'allocation failure at any point of a resize, an assignment or a copy construction between any two shapes.',
     'the same.', 'longer histories')
spec('C05', parts('c05_copy.cpp', 'AB') + wide('C05'),
     'histories of 2 operations, shapes up to 5x3x2, one watched symbolic cell; complete comparison for full copies; '
     'complete copies of 35x3x2, 2x34x3, 3x2x34, 67x1x1, 300x1x1, and of 3x2x2 cells with arrays of up to 130 elements.',
     'histories of 3 operations.', 'longer histories, larger grids')
spec('C06', parts('c06_lifetime.cpp', 'ABCD'),
     'histories of 2 to 3 operations out of 9 to 16, containers of up to 6 cells with owning members and arrays of 2 (once: '
     '19) of them; complete sequences on '
     'grids of 33x1x1, 17x2x1, 3x9x2 and 2x2x9 cells and vectors of up to 33 elements.',
     'histories of 3 operations.', 'longer histories; members whose constructors throw')
spec('C07', parts('c07_raw.cpp', 'AB') + wide('C07'),
     'grids up to 6 cells per axis, one streak of up to 4 or two of up to 2 cells at symbolic coordinates; '
     'streaks of up to 65 and of 255 to 257 cells, up to 9 streaks and 180 cells per buffer at fixed coordinates; cells with '
     'array members of up to 130 elements.',
     'the same.', 'longer streaks, more of them')
spec('C08', [Unit('c08_dual.cpp', configs=['avx2'])],
     '8 x 8 pairs of shapes up to 3x3x2, symbolic coordinates and values; 7 x 7 pairs of shapes up to 33x17x10, corners.', 'the same.', 'other shapes')
spec('C09', [Unit('c09_array.cpp', configs=['avx2'])] + wide('C09'),
     'histories of 2 to 3 operations, capacities 1 to 6; all 64-bit initial sizes; fills up to 17, 33, 64, 260.',
     'histories of 3 to 4 operations.', 'longer histories, larger capacities')
spec('C10', parts('c10_array_copy.cpp', 'AB') + wide('C10'),
     'capacities 2 to 6, all fill levels, offsets and counts; capacities 16 to 270 at up to 23 fill levels.', 'the same.', 'larger capacities')
spec('C11', parts('c11_vector.cpp', 'ABC') + wide('C11'),
     'histories of 2 (single-byte cells: 3) operations from 0 to 4 elements, growth to 270 elements; resizing among 23 sizes, '
     'filling and copying among 23 sizes up to 65 and 7 up to 257.',
     'histories of 3 operations.', 'longer histories, larger vectors')
spec('C12', [Unit('c12_allocator.cpp', configs=['avx2'])],
     'all heap addresses (multiples of 16), counts up to 40, alignments 1 to 4096 and up to a million; 30 counts up to a million '
     '(first and last element); two live blocks in both orders.',
     'the same with larger page-aligned blocks.', 'other counts beyond 40 (refusal of huge counts is unbounded)',
     ['the underlying operator new returns addresses that are multiples of 16'])
spec('C13', [Unit('c13_peeler.cpp', configs=['avx2'])],
     'unbounded: all starts and ends within the counter\'s range minus 64; arities 1 to 32, 4 counter types.',
     'the same.', 'ranges within 64 of the counter type\'s maximum, negative starts',
     ['the user\'s kernel runs the documented loop; its effect is computed in closed form'])


def cargos(src, cs=('FLOAT', 'DOUBLE', 'INT'), configs=ALLISA, **kw):
    kw.setdefault('opts', {'merge': True})
    return [Unit(src, configs=configs, defs=['CARGO_' + c], **kw) for c in cs]


SVOUT = 'arities and types which the library does not provide; ISAs other than x86 (NEON, QPX, MIC) and CUDA'
spec('C14', cargos('c14_move.cpp'),
     'none on values; all six arities, three element types, seven ISA configurations; every address class permitted '
     'by the stated alignment.', 'the same.', SVOUT)
spec('C15', cargos('c15_fp.cpp', ('FLOAT', 'DOUBLE')),
     'none on values (including NaN, infinities, signed zeros); all six arities, both floating-point types, seven ISA '
     'configurations.', 'the same.', SVOUT,
     ['scalar and packed IEEE operations are the same function of their operands\' bit patterns (round to nearest); '
      'all NaNs are considered equal; no contraction'])
spec('C16', cargos('c16_int.cpp', ('INT',)),
     'none on values (all ints for which the int operation is defined); all six arities, seven ISA configurations.',
     'the same.', SVOUT + '; division by a square root is decided for operands up to 2^30 only',
     ['rcpps/rsqrtps and vrsqrt14ps are as accurate as documented (Intel SDM)', 'truncating the double quotient of two ints is their int quotient (gap to the next integer exceeds the rounding '
      'error); the square root of an int as a double, truncated, is the reference for roots'])
spec('C17', cargos('c17_masks.cpp'),
     'none on values (including NaN, infinities, signed zeros); all six arities, seven ISA configurations.',
     'the same.', SVOUT + '; any() of vectors with lanes holding -0.0')
spec('C18', cargos('c18_gather.cpp'),
     'none on values; offsets in a window of 7 elements (all combinations, also negative and repeated), and spread '
     'over up to 1280 elements, and all over the range of int (10 patterns); all six arities, three element types, seven ISA configurations.',
     'the same.', SVOUT + '; unaligned offset arrays for AVX512 float vectors (refused by assertion)')
spec('C19', cargos('c19_close.cpp', ('FLOAT', 'DOUBLE')),
     'floats: magnitudes 2^-20 to 2^20, both signs (roots of positive values); doubles: all values; all six arities, '
     'seven ISA configurations.',
     'the same.', SVOUT + '; floats outside the given magnitudes (zero, denormal, huge, NaN), where the estimates '
     'overflow or underflow',
     ['rcpps/rsqrtps are accurate to 1.5 * 2^-12, vrcp14ps/vrsqrt14ps to 2^-14, rounded operations to half an ulp '
      '(Intel SDM)'])
spec('C20', cargos('c20_streaming.cpp'),
     'none on values; every address class permitted by the stated alignment; all six arities, three element types, '
     'seven ISA configurations.', 'the same.', SVOUT)
spec('C22', [Unit('c22_threads.cpp', configs=['avx2'], flags=['-DVF_PAR']),
             Unit('c21_kernels.cpp', configs=['avx2', 'avx512'], defs=['CARGO_FLOAT'], flags=['-DVF_PAR'])],
     'two threads; every pair of the listed operations with symbolic positions and values; grids of up to 6 cells per '
     'axis, streaks of 2 cells, arrays of up to 8 and vectors of 5 elements. No schedule is enumerated: without '
     'conflicting accesses all of them are equivalent.',
     'the same.', 'three or more threads (conflicts are pairwise); larger containers',
     ['malloc, free and operator new are thread-safe', 'the two threads do not synchronise'])
spec('C21', cargos('c21_kernels.cpp', ('FLOAT', 'DOUBLE'), ('scalar', 'sse2', 'avx2', 'avx512')),
     'rows of up to 38 cells, all starts up to 9 and all ends, arities as selected and 4, 8, 16; all values.',
     'the same.', 'longer rows (the peeler itself is decided for all ranges in C13); ' + SVOUT,
     ['storage is aligned to 4096 bytes (decided in C12)'])

spec('C23', cargos('c23_print.cpp'),
     'none on values except NaN; all six arities, three element types, seven ISA configurations.', 'the same.',
     SVOUT + '; lanes holding NaN; the conversion of numbers to text (std::ostream)',
     ['the stream is the recorded sequence of texts and numbers inserted'])


spec('C24', [Unit('c24_device.cpp', configs=['avx2'], defs=['PART_' + p], cuda=True) for p in 'ABC'],
     'grids up to 4x2x2, histories of 1 operation and complete comparison, 19 streak lengths up to 1025 (several thread '
     'blocks), grids up to 130x7x3 for construction and destruction, two user kernels launched by callbacks, kernels on soa_arrays of up to 6 elements; threads in ascending and descending order.',
     'histories of 2 operations.',
     'overlapping execution of threads, failing CUDA calls, streams, copies of device grids (they do not compile), real devices',
     ['the CUDA runtime is replaced by harness/cuda/cuda.h; launches become loops over all threads'])
spec('C25', [Unit('c25_cuda_array.cpp', configs=['avx2'], cuda=True)],
     'histories of 1 to 2 operations on two arrays of up to 6 elements, 3 of growth among 12 sizes up to 30, fills of up to 1028; threads in ascending and descending order.',
     'histories of up to 3 operations.',
     'failing CUDA calls, more than 2^31 elements, construction from empty vectors, real devices',
     ['the CUDA runtime is replaced by harness/cuda/cuda.h; launches become loops over all threads'])
