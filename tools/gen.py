#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
I = 'include/libflatarray/'
D = I + 'detail/'


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None):
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                           'observe_at': observe or [], 'state': state or [], 'hook_needed': None}}, note))


prop('C01', 'Grid cells read back what was written last; no other cell changes',
     'After any history of writes to a grid (single cells, streaks of cells, broadcasts), reading any cell yields the '
     'value written to that coordinate last, or the default value if it was never written. Writing or reading never '
     'touches a different cell, a different member, an element outside the requested streak, or memory outside of the '
     'grid and the user\'s buffer.',
     ['inputs', 'histories', 'configurations'],
     'all coordinates, streak lengths, cell values and orders of operations, for cell types with scalar, array and '
     'private members and all kinds of registered sizes',
     'Tests write a few fixed patterns to a few fixed sizes and read them back in the same order; aliasing of two '
     'coordinates or of two members, or an off-by-one at the border, shows only for particular coordinates and sizes.',
     [I + 'soa_grid.hpp', I + 'macros.hpp', D + 'set_instance_functor.hpp', D + 'get_instance_functor.hpp',
      D + 'construct_functor.hpp', D + 'offset.hpp'],
     [('grid get/set/broadcast', I + 'soa_grid.hpp'), ('transfer functors', D + 'set_instance_functor.hpp'),
      ('generated accessors', I + 'macros.hpp')],
     ['soa_grid::get', 'soa_grid::set', 'soa_grid::broadcast'])

prop('C02', 'Accessors compute the struct-of-arrays address of every member',
     'For every grid extent, base pointer, cell index and neighbour offset, all kinds of accessors (mutable, const, '
     'light) resolve a member to the same address: each member (and each element of an array member) owns one '
     'contiguous block in registration order, and within it the cells follow x-fastest. Relative access, increments, '
     'generic and run-time member access, offsets of member pointers, member counts and aggregated sizes all agree '
     'with that layout, accessors compare equal exactly if they denote the same cell, and unregistered members are '
     'refused.',
     ['inputs', 'configurations'],
     'all base addresses, indices and steps (64 bit), for a set of extents up to the largest registered ones, '
     'neighbour offsets of both signs, and types of 1 to 20 members',
     'Tests look at a few indices of small grids; overflow of index arithmetic, wrong offsets for members behind an '
     'array member or for one of the accessor flavours stay unseen.',
     [I + 'macros.hpp', I + 'soa_accessor.hpp', I + 'coord.hpp', D + 'offset.hpp', I + 'member_ptr_to_offset.hpp',
      I + 'number_of_members.hpp', I + 'aggregated_member_size.hpp', I + 'preprocessor.hpp'],
     [('LIBFLATARRAY_REGISTER_SOA', I + 'macros.hpp'), ('offset', D + 'offset.hpp')],
     ['accessor member functions'])

prop('C03', 'A grid is padded to the smallest registered size that covers it',
     'For every requested dimension the functor is called exactly once, with an accessor whose extents are the '
     'smallest registered sizes not smaller than the request, starting at the first cell. Requests which no '
     'registered size covers, or whose shape the type does not support, are refused with an out_of_range exception '
     'and never reach the functor.',
     ['inputs', 'configurations'],
     'all 64-bit dimensions, for custom 1D/2D/3D/rectangular size lists and the library\'s default lists',
     'Tests probe some dozen dimensions; a hole in a size list or a wrong comparison at one bound is only visible for '
     'the dimensions next to it.',
     [I + 'api_traits.hpp', I + 'macros.hpp', I + 'preprocessor.hpp'],
     [('select_sizes', I + 'api_traits.hpp')], ['api_traits::select_sizes', 'soa_grid::callback'])

prop('C04', 'Dimensions, extents and byte size always describe the actual storage',
     'After any history of construction, resizing, copying, assignment and swapping (including refused or failing '
     'operations), a grid\'s dimensions are those last requested, its extents are the padded sizes which accessors '
     'use, its byte size is extents times aggregated member size, and the storage it owns is exactly that large. A '
     'refused or failing operation leaves a grid that can be used, resized and destroyed safely.',
     ['inputs', 'histories', 'fault_sequences'],
     'all dimensions, all sequences of geometry-changing operations up to the bound, and allocation failures',
     'Tests never combine swap, assignment and resize of different shapes and do not inject failures; stale extents '
     'only matter in the next operation.',
     [I + 'soa_grid.hpp', D + 'set_byte_size_functor.hpp', D + 'init_kernel.hpp'],
     [('init/resize/swap', I + 'soa_grid.hpp')],
     ['dim_x/y/z', 'extent_x/y/z', 'byte_size', 'callback'],
     [{'name': 'my_extent_*', 'meaning': 'padded size', 'where': I + 'soa_grid.hpp'}])

prop('C05', 'Grid copies are complete and independent; swap exchanges everything',
     'Copy construction and assignment yield a grid with equal dimensions and equal cells, whatever the target held '
     'before; later changes to one never show in the other. Swapping exchanges dimensions and all cells, and self '
     'assignment changes nothing.',
     ['inputs', 'histories'],
     'all cell values, coordinates and sequences of copies, assignments, swaps and writes up to the bound',
     'Tests copy one fixed grid and look at a few cells.',
     [I + 'soa_grid.hpp', D + 'copy_functor.hpp'],
     [('copy c-tor, assignment, swap', I + 'soa_grid.hpp'), ('copy_functor', D + 'copy_functor.hpp')],
     ['soa_grid::get'])

prop('C06', 'Members with resources live like objects: no leak, no double destruction',
     'Members of non-trivial type stored in grids, arrays and vectors are constructed before use, assigned by their '
     'own assignment, never relocated byte by byte, and destroyed exactly once; destroying the container releases '
     'everything. This holds after any history of operations, including refused ones.',
     ['histories', 'inputs', 'fault_sequences'],
     'all sequences of container operations up to the bound, all values, refused operations included',
     'The tests\' destruction counters cover one construct/destroy cycle per container; growth, shrinking, copies '
     'between sizes and refused operations are not combined.',
     [I + 'soa_grid.hpp', I + 'soa_array.hpp', I + 'soa_vector.hpp', D + 'construct_functor.hpp',
      D + 'destroy_functor.hpp', D + 'generic_destruct.hpp', D + 'soa_array_member_copy_helper.hpp',
      D + 'init_kernel.hpp'],
     [('construct/destroy functors', D + 'construct_functor.hpp'), ('copy helper', D + 'soa_array_member_copy_helper.hpp')],
     ['constructors/destructors of members', 'heap'])

prop('C07', 'load() and save() move exactly the addressed cells in SoA order',
     'Saving a streak (or a sequence of streaks) writes its cells to the buffer member by member in registration '
     'order, loading reads the same format, and save followed by load reproduces the cells. Exactly the addressed '
     'cells and exactly the bytes of the stated buffer are read or written.',
     ['inputs', 'histories'],
     'all coordinates, lengths, values, one or two streaks (possibly overlapping), buffers with and without slack',
     'Tests transfer one or two fixed streaks; wrong strides or offsets of later members show only for particular '
     'counts and positions.',
     [I + 'soa_grid.hpp', D + 'load_functor.hpp', D + 'save_functor.hpp', D + 'simple_streak.hpp', I + 'macros.hpp',
      D + 'soa_array_member_copy_helper.hpp'],
     [('load/save', I + 'soa_grid.hpp'), ('functors', D + 'load_functor.hpp')],
     ['soa_grid::load', 'soa_grid::save'])

prop('C08', 'A callback across two grids gets the right accessor for each grid',
     'The functor is called exactly once, its first accessor addressing the first grid and its second addressing the '
     'second, each with that grid\'s own extents and starting at its first cell. Types which only support equal '
     'sizes refuse grids of different dimensions before the functor runs; all other combinations are accepted.',
     ['inputs', 'configurations'],
     'pairs of shapes (including a grid paired with itself), const and mutable first grid, all coordinates and values',
     'Tests use one pair of sizes per flavour, so swapped or shared extents of the two grids are not noticed.',
     [I + 'soa_grid.hpp', D + 'dual_callback_helper.hpp', I + 'api_traits.hpp'],
     [('dual_callback_helper', D + 'dual_callback_helper.hpp')], ['soa_grid::callback'])

prop('C09', 'soa_array is a sequence that never exceeds its capacity',
     'After any history, size, byte size, element access, back(), iteration and the stored values agree with a plain '
     'sequence on which the same operations were performed. Operations beyond the capacity or on an empty array are '
     'refused with an exception and change nothing.',
     ['inputs', 'histories'],
     'all sequences of push, pop, clear and element writes up to the bound; all requested sizes (64 bit); all values',
     'Tests fill arrays well below their capacity in one fixed order.',
     [I + 'soa_array.hpp', D + 'construct_functor.hpp', I + 'macros.hpp'],
     [('soa_array', I + 'soa_array.hpp')], ['size', 'operator[]', 'begin/end'])

prop('C10', 'Data exchange between soa_arrays preserves elements or is refused',
     'Copying, assigning, loading and swapping between arrays of equal or different capacity transfers exactly the '
     'requested elements in order, leaves the source (or, for loads, all other elements) unchanged, and yields '
     'independent arrays. Whatever does not fit into the target is refused with an exception and leaves the target as '
     'it was.',
     ['inputs', 'histories', 'configurations'],
     'all fill levels of source and target, all offsets and counts up to the capacity, all values, several pairs of '
     'capacities',
     'Tests copy full arrays between two fixed capacities.',
     [I + 'soa_array.hpp', D + 'copy_functor.hpp', D + 'soa_array_member_copy_helper.hpp'],
     [('copy_in/load', I + 'soa_array.hpp'), ('swap', I + 'soa_array.hpp')], ['soa_array'])

prop('C11', 'soa_vector behaves like a sequence container',
     'After any history of insertions, removals, resizing, reserving, copying and element writes, size, capacity, '
     'element values and the view through callbacks agree with a plain sequence; elements added by resizing hold the '
     'default value. Growing never loses or reorders elements, and capacity always covers the size.',
     ['inputs', 'histories'],
     'all sequences of operations up to the bound, all values, all sizes around the registered capacities',
     'Tests append in one direction with a fixed count; resizing after removal or reserving less than stored is not '
     'reached.',
     [I + 'soa_vector.hpp', I + 'soa_grid.hpp'],
     [('resize/reserve/push_back', I + 'soa_vector.hpp')], ['soa_vector'])

prop('C12', 'Aligned allocation yields aligned, disjoint, fully usable memory',
     'For every element count and every heap address the underlying allocator may return, the block handed out is '
     'aligned as requested, large enough, and disjoint from every other live block; releasing it (in any order) '
     'returns the original memory exactly once. Requests which cannot be satisfied raise bad_alloc and leak nothing.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all heap base addresses (16-byte granular), counts up to the bound (and all 64-bit counts for refusal), element '
     'types and alignments 1 to 4096',
     'The real heap returns the same few residues modulo the alignment in every test run.',
     [I + 'aligned_allocator.hpp'], [('allocate/deallocate', I + 'aligned_allocator.hpp')],
     ['aligned_allocator::allocate', 'aligned_allocator::deallocate'])

prop('C13', 'The loop peeler visits every index exactly once, vectorized when aligned',
     'For every start and end the peeled loop covers the half-open range exactly once and in order, vectorized '
     'chunks start at multiples of the vector arity, fewer than arity scalar iterations precede and follow them, no '
     'iteration touches an index outside the range, and the counter ends at the end of the range.',
     ['inputs', 'configurations'],
     'all 64-bit (32-bit) starts and ends, arities 1 to 32, counters of signed and unsigned types, macro and lambda '
     'variants',
     'Tests use two or three ranges; ranges shorter than one vector, or which end before the first aligned index, are '
     'missed.',
     [I + 'loop_peeler.hpp'], [('LIBFLATARRAY_LOOP_PEELER', I + 'loop_peeler.hpp')], ['kernel calls'])
SV = [I + 'short_vec.hpp', I + 'short_vec_base.hpp', D + 'short_vec_scalar_*.hpp', D + 'short_vec_sse_*.hpp',
      D + 'short_vec_avx_*.hpp', D + 'short_vec_avx512_*.hpp', D + 'short_vec_helpers.hpp']
SVWHY = 'Tests exercise one small set of values, only for the instruction sets of the machine and the build ' \
        '(AVX512 and plain SSE2 code is not run at all); a single swapped lane or register half in one of some 60 ' \
        'specialisations escapes them.'

prop('C14', 'short_vec moves lanes unchanged between memory and registers',
     'For every element type, arity and instruction set: constructing from a scalar, a pointer, an initializer list '
     'or by copy, loading and storing (plain, aligned, streaming, via the operator pointer << vector) and reading single '
     'elements transfer exactly ARITY elements, lane i to element i, bit for bit. Nothing outside of the ARITY '
     'elements is read or written, and the plain variants work for every element-aligned address.',
     ['inputs', 'configurations'],
     'all lane values (bit patterns, including NaNs), all addresses permitted by the alignment, arities 1 to 32, '
     'float/double/int, scalar, SSE, SSE2, SSE4, AVX, AVX2 and AVX512 code',
     SVWHY, SV, [('short_vec specialisations', D + 'short_vec_*.hpp')],
     ['short_vec::load', 'short_vec::store', 'short_vec::operator[]'])

prop('C15', 'Floating-point short_vec arithmetic is the lane-wise scalar arithmetic',
     'For float and double, every arity and instruction set: sums, differences and products (also compound '
     'assignment, with a scalar on either side, nested in expressions, or of a vector with itself), square roots, and '
     'quotients of doubles yield in each lane exactly the IEEE result which the scalar type yields for that lane\'s '
     'operands. No lane influences another, and operands are not modified.',
     ['inputs', 'configurations'],
     'all operand values including NaN, infinities, signed zeros and denormals; arities 1 to 32; seven instruction '
     'sets',
     SVWHY, SV, [('arithmetic operators', D + 'short_vec_*.hpp')], ['short_vec operators'])

prop('C16', 'Integer short_vec arithmetic is the lane-wise int arithmetic',
     'For int vectors of every arity and instruction set: sums, differences, products, quotients (truncated towards '
     'zero, as for int) and rounded-down square roots, also as compound assignment and with a scalar on either side, '
     'yield in each lane exactly what the int operation yields for that lane\'s operands, for all operands for which '
     'the int operation is defined. Division by the square root of a vector yields either the quotient by the '
     'rounded-down root or the int next to the real quotient, within the accuracy of the estimate. No lane '
     'influences another, and operands are not modified.',
     ['inputs', 'configurations'],
     'all int operands for which the operation is defined; arities 1 to 32; seven instruction sets',
     SVWHY + ' Integer division by way of float estimates is wrong only for large or exactly divisible operands.',
     SV, [('arithmetic operators', D + 'short_vec_*_int_*.hpp')], ['short_vec<int> operators'])

prop('C17', 'short_vec comparisons, masks and blends decide each lane on its own',
     'For float and double vectors of every arity and instruction set (and the single lane int vector): each '
     'comparison sets exactly the lanes of the mask for which the scalar comparison holds (none if an operand is '
     'NaN); get() reads lane i of a mask or vector, any() tells whether some lane is set, count_mask() how many; '
     'blend() takes exactly the set lanes from the second vector and the others from the first, bit for bit.',
     ['inputs', 'configurations'],
     'all operand values including NaN, infinities and signed zeros; arities 1 to 32; seven instruction sets',
     SVWHY, SV, [('comparison operators, blend, any', D + 'short_vec_*.hpp'),
                 ('any, get, blend, count_mask', I + 'short_vec.hpp')],
     ['short_vec comparison operators', 'any', 'get', 'blend', 'count_mask'])
prop('C18', 'gather and scatter address exactly the elements named by the offsets',
     'For every element type, arity and instruction set: gather(ptr, offsets) puts ptr[offsets[i]] into lane i and '
     'writes no memory, scatter(ptr, offsets) stores lane i to ptr[offsets[i]] (the highest lane wins where offsets '
     'coincide) and touches no other element. Offsets may be negative, repeated and in any order. Nothing outside '
     'of the named elements and the offsets is read.',
     ['inputs', 'configurations'],
     'all values, offsets of either sign with repetitions; arities 1 to 32; seven instruction sets',
     SVWHY, SV, [('gather/scatter', D + 'short_vec_*.hpp'), ('macros', D + 'short_vec_helpers.hpp')],
     ['short_vec::gather', 'short_vec::scatter'])

prop('C19', 'Quotients and divisions by square roots are accurate in every lane',
     'For double vectors a / b and a / sqrt(b) are correctly rounded in each lane. For float vectors, whose '
     'implementations may use the reciprocal estimates of the CPU, they agree with the scalar result to a relative '
     'error of 2^-11 for operands of ordinary magnitude (2^-20 to 2^20), as compound assignment and with a scalar '
     'numerator as well. No lane influences another, and operands are not modified.',
     ['inputs', 'configurations'],
     'all values of doubles, floats of magnitude 2^-20 to 2^20; arities 1 to 32; seven instruction sets',
     SVWHY + ' An estimate of the wrong operand or lane is close to the truth for the equal lanes tests use.',
     SV, [('division operators', D + 'short_vec_*.hpp'), ('sqrt_reference', D + 'sqrt_reference.hpp')],
     ['short_vec operator/', 'sqrt', 'sqrt_reference'])

prop('C20', 'A streaming_short_vec is a short_vec whose stores bypass the cache',
     'A streaming_short_vec can be filled in every way a short_vec can, and each of its ways to store (store, '
     'store_aligned, store_nt, operator<<) writes exactly its lanes to any sufficiently aligned address. Its '
     'arithmetic yields what the short_vec\'s yields. ilp_to_arity and estimate_optimum_short_vec_type select '
     'vector types of the element type given, with a valid arity.',
     ['inputs', 'configurations'],
     'all values, all permitted address classes; arities 1 to 32; seven instruction sets',
     SVWHY, SV, [('streaming_short_vec', I + 'streaming_short_vec.hpp'),
                 ('estimate_optimum_short_vec_type', I + 'estimate_optimum_short_vec_type.hpp'),
                 ('ilp_to_arity', I + 'ilp_to_arity.hpp')],
     ['streaming_short_vec', 'estimate_optimum_short_vec_type', 'ilp_to_arity'])

prop('C21', 'Vectorized kernels yield what the scalar loop yields',
     'A kernel that visits a part of a row of a grid, vector or array by means of a callback, accessors with relative '
     'coordinates, the loop peeler and the selected short_vec or streaming_short_vec computes, for every start and '
     'end of the range, in every cell exactly what the plain scalar loop computes, leaves all other cells and members '
     'alone, and accesses memory only within the containers and with the required alignment. The same holds for '
     'masked updates and for gather/scatter on container members.',
     ['inputs', 'configurations'],
     'all ranges, all cell values, arities 4 to 32 with and without streaming stores, four instruction sets',
     'The combination of range, alignment, arity and instruction set decides which code runs; tests try few.',
     [I + 'soa_grid.hpp', I + 'soa_vector.hpp', I + 'loop_peeler.hpp', I + 'short_vec.hpp', I + 'streaming_short_vec.hpp',
      I + 'estimate_optimum_short_vec_type.hpp', I + 'macros.hpp'],
     [('callback', I + 'soa_grid.hpp'), ('accessors', I + 'macros.hpp'), ('loop_peeler', I + 'loop_peeler.hpp')],
     ['soa_grid::callback', 'soa_vector::callback', 'LIBFLATARRAY_LOOP_PEELER', 'loop_peeler'])

prop('C22', 'Threads reading a container, or using different elements of it, never conflict',
     'Two threads which read one soa_grid, soa_array or soa_vector through its const interface (get, save, callbacks, '
     'copies, size queries), which write different cells or elements of it (set, broadcast, load, callbacks, '
     'accessors), one of which reads cells the other does not write, or which use different containers and '
     'allocations, never access the same memory location with at least one of them writing. Hence all schedules '
     'yield what the operations yield one after the other; no locking is needed.',
     ['schedules', 'inputs'],
     'all schedules of two threads, all pairs of operations, all positions',
     'A test would have to hit the schedule; values and positions matter, too.',
     [I + 'soa_grid.hpp', I + 'soa_array.hpp', I + 'soa_vector.hpp', I + 'aligned_allocator.hpp', D + 'staging_buffer.hpp'],
     [('soa_grid', I + 'soa_grid.hpp'), ('staging_buffer', D + 'staging_buffer.hpp'),
      ('soa_array', I + 'soa_array.hpp'), ('soa_vector', I + 'soa_vector.hpp'),
      ('aligned_allocator', I + 'aligned_allocator.hpp')],
     ['soa_grid', 'soa_array', 'soa_vector', 'aligned_allocator', 'callbacks'])

prop('C23', 'Printing a short_vec lists its lanes in order',
     'For every element type, arity and instruction set: inserting a short_vec or streaming_short_vec into an output '
     'stream writes "[", then the values of lanes 0 to ARITY-1, in this order, each with the value it would be stored '
     'with, separated by ", ", then "]", and leaves the vector unchanged.',
     ['inputs', 'configurations'],
     'all lane values other than NaN, arities 1 to 32, float/double/int, seven instruction sets',
     SVWHY, SV, [('operator<< of the specialisations', D + 'short_vec_*.hpp')], ['operator<<(ostream, short_vec)'])

prop('C24', 'Containers in device memory behave as those in host memory',
     'A grid whose storage lives in device memory (cuda_allocator, CUDA functors) reads back what was written last, cell '
     'by cell, by streaks, by broadcasts and as raw data in SoA order, with all other cells unchanged; resizing and '
     'swapping behave as for host grids; every cell is constructed and destroyed exactly once; all device memory is '
     'returned. Kernels launched for it address only cells of the grid and elements of the buffers, independently of the '
     'number of thread blocks and of the order in which threads run. Kernels which a callback launches with light '
     'accessors on the grid\'s data, and kernels that use a soa_array copied to the device, see and change exactly the '
     'cells they name. Host code never touches device memory, and vice versa.',
     ['inputs', 'histories', 'schedules'],
     'all cell values; grids and streaks of up to several thread blocks; histories of operations; threads run one by one '
     'in either order',
     'The tests for this need a GPU and nvcc, so here none runs at all; those that exist use fixed sizes.',
     [I + 'soa_grid.hpp', I + 'macros.hpp', D + 'staging_buffer.hpp', D + 'set_instance_functor.hpp',
      D + 'get_instance_functor.hpp', D + 'load_functor.hpp', D + 'save_functor.hpp', D + 'construct_functor.hpp',
      D + 'destroy_functor.hpp', D + 'generate_cuda_launch_config.hpp', I + 'cuda_allocator.hpp', I + 'soa_array.hpp'],
     [('CUDA kernels', D + '*_functor.hpp'), ('staging buffers', D + 'staging_buffer.hpp'),
      ('launch configuration', D + 'generate_cuda_launch_config.hpp')],
     ['soa_grid<CELL, cuda_allocator<char>, true>', 'soa_accessor_light', 'soa_array'])

prop('C25', 'cuda_array is a sequence of plain elements in device memory',
     'A cuda_array of trivially copyable elements keeps its elements in order like a std::vector (its capacity '
     'covers its size and what was reserved), except that elements which were never given a value are unspecified: construction with a size, a value or host data, copies '
     'and assignments (including self-assignment), resize with and without a value, reserve, load and save. Copies are '
     'independent of their source, no transfer leaves the memory of the arrays or the host buffers, and all device '
     'memory is returned.',
     ['inputs', 'histories'],
     'all element values; histories of operations on two arrays; fills of several thread blocks',
     'The tests for this need a GPU and nvcc, so here none runs at all; those that exist use one history each.',
     [I + 'cuda_array.hpp', I + 'cuda_allocator.hpp', D + 'init_kernel.hpp', D + 'generate_cuda_launch_config.hpp'],
     [('cuda_array', I + 'cuda_array.hpp'), ('init_kernel', D + 'init_kernel.hpp')],
     ['cuda_array'])

#MORE


def main():
    import sys
    sys.path.insert(0, ROOT)
    import specs
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, note in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, note in P:
        i = p['id']
        if i not in specs.SPECS:
            continue
        s = specs.SPECS[i]
        checks.append({
            'property': i,
            'quick_cmd': './check.py %s quick' % i,
            'thorough_cmd': './check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the clang LLVM IR of the real headers, decided by z3',
            'level': s.get('level', 'model_checking'),
            'level_note': 'Every path of the harness through the real code is executed symbolically; each assertion '
                          'and each memory access is an SMT query over all inputs. Bounds: ' + s['bounds']['quick'] +
                          ' Trusted: clang front end and -O1, the IR interpreter (cross-validated natively on '
                          'solver models each run), z3.' + (' ' + note if note else ''),
        })
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA,
         'notes': 'Fixes of genuine defects are listed in known_findings.jsonl. No hooks in /repo are needed.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _ in P:
        jsonschema.validate(p, sch)
        assert p['id'] in specs.SPECS or any(n['property'] == p['id'] for n in NA), p['id']


if __name__ == '__main__':
    main()
