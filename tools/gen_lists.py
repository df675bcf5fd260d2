"""writes harness/c02_lists.cpp: lists of all supported lengths"""
N = 50
o = ['// C02: lists of members or sizes of every supported length (generated by tools/gen_lists.py)',
     '#include "cells.hpp"', '',
     '#define PUT(INDEX, ARG, ELEMENT) got[n] = ELEMENT; at[n] = INDEX; arg[n] = ARG; ++n;', '']
for n in range(1, N + 1):
    o.append('#define L%d %s' % (n, ''.join('(v[%d])' % i for i in range(n))))
o.append('''
static long v[%d], got[%d], at[%d], arg[%d];

static void start()
{
    for (int i = 0; i < %d; ++i) {
        v[i] = vf_any<long>("v");
    }
}
static void visited(int n, int len, long a)
{
    vf_check(n == len, "every element is visited once");
    for (int i = 0; i < len; ++i) {
        vf_check(got[i] == v[i] && at[i] == i && arg[i] == a, "elements are visited in order");
    }
}
''' % ((N + 2,) * 4 + (N,)))
o.append('VF_ENTRY(list_for_each)\n{\n    start();\n    long a = vf_any<long>("a");\n    int n;')
for n in range(1, N + 1):
    o.append('    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L%d) visited(n, %d, a);' % (n, n))
o.append('    vf_reach("done");\n}\n\nVF_ENTRY(list_size)\n{')
for n in range(1, N + 1):
    o.append('    vf_check(LIBFLATARRAY_SIZE(L%d) == %d, "length of a list");' % (n, n))
o.append('    vf_reach("done");\n}\n\nVF_ENTRY(list_elem)\n{\n    start();')
for n in range(1, N + 1):
    o.append('    vf_check(%s, "element of a list");' %
             ' && '.join('LIBFLATARRAY_ELEM(%d, L%d) == v[%d]' % (i, n, i) for i in range(n)))
o.append('    vf_reach("done");\n}\n\nVF_ENTRY(list_shorter)\n{')
for n in range(1, N + 1):
    o.append('    vf_check(%s, "comparison of lengths");' %
             ' && '.join('LIBFLATARRAY_IF_SHORTER(L%d, %d, 1, 2) == %d' % (n, k, 1 if n < k else 2) for k in range(1, N + 1)))
o.append('    vf_reach("done");\n}\n')
# cells with many members
TY = [('char', 1), ('int', 4), ('short', 2), ('double', 8), ('long', 8)]
for cnt in (30, 49, 50):
    mem = []
    for i in range(cnt):
        t, s = TY[i * 7 % 5]
        mem.append((t, s, i, 2 + i % 4 if i % 11 == 10 else 0))
    o.append('class Wide%d\n{\npublic:' % cnt)
    for t, s, i, k in mem:
        o.append('    %s m%d%s;' % (t, i, '[%d]' % k if k else ''))
    o.append('};\nLIBFLATARRAY_REGISTER_SOA(Wide%d,\n    %s)' % (
        cnt, '\n    '.join('((%s)(m%d)%s)' % (t, i, '(%d)' % k if k else '') for t, s, i, k in mem)))
    o.append('''
VF_ENTRY(wide_members_%d)
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    long idx = long(vf_index("idx", 0, (1 << 30) - 1));
    const long prod = 2000L * 1000 * 600;
    soa_accessor<Wide%d, 2000, 1000, 600, 0> a(reinterpret_cast<char*>(base), idx);
    const_soa_accessor<Wide%d, 2000, 1000, 600, 0> b(reinterpret_cast<char*>(base), idx);
    soa_accessor_light<Wide%d, 2000, 1000, 600, 0> c(reinterpret_cast<char*>(base), idx);''' % (cnt, cnt, cnt, cnt))
    off = 0
    for t, s, i, k in mem:
        if k:
            for j in range(k):
                for x in 'abc':
                    o.append('    vf_check(reinterpret_cast<std::size_t>(&%s.m%d<%d>()) == base + prod * %dL + idx * %d, '
                             '"address of a member");' % (x, i, j, off + j * s, s))
        else:
            for x in 'abc':
                o.append('    vf_check(reinterpret_cast<std::size_t>(&%s.m%d()) == base + prod * %dL + idx * %d, '
                         '"address of a member");' % (x, i, off, s))
        o.append('    vf_check(member_ptr_to_offset()(&Wide%d::m%d) == %d, "offset of a member");' % (cnt, i, off))
        off += s * (k or 1)
    o.append('    vf_check(number_of_members<Wide%d>::VALUE == %d && aggregated_member_size<Wide%d>::VALUE == %d, '
             '"number and size of the members");\n    vf_reach("done");\n}\n' % (cnt, cnt, cnt, off))
open('harness/c02_lists.cpp', 'w').write('\n'.join(o))
