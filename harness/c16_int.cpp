// C16: integer arithmetic of vectors is the lane-wise arithmetic of int.
#include "sv.hpp"

static int wrap_add(int a, int b) { return int(unsigned(a) + unsigned(b)); }
static int wrap_sub(int a, int b) { return int(unsigned(a) - unsigned(b)); }
static int wrap_mul(int a, int b) { return int(unsigned(a) * unsigned(b)); }
static int quot(int a, int b) { return a / b; }

enum opcode { ADD, SUB, MUL, DIV };

template<opcode OP>
int reference(int a, int b)
{
    return OP == ADD ? wrap_add(a, b) : OP == SUB ? wrap_sub(a, b) : OP == MUL ? wrap_mul(a, b) : quot(a, b);
}

template<opcode OP, typename V>
V apply(const V& a, const V& b)
{
    return OP == ADD ? a + b : OP == SUB ? a - b : OP == MUL ? a * b : a / b;
}

template<opcode OP, typename V>
V apply_left(int a, const V& b)
{
    return OP == ADD ? a + b : OP == SUB ? a - b : OP == MUL ? a * b : a / b;
}

template<opcode OP, typename V>
void apply_to(V& a, const V& b)
{
    if (OP == ADD) {
        a += b;
    } else if (OP == SUB) {
        a -= b;
    } else if (OP == MUL) {
        a *= b;
    } else {
        a /= b;
    }
}

// operands for which the operation is defined for ints
template<opcode OP>
void defined(const int *a, const int *b, int n)
{
    for (int i = 0; i < n; ++i) {
        if (OP == DIV) {
            vf_assume((b[i] != 0) & !((a[i] == std::numeric_limits<int>::min()) & (b[i] == -1)));
        } else {
            long x = a[i], y = b[i];
            long r = OP == ADD ? x + y : OP == SUB ? x - y : x * y;
            vf_assume(r == int(r));
        }
    }
}

static void compare(const int *out, const int *expected, int n, const char *msg)
{
    for (int i = 0; i < n; ++i) {
        vf_check(out[i] == expected[i], msg);
    }
}

template<int N, opcode OP>
void binary(const char *msg)
{
    typedef short_vec<int, N> V;
    int a[N], b[N], e[N], out[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    defined<OP>(a, b, N);
    for (int i = 0; i < N; ++i) {
        e[i] = reference<OP>(a[i], b[i]);
    }
    V v(a), w(b);
    V r = apply<OP>(v, w);
    r.store(out);
    compare(out, e, N, msg);
    v.store(out);
    same(out, a, N, "operands are left alone");
    w.store(out);
    same(out, b, N, "operands are left alone");
    apply_to<OP>(v, w);
    v.store(out);
    compare(out, e, N, msg);
    w.store(out);
    same(out, b, N, "operands are left alone");
    vf_reach("done");
}

template<int N, opcode OP>
void left(const char *msg)
{
    typedef short_vec<int, N> V;
    int a[N], b[N], e[N], out[N];
    int s = vf_any<int>("s");
    any_fill(b, N, "b");
    for (int i = 0; i < N; ++i) {
        a[i] = s;
    }
    defined<OP>(a, b, N);
    for (int i = 0; i < N; ++i) {
        e[i] = reference<OP>(s, b[i]);
    }
    V w(b);
    V r = apply_left<OP>(s, w);
    r.store(out);
    compare(out, e, N, msg);
    vf_reach("done");
}

template<int N>
void root()
{
    typedef short_vec<int, N> V;
    int a[N], e[N], out[N];
    any_fill(a, N, "a");
    for (int i = 0; i < N; ++i) {
        vf_assume(a[i] >= 0);
        e[i] = int(std::sqrt(double(a[i])));
    }
    V v(a);
    V r = v.sqrt();
    r.store(out);
    compare(out, e, N, "square root, rounded down");
    V s = sqrt(v);
    s.store(out);
    compare(out, e, N, "square root, rounded down");
    vf_reach("done");
}

// Dividing by a square root: either by the rounded root, or by way of an estimate of its reciprocal
template<int N>
void by_root()
{
    typedef short_vec<int, N> V;
    int a[N], b[N], x[N], out[N];
    double e[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    for (int i = 0; i < N; ++i) {
        vf_assume((a[i] != 0) & (a[i] >= -(1 << 30)) & (a[i] <= (1 << 30)) & (b[i] > 0));
        double r = std::sqrt(double(b[i]));
        e[i] = double(a[i]) / r;
        // true of the roots of positive ints
        vf_assume(int(r) > 0);
        x[i] = a[i] / int(r);
    }
    V v(a), w(b);
    V r = v / sqrt(w);
    r.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_close_i32(out[i], e[i], x[i], 0.00048828125, "division by a square root");
    }
    v.store(out);
    same(out, a, N, "operands are left alone");
    w.store(out);
    same(out, b, N, "operands are left alone");
    v /= sqrt(w);
    v.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_close_i32(out[i], e[i], x[i], 0.00048828125, "compound division by a square root");
    }
    vf_reach("done");
}

#define M(N)                                                            \
    VF_ENTRY(add_##N) { binary<N, ADD>("sum"); } \
    VF_ENTRY(ladd_##N) { left<N, ADD>("sum"); } \
    VF_ENTRY(sub_##N) { binary<N, SUB>("difference"); } \
    VF_ENTRY(lsub_##N) { left<N, SUB>("difference"); } \
    VF_ENTRY(mul_##N) { binary<N, MUL>("product"); } \
    VF_ENTRY(lmul_##N) { left<N, MUL>("product"); } \
    VF_ENTRY(div_##N) { binary<N, DIV>("quotient"); } \
    VF_ENTRY(ldiv_##N) { left<N, DIV>("quotient"); } \
    VF_ENTRY(root_##N) { root<N>(); } \
    VF_ENTRY(byroot_##N) { by_root<N>(); }
ARITIES(M)
#undef M
