from gen import *

C = '''
#include "examples/compare.hxx"
#include <compare>
// the order of two ordered numbers
template <class A, class B> int cmp1(A a, B b)
{
	if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) return std::cmp_less(a, b) ? -1 : std::cmp_greater(a, b) ? 1 : 0;
	else { using T = std::common_type_t<A, B>; T x = T(a), y = T(b); return x < y ? -1 : x > y ? 1 : 0; }
}
template <class T> bool isnum(T x) { return x == x; }
template <class A, class B, std::size_t N> int lex(const std::array<A, N> &a, const std::array<B, N> &b)
{
	int r = 0;
	for (std::size_t i = N; i-- > 0; ) { int c = cmp1(a[i], b[i]); r = c != 0 ? c : r; }
	return r;
}
template <class A, class B, std::size_t N> bool nums(const std::array<A, N> &a, const std::array<B, N> &b)
{ bool r = true; for (std::size_t i = 0; i < N; ++i) r = r & isnum(a[i]) & isnum(b[i]); return r; }
// some difference of signed components is not representable (the recorded defect KF02; decided separately)
template <class A, class B> bool ovf1(A a, B b)
{
	if constexpr (std::is_integral_v<A> && std::is_integral_v<B> && std::is_signed_v<A> && std::is_signed_v<B>) { std::common_type_t<A, B> d; return __builtin_sub_overflow(a, b, &d); } else return false;
}
template <class A, class B, std::size_t N> bool ovf(const std::array<A, N> &a, const std::array<B, N> &b)
{ bool r = false; for (std::size_t i = 0; i < N; ++i) r = r | ovf1(a[i], b[i]) | ovf1(b[i], a[i]); return r; }
template <class O> int ord(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
template <class A, class B, class O> void okind(O)
{
	if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) vf_assert(std::is_same_v<O, std::strong_ordering>, "strong ordering of integers");
	else vf_assert(std::is_same_v<O, std::partial_ordering>, "partial ordering with a floating-point operand");
}
template <class A, class B, std::size_t N, class V, class W> void three(const V &v, const W &w, const std::array<A, N> &a, const std::array<B, N> &b)
{
	vf_assume(!ovf(a, b)); auto o = v <=> w, p = w <=> v; okind<A, B>(o);
	const int r = ord(o), e = nums(a, b) ? lex(a, b) : 2;
	vf_assert(r == e, "three-way comparison is lexicographic, unordered with a NaN");
	vf_assert(ord(p) == (e == 2 ? 2 : -e), "comparison is antisymmetric");
	vf_assert((v < w) == (e == -1) && (v > w) == (e == 1) && (v <= w) == (e == -1 || e == 0) && (v >= w) == (e == 1 || e == 0), "relational operators");
	for (std::size_t i = 0; i < N; ++i) { check_same<A>(v[i], a[i], "left operand unchanged"); check_same<B>(w[i], b[i], "right operand unchanged"); }
	auto d = weighted_compare(v, w, default_comparison_weights<N>()); vf_assert(ord(d) == e, "default weights");
}
template <class T, std::size_t N> void transitive()
{
	const auto a = arr<T, N>("a"), b = arr<T, N>("b"), c = arr<T, N>("c"); auto x = vec(a), y = vec(b), z = vec(c);
	vf_assume(!ovf(a, b) && !ovf(b, c) && !ovf(a, c));
	const int p = ord(x <=> y), q = ord(y <=> z), r = ord(x <=> z);
	vf_assert(!(p == -1 && q == -1) || r == -1, "transitive"); vf_assert(!(p == 0 && q == 0) || r == 0, "equality is transitive");
	vf_assert(!(p == 0 && q == -1) || r == -1, "equal vectors compare alike"); vf_assert((p == 0) == bool(functions::all(functions::equal(x, y))), "equal exactly when the vectors are");
	vf_assert(ord(x <=> x) == (nums(a, a) ? 0 : 2), "reflexive");
}
template <class A, class B, class W, std::size_t N> void weighted()
{
	const auto a = arr<A, N>("a"); const auto b = arr<B, N>("b"); const auto w = arr<W, N>("w");
	long long s = 0; for (std::size_t i = 0; i < N; ++i) { constexpr int L = N == 1 ? 1000000000 : N == 2 ? 1000000 : N == 3 ? 100 : 15; vf_assume(w[i] >= -L && w[i] <= L); const int c = cmp1(a[i], b[i]); const long long k = w[i]; s += c < 0 ? -k : c > 0 ? k : 0; }
	vf_assume(!ovf(a, b)); auto o = weighted_compare(vec(a), vec(b), vec(w)); okind<A, B>(o);
	vf_assert(ord(o) == (nums(a, b) ? (s < 0 ? -1 : s > 0 ? 1 : 0) : 2), "weighted comparison has the sign of the weighted sum");
}
template <class A, class B, std::size_t N> void far()
{
	const auto a = arr<A, N>("a"); const auto b = arr<B, N>("b"); vf_assume(ovf(a, b));
	vf_assert(ord(vec(a) <=> vec(b)) == lex(a, b), "signed components whose difference overflows");
}
template <class A, class B, std::size_t K, std::size_t R> void mat()
{
	const auto a = arr<A, K * R>("a"); const auto b = arr<B, K * R>("b"); basic_matrix<A, K, R> m; basic_matrix<B, K, R> n;
	for (std::size_t c = 0; c < K; ++c) for (std::size_t r = 0; r < R; ++r) { m[c][r] = a[c * R + r]; n[c][r] = b[c * R + r]; }
	int e = 0;
	for (std::size_t c = K; c-- > 0; ) { std::array<A, R> x; std::array<B, R> y; for (std::size_t i = 0; i < R; ++i) { x[i] = a[c * R + i]; y[i] = b[c * R + i]; } int f = nums(x, y) ? lex(x, y) : 2; e = f != 0 ? f : e; }
	auto o = m <=> n; okind<A, B>(o); vf_assert(ord(o) == e, "matrix comparison is lexicographic over the columns");
	vf_assert((m < n) == (e == -1) && (m >= n) == (e == 1 || e == 0), "relational operators");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: dimensions 1-4, every operand form against another, all values (all int and long long weights up to 10^9, 10^6, 100, 15 in magnitude in 1, 2, 3, 4 dimensions), all 9 matrix shapes\n'
    pairs = [(a, b) for a in NUM for b in NUM]
    for ai, (A, B) in enumerate(pairs):
        hs = ''
        for n in range(1, 5):
            if not th and A != B and ((n + ai) % 4 != 1 or n == 4 and 'double' in (A, B)):
                continue
            fs = forms(n)
            for k, f in enumerate(fs):
                if not th and (k != (ai + n) % len(fs) if A != B else (k + n + ai) % (10 if A in ('float', 'double') else 5)):
                    continue
                if not th and n > 2 and A in ('int', 'long long') and B in ('int', 'long long') and (A != B or k >= 5):
                    continue
                g = fs[(3 * k + n + ai) % len(fs)]
                hs += (f'H(lex_{SH[A]}{SH[B]}{n}_{f.key}) {{ auto a = arr<{A}, {f.m}>("a"); auto b = arr<{B}, {g.m}>("b"); {f.decl(A)} {g.decl(B, "w", "b")} '
                       f'three<{A}, {B}, {n}>(v, w, {f.exp(A)}, {g.exp(B, "b")}); }}\n')
            if A == B and (th or n < 3):
                hs += f'H(transitive_{SH[A]}{n}) {{ transitive<{A}, {n}>(); }}\n'
            if A in ('int', 'long long') and B in ('int', 'long long'):
                hs += f'H(far_{SH[A]}{SH[B]}{n}) {{ far<{A}, {B}, {n}>(); }}\n'
            for w in ('int', 'long long'):
                if th or n < 4 and (n + ai + (w == 'int')) % 4 == 0:
                    hs += f'H(weighted_{SH[A]}{SH[B]}{n}{SH[w]}) {{ weighted<{A}, {B}, {w}, {n}>(); }}\n'
        if 'float' in (A, B) or 'double' in (A, B):
            if A in ('float', 'double') and B in ('float', 'double'):
                for c in range(2, 5):
                    for r in range(2, 5):
                        if th or A == B and c * r <= 6 and (c + r + (A == 'float')) % 2:
                            hs += f'H(mat_{SH[A]}{SH[B]}{c}{r}) {{ mat<{A}, {B}, {c}, {r}>(); }}\n'
        if hs:
            out[f'P34_{SH[A]}{SH[B]}'] = HEAD + C + bound + hs
    return out
