from gen import *

C = '''
#include "examples/tolerance.hxx"
// |d| as a number no larger than t (false for a NaN)
template <class T, class U> bool small(T d, U t)
{
	const T u = static_cast<T>(t);
	if constexpr (std::is_unsigned_v<T>) return d <= u; else if constexpr (std::is_integral_v<T>) return d <= u && -d <= u; else return (d < 0 ? -d : d) <= u;
}
template <class T> T diff(T x, T y)
{
	if constexpr (std::is_unsigned_v<T>) { vf_assume(x >= y); return T(x - y); }	// the smaller first is the recorded defect KF03, decided separately
	else if constexpr (std::is_integral_v<T>)
	{
		// the difference of signed values has to be representable, and not the most negative value
		T d; vf_assume(!__builtin_sub_overflow(x, y, &d) && d != std::numeric_limits<T>::min());
		return d;
	}
	else return x - y;
}
template <class T> void mag(T x) { if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) vf_assume(x != std::numeric_limits<T>::min()); }
// r is the conjunction of the e[i]
template <std::size_t N> void conj(bool r, const std::array<bool, N> &e, const char *m)
{ bool all = true; for (std::size_t i = 0; i < N; ++i) { vf_assert(!r || e[i], m); all = all & e[i]; } vf_assert(r || !all, m); }
template <class T, class U> void scalar()
{
	T x = in<T>("x"), y = in<T>("y"); U t = in<U>("t"); const T d = diff<T>(x, y); mag(x);
	vf_expect_abort(!(t >= U(0)));
	vf_assert(within_tolerance(x, t) == small(x, t), "scalar within_tolerance"); vf_assert(within_distance(x, y, t) == small(d, t), "scalar within_distance"); vf_assert(within_box(x, y, t) == small(d, t), "scalar within_box");
	if constexpr (std::is_signed_v<T>) { const T r = diff<T>(y, x); vf_assert(within_distance(y, x, t) == small(r, t) && within_box(y, x, t) == small(r, t), "symmetric"); }
	if constexpr (std::is_floating_point_v<T>) { vf_assert(x == x || !within_tolerance(x, t), "a NaN is not within"); vf_assert((x == x && y == y) || !within_distance(x, y, t), "a NaN is not within"); }
	vf_expect_end("no assertion for a negative tolerance");
}
// unsigned, smaller operand first
template <class T, class U> void wrapped()
{
	T x = in<T>("x"), y = in<T>("y"); U t = in<U>("t"); vf_assume(x < y);
	vf_assert(within_distance(x, y, t) == (T(y - x) <= t) && within_box(x, y, t) == (T(y - x) <= t) && within_box(basic_vector<T, 1>(x), basic_vector<T, 1>(y), t) == (T(y - x) <= t), "unsigned operands with the smaller one first");
}
template <class T, class U, std::size_t N, class V, class A> void vectors(V &v, const A &a)
{
	U t = in<U>("t"); std::array<bool, N> e; for (std::size_t i = 0; i < N; ++i) { mag(a[i]); e[i] = small(a[i], t); }
	vf_expect_abort(!(t >= U(0)));
	conj(within_tolerance(v, t), e, "vector within_tolerance of a scalar"); conj(within_tolerance(v, basic_vector<U, 1>(t)), e, "vector within_tolerance of a one-dimensional vector");
	vf_expect_end("no assertion for a negative tolerance");
}
template <class T, class U, std::size_t N, class V, class A> void vtol(V &v, const A &a)
{
	const auto u = arr<U, N>("u"); bool ok = true; std::array<bool, N> e; for (std::size_t i = 0; i < N; ++i) { mag(a[i]); e[i] = small(a[i], u[i]); ok = ok & (u[i] >= U(0)); }
	vf_expect_abort(!ok);
	conj(within_tolerance(v, vec(u)), e, "vector within_tolerance of a vector");
	vf_expect_end("no assertion for a negative tolerance component");
}
template <class T, class U, std::size_t N, class V, class W, class A> void boxes(V &v, W &w, const A &a, const A &b)
{
	U t = in<U>("t"); std::array<bool, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = small(diff<T>(a[i], b[i]), t);
	vf_expect_abort(!(t >= U(0)));
	conj(within_box(v, w, t), e, "within_box of a scalar");
	if constexpr (N == 2 || N == 3) conj(within_box(v, w, basic_vector<U, 1>(t)), e, "within_box of a one-dimensional vector");
	for (std::size_t i = 0; i < N; ++i) { check_same<T>(v[i], a[i], "operand unchanged"); check_same<T>(w[i], b[i], "operand unchanged"); }
	vf_expect_end("no assertion for a negative tolerance");
}
template <class T, class U, std::size_t N, class V, class W, class A> void boxv(V &v, W &w, const A &a, const A &b)
{
	const auto u = arr<U, N>("u"); bool ok = true; std::array<bool, N> e; for (std::size_t i = 0; i < N; ++i) { e[i] = small(diff<T>(a[i], b[i]), u[i]); ok = ok & (u[i] >= U(0)); }
	vf_expect_abort(!ok);
	conj(within_box(v, w, vec(u)), e, "within_box of a vector");
	vf_expect_end("no assertion for a negative tolerance component");
}
template <class T, class U, std::size_t N, class V, class W, class A> void dist(V &v, W &w, const A &a, const A &b)
{
	U t = in<U>("t"); const T d = functions::distance(vec(a), vec(b)); const bool e = small(d, t); bool num = t == t; for (std::size_t i = 0; i < N; ++i) num = num & (a[i] == a[i]) & (b[i] == b[i]);
	vf_expect_abort(!(t >= U(0)));
	const bool r = within_distance(v, w, t); vf_assert(r == e, "within_distance is distance <= tolerance"); vf_assert(within_distance(v, w, basic_vector<U, 1>(t)) == e, "within_distance of a one-dimensional vector");
	vf_assert(num || !r, "a NaN is not within");
	vf_expect_end("no assertion for a negative tolerance");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = ('// VF-BOUND: dimensions 1-4, every operand form; all values and tolerances including negative, infinite and NaN; '
             'signed integer differences representable\n')
    for T, U in [('int', 'int'), ('unsigned', 'unsigned'), ('long long', 'long long'), ('unsigned long long', 'unsigned long long'), ('float', 'float'),
                 ('double', 'double'), ('double', 'float'), ('long long', 'int'), ('double', 'int')]:
        s = SH[T] + SH[U]
        hs = f'H(scalar_{s}) {{ scalar<{T}, {U}>(); }}\n'
        if T.startswith('unsigned'):
            hs += f'H(wrapped_{s}) {{ wrapped<{T}, {U}>(); }}\n'
        for n in range(1, 5):
            if T.startswith('unsigned') and n > 1:
                continue        # abs() has no unsigned vector overload, so these do not compile
            fs = forms(n)
            for k, f in enumerate(fs):
                if not th and (k + n + len(s)) % 4 and T != 'int' or (T.startswith('unsigned') and f.key != 'vec'):
                    continue
                if not th and T == 'int' and (k + n) % 2:
                    continue
                g = fs[(3 * k + n + 1) % len(fs)]
                d1, d2 = f'auto a = arr<{T}, {f.m}>("a"); {f.decl(T)}', f'auto b = arr<{T}, {g.m}>("b"); {g.decl(T, "w", "b")}'
                e1, e2 = f.exp(T), g.exp(T, 'b')
                hs += f'H(tol_{s}{n}_{f.key}) {{ {d1} vectors<{T}, {U}, {n}>(v, {e1}); }}\n'
                hs += f'H(box_{s}{n}_{f.key}) {{ {d1} {d2} boxes<{T}, {U}, {n}>(v, w, {e1}, {e2}); }}\n'
                hs += f'H(vtol_{s}{n}_{f.key}) {{ {d1} vtol<{T}, {U}, {n}>(v, {e1}); }}\n'
                if n > 1:
                    hs += f'H(boxv_{s}{n}_{f.key}) {{ {d1} {d2} boxv<{T}, {U}, {n}>(v, w, {e1}, {e2}); }}\n'
                if T in ('float', 'double'):
                    hs += f'H(dist_{s}{n}_{f.key}) {{ {d1} {d2} dist<{T}, {U}, {n}>(v, w, {e1}, {e2}); }}\n'
        out[f'P35_{s}'] = HEAD + C + bound + hs
    return out
