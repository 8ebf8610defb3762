from gen import *

C = '''
template <class A, class T, class U, std::size_t N> A sumprod(const std::array<T, N> &a, const std::array<U, N> &b) { A r = A(a[0]) * A(b[0]); for (std::size_t i = 1; i < N; ++i) r = r + A(a[i]) * A(b[i]); return r; }
template <class E, class R> constexpr void ty() { vf_assert(std::is_same_v<R, E>, "result type"); }
template <class V, class W, class T, class U, std::size_t N> void two(V &v, W &w, const std::array<T, N> &a, const std::array<U, N> &b, const char *m)
{
	using A = decltype(T() * U());
	auto d = dsga::dot(v, w); ty<A, decltype(d)>(); near<A>(d, sumprod<A>(a, b), m);
	auto p = dsga::innerProduct(v, w); ty<A, decltype(p)>(); near<A>(p, sumprod<A>(a, b), m);
	std::array<A, N> c; for (std::size_t i = 0; i < N; ++i) c[i] = A(a[i]) - A(b[i]);
	auto q = dsga::distance(v, w); ty<A, decltype(q)>(); near<A>(q, N == 1 ? std::fabs(c[0]) : std::sqrt(sumprod<A>(c, c)), m);
}
template <class V, class T, std::size_t N> void one_(V &v, const std::array<T, N> &a, const char *m)
{
	auto l = dsga::length(v); ty<T, decltype(l)>(); near<T>(l, N == 1 ? std::fabs(a[0]) : std::sqrt(sumprod<T>(a, a)), m);
	if constexpr (N == 1) for (auto x : a) { vf_assert(x != x || l == std::fabs(x), "length of a 1-D vector is its absolute value"); }
}
template <class V, class W, class T, class U, std::size_t N> void inner(V &v, W &w, const std::array<T, N> &a, const std::array<U, N> &b, const char *m)
{
	using A = decltype(T() * U());
	auto p = dsga::innerProduct(v, w); ty<A, decltype(p)>(); check_same<A>(p, sumprod<A>(a, b), m);
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: float and double (and mixed) dot, distance, length; integer innerProduct exactly; pairs of operand forms, dimensions 1-4. Floating-point identities are over the reals (equal up to rounding)\n'
    for pi, (T, U) in enumerate([('double', 'double'), ('float', 'float'), ('float', 'double'), ('double', 'float')]):
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if th or (i + j + n + pi) % (3 if pi < 1 else 6) == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{U}, {g.m}>("b"); {f.decl(T)} {g.decl(U, "w", "b")} two(v, w, {f.exp(T)}, {g.exp(U, "b")}, "{T}{n} {f.key}, {U} {g.key}"); }}\n')
                if T == U:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} one_(v, {f.exp(T)}, "length {T}{n} {f.key}"); }}\n')
        if T == U:
            hs.append(f'\t{{ {T} x = in<{T}>("x"), y = in<{T}>("y"); near<{T}>(dsga::length(x), std::fabs(x), "length of a scalar"); near<{T}>(dsga::distance(x, y), std::fabs(x - y), "distance of scalars"); }}\n')
        pack(out, f'P22_{SH[T]}{SH[U]}', HEAD + C + bound, hs, 8, 4)
    for T, U in [('int', 'int'), ('unsigned', 'int'), ('long long', 'unsigned'), ('unsigned long long', 'unsigned long long')]:
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if (th or (i + j + n) % 4 == 0) and f.key + g.key != 'dupdup':
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{U}, {g.m}>("b"); {f.decl(T)} {g.decl(U, "w", "b")} inner(v, w, {f.exp(T)}, {g.exp(U, "b")}, "innerProduct {T}{n} {f.key}, {U} {g.key}"); }}\n')
        pack(out, f'P22_{SH[T]}{SH[U]}', HEAD + C, hs, 12, 4)
    return out
