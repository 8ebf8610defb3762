from gen import *

C = '''
template <class A, class T, std::size_t N> void has(const A &v, const std::array<T, N> &e, const char *m) { vf_assert(std::is_same_v<A, basic_vector<T, N>>, "result type"); for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], e[i], m); }
template <class V, class T, std::size_t N> void same_as(const V &v, const std::array<T, N> &a, const char *m) { for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], a[i], m); }
template <class T, std::size_t N, class V> void shifts(V &v, const std::array<T, N> &a)
{
	int n = in<int>("n");
	auto r = v.shift(n); std::array<T, N> e;
	for (std::size_t i = 0; i < N; ++i) { long long k = (long long)i + n; e[i] = T(0); for (std::size_t j = 0; j < N; ++j) if (k == (long long)j) e[i] = a[j]; }
	has(r, e, "shift"); same_as(v, a, "operand unchanged by shift");
}
template <class T, std::size_t N, class V> void cshifts(V &v, const std::array<T, N> &a)
{
	int n = in<int>("n"); unsigned s = unsigned(((long long)n + 4294967296ll * N) % (long long)N);
	auto r = v.cshift(n); std::array<T, N> e;
	for (std::size_t i = 0; i < N; ++i) { unsigned k = (unsigned(i) + s) % unsigned(N); e[i] = a[0]; for (std::size_t j = 1; j < N; ++j) if (k == j) e[i] = a[j]; }
	has(r, e, "cshift"); same_as(v, a, "operand unchanged by cshift");
}
template <class T> T bump(T x, unsigned k) { if constexpr (std::is_same_v<T, bool>) return x != (k % 2 == 1); else return T(x + T(k)); }
template <class T, std::size_t N, class V> void maps(V &v, const std::array<T, N> &a)
{
	unsigned calls = 0; std::array<T, N> e;
	auto r = v.apply([&calls](T x) { return bump<T>(x, calls++); });
	for (std::size_t i = 0; i < N; ++i) e[i] = bump<T>(a[i], unsigned(i));
	has(r, e, "apply calls once per element in order"); vf_assert(calls == N, "apply calls"); same_as(v, a, "operand unchanged by apply");
	calls = 0; auto r2 = v.apply([&calls](const T &x) -> T { return bump<T>(x, calls++); }); has(r2, e, "apply by reference");
	T t = in<T>("t"); std::array<bool, N> q; std::array<T, N> seen{}; calls = 0;
	auto b = v.query([&](T x) { seen[calls < N ? calls : 0] = x; ++calls; return x < t; });
	for (std::size_t i = 0; i < N; ++i) q[i] = a[i] < t;
	has(b, q, "query"); same_as(seen, a, "query calls once per element in order"); vf_assert(calls == N, "query calls");
	auto b2 = v.query([&](const T &x) { return !(x < t); }); for (std::size_t i = 0; i < N; ++i) q[i] = !q[i]; has(b2, q, "query by reference");
}
template <class T, std::size_t N, class V> void folds(V &v, const std::array<T, N> &a)
{
	if constexpr (std::is_floating_point_v<T>) { for (auto x : a) vf_assume(x == x); }
	T lo = v.min(), hi = v.max(); bool inl = false, inh = false, le = true, ge = true;
	for (std::size_t i = 0; i < N; ++i) { le = le & (lo <= a[i]); ge = ge & (hi >= a[i]); inl = inl | (lo == a[i]); inh = inh | (hi == a[i]); }
	vf_assert(le && inl, "min"); vf_assert(ge && inh, "max"); vf_assert(std::is_same_v<decltype(v.min()), T> && std::is_same_v<decltype(v.sum()), T>, "types");
	same_as(v, a, "operand unchanged by min, max");
}
template <class T, std::size_t N, class V> void sums(V &v, const std::array<T, N> &a)
{
	T s = a[0]; for (std::size_t i = 1; i < N; ++i) s = T(s + a[i]);
	if constexpr (std::is_floating_point_v<T>) near<T>(v.sum(), s, "sum"); else check_same<T>(v.sum(), s, "sum");
	same_as(v, a, "operand unchanged by sum");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: dimensions 1-4, every operand form, every int shift count, all values (no NaN for min and max); floating-point sum over the reals\n'
    for T in ALL_TYPES if th else ['int', 'double', 'float', 'bool', 'unsigned long long']:
        hs = ''
        full = th or T == 'int'
        for n in range(1, 5):
            for k, f in enumerate(forms(n)):
                if not full and (k + n + (T == 'double')) % 4:
                    continue
                d = f'auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} '
                e = f.exp(T)
                fns = ['shifts', 'cshifts', 'maps'] + (['folds', 'sums'] if T != 'bool' else [])
                for fn in fns:
                    hs += f'H({fn}_{SH[T]}{n}{f.key}) {{ {d} {fn}<{T}, {n}>(v, {e}); }}\n'
        out[f'P31_{SH[T]}'] = HEAD + C + bound + hs
    return out
