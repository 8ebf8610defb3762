from gen import *

C = '''
#include "examples/hash.hxx"
template <class V> std::size_t hs(const V &v) { return std::hash<std::remove_cvref_t<V>>{}(v); }
template <class T, std::size_t N> bool equal(const std::array<T, N> &a, const std::array<T, N> &b) { bool r = true; for (std::size_t i = 0; i < N; ++i) r = r & (a[i] == b[i]); return r; }
// an array that agrees with a, up to the sign of zeros
template <class T, std::size_t N> std::array<T, N> like(const std::array<T, N> &a)
{
	auto b = a;
	if constexpr (std::is_floating_point_v<T>) for (auto &x : b) { vf_assume(x == x); if (x == T(0)) x = in<bool>("s") ? T(-0.0) : T(0); }
	return b;
}
// the hash of v is that of a vector holding the same values, and of any equal vector
template <class T, std::size_t N, class V> void form(const V &v, const std::array<T, N> &a, const char *m)
{
	const auto b = like(a); const std::size_t h = hs(v);
	vf_assert(h == hs(vec(a)), m); vf_assert(h == hs(vec(b)), m); vf_assert(h == hs(v), m);
}
template <class T, std::size_t N> void more()
{
	auto a = arr<T, N>("a"); const auto v = vec(a); auto st = a; const std::size_t h = hs(v);
	storage_wrapper<true, T, N> s; for (std::size_t i = 0; i < N; ++i) s[i] = a[i];
	storage_wrapper<false, T, N> t{s.store};
	view_wrapper<true, T, N> u(st.data()); view_wrapper<false, T, N> w(st.data());
	vf_assert(hs(s) == h && hs(t) == h, "storage_wrapper"); vf_assert(hs(u) == h && hs(w) == h, "view_wrapper");
}
// changing one component changes the hash (floating point: provided std::hash distinguishes the two components)
template <class T, std::size_t N, class F> void depends(F f, const char *m)
{
	auto a = arr<T, N>("a");
	for (std::size_t k = 0; k < N; ++k)
	{
		auto b = a; const T x = in<T>("x"); b[k] = x;
		vf_assert(f(a) != f(b) || std::hash<T>{}(x) == std::hash<T>{}(a[k]), m);
	}
}
// matrices that differ in the sign of one zero (the general case follows by transitivity)
template <class T, std::size_t Cc, std::size_t R> void mat()
{
	basic_matrix<T, Cc, R> m; std::array<std::array<T, R>, Cc> a; for (std::size_t c = 0; c < Cc; ++c) { a[c] = arr<T, R>("m"); for (auto x : a[c]) vf_assume(x == x); } set_mat(m, a);
	const std::size_t h = hs(m); vf_assert(h == hs(basic_matrix<T, Cc, R>(m)), "hash of a copy");
	for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < R; ++r)
	{
		auto n = m; n[c][r] = a[c][r] == T(0) ? T(0) : a[c][r];
		vf_assert(m == n, "equal matrices"); vf_assert(h == hs(n), "equal matrices hash equally");
	}
}
template <class T, std::size_t Cc, std::size_t R> void dmat()
{
	depends<T, Cc * R>([](const std::array<T, Cc * R> &a) { basic_matrix<T, Cc, R> m; for (std::size_t i = 0; i < Cc * R; ++i) m[i / R][i % R] = a[i]; return hs(m); }, "the hash of a matrix depends on every element");
}
// the order of the components matters
template <class T, std::size_t N> void order()
{
	for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < i; ++j)
	{ basic_vector<T, N> a(T(0)), b(T(0)); a[i] = T(1); b[j] = T(1); vf_assert(hs(a) != hs(b), "the hash depends on the order of the components"); }
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: every scalar type, vector form and matrix shape; all component values; std::hash of a floating-point scalar is an arbitrary function of its bits (0 for zeros)\n'
    fs = []
    ds = []
    ms = []
    for T in ALL_TYPES:
        for n in range(1, 5):
            for f in forms(n):
                fs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} form<{T}, {n}>(v, {f.exp(T)}, "{T}{n} {f.key}"); }}\n')
            fs.append(f'\tmore<{T}, {n}>();\n')
            ds.append(f'\tdepends<{T}, {n}>([](const auto &a) {{ return hs(vec(a)); }}, "the hash depends on every component ({T}{n})");\n')
            for f in forms(n, ('vv', 'view')):
                ds.append(f'\tdepends<{T}, {n}>([](const auto &a) {{ {f.decl(T)} return hs(v); }}, "the hash depends on every component ({T}{n} {f.key})");\n')
            if n > 1 and T not in ('float', 'double'):
                ds.append(f'\torder<{T}, {n}>();\n')
    for T in ('float', 'double'):
        for c in range(2, 5):
            for r in range(2, 5):
                if not th and c * r > (16 if (c, r) == (3, 4) else 9):
                    continue
                ms.append(f'\tmat<{T}, {c}, {r}>();\n')
                if th or c * r < 7:
                    ds.append(f'\tdmat<{T}, {c}, {r}>();\n')
    pack(out, 'P38_form', HEAD + C + bound, fs, 6, 12)
    pack(out, 'P38_mat', HEAD + C, ms, 1, 6)
    pack(out, 'P38_dep', HEAD + C, ds, 1, 30)
    return out
