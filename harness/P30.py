from gen import *

C = '''
template <class T, std::size_t K> void chk(const std::array<T, K> &b, const std::array<T, K> &e, const char *m) { for (std::size_t i = 0; i < K; ++i) check_same<T>(b[i], e[i], m); }
template <class A, class T, std::size_t N> void has(const A &v, const std::array<T, N> &e, const char *m) { for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], e[i], m); }
template <class X> void sw(X &a, X &b, int how) { if (how == 0) a.swap(b); else if (how == 1) swap(a, b); else { using std::swap; swap(a, b); } }
template <class V, class T, std::size_t N> void owned(const char *m)
{
	const auto p = arr<T, N>("p"), q = arr<T, N>("q");
	for (int how = 0; how < 3; ++how)
	{
		V a{}, b{}; for (std::size_t i = 0; i < N; ++i) { a[i] = p[i]; b[i] = q[i]; }
		sw(a, b, how); has(a, q, m); has(b, p, m); sw(b, b, how); has(b, p, m); sw(a, b, how); has(a, p, m); has(b, q, m);
		a[0] = q[0]; has(b, q, m);
	}
}
template <class T, std::size_t C, std::size_t R> void mat()
{
	std::array<std::array<T, R>, C> p, q; for (auto &c : p) c = arr<T, R>("p"); for (auto &c : q) c = arr<T, R>("q");
	for (int how = 0; how < 3; ++how)
	{
		basic_matrix<T, C, R> a, b; set_mat(a, p); set_mat(b, q); sw(a, b, how);
		for (std::size_t c = 0; c < C; ++c) { has(a[c], q[c], "matrix swap"); has(b[c], p[c], "matrix swap"); }
		sw(a, a, how); for (std::size_t c = 0; c < C; ++c) has(a[c], q[c], "matrix self swap");
		swap(a[0], a[1]); has(a[0], q[1], "column swap"); has(a[1], q[0], "column swap"); if (C > 2) has(a[C - 1], q[C - 1], "column swap");
	}
}
// views at offsets i and j of one buffer
template <class V, class T, std::size_t N, std::size_t K> void views(std::size_t i, std::size_t j, int how)
{
	const auto o = arr<T, K>("b"); auto b = o;
	V v(b.data() + i), w(b.data() + j);
	const bool overlap = i != j && (i < j ? j - i : i - j) < N;
	bool thrown = false;
	try { sw(v, w, how); } catch (const std::exception &) { thrown = true; }
	vf_assert(thrown == overlap, "swap throws exactly for partially overlapping views");
	auto e = o; if (!overlap) for (std::size_t k = 0; k < N; ++k) { e[i + k] = o[j + k]; e[j + k] = o[i + k]; }
	chk(b, e, "view swap"); vf_assert(v.data() == b.data() + i && w.data() == b.data() + j, "swap does not re-seat");
}
// the same with every pair of offsets
template <class V, class T, std::size_t N> void sym(int how)
{
	constexpr std::size_t K = 2 * N + 1;
	for (std::size_t i = 0; i + N <= K; ++i) for (std::size_t j = 0; j + N <= K; ++j) views<V, T, N, K>(i, j, how);
}
template <class V, class T, std::size_t N> void two()
{
	const auto p = arr<T, N + 1>("p"), q = arr<T, N + 1>("q");
	for (int how = 0; how < 2; ++how)
	{
		auto a = p, b = q; V v(a.data()), w(b.data() + 1); sw(v, w, how);
		auto ea = p, eb = q; for (std::size_t i = 0; i < N; ++i) { ea[i] = q[i + 1]; eb[i + 1] = p[i]; }
		chk(a, ea, "view swap"); chk(b, eb, "view swap"); sw(v, v, how); chk(a, ea, "self swap");
	}
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: vectors, storage wrappers, view_vectors and matrices of every size; basic_view and view_wrapper at every pair of offsets in a buffer of 2N+1 elements, member swap, dsga::swap and using std::swap; all values\n'
    for T in ALL_TYPES if th else ['int', 'double', 'float', 'bool']:
        hs = ''
        for n in range(1, 5):
            for k, V in enumerate((f'basic_vector<{T}, {n}>', f'storage_wrapper<true, {T}, {n}>', f'view_vector<{T}, {n}>')):
                hs += f'H(own{k}_{SH[T]}{n}) {{ owned<{V}, {T}, {n}>("swap {V}"); }}\n'
            for k, V in enumerate((f'basic_view<true, {T}, {n}>', f'view_wrapper<true, {T}, {n}>')):
                hs += f'H(two{k}_{SH[T]}{n}) {{ two<{V}, {T}, {n}>(); }}\n'
                for how in (0, 1):
                    hs += f'H(sym{k}{how}_{SH[T]}{n}) {{ sym<{V}, {T}, {n}>({how}); }}\n'
            hs += f'H(nul_{SH[T]}{n}) {{ {T} b[{n}]{{}}; basic_view<true, {T}, {n}> v(b), w; vf_expect_abort(true); v.swap(w); vf_expect_end("swap with a null view"); }}\n'
        out[f'P30_{SH[T]}'] = HEAD + C + bound + hs
    hs = ''
    for T in ('float', 'double'):
        for c in range(2, 5):
            for r in range(2, 5):
                hs += f'H(mat_{SH[T]}{c}{r}) {{ mat<{T}, {c}, {r}>(); }}\n'
    out['P30_m'] = HEAD + C + bound + hs
    return out
