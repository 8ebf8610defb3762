from gen import *

C = '''
template <class T, std::size_t K> void chk(const std::array<T, K> &b, const std::array<T, K> &e, const char *m) { for (std::size_t i = 0; i < K; ++i) check_same<T>(b[i], e[i], m); }
template <class T> constexpr bool NB = !std::is_same_v<T, bool>;
template <class T> T bump(T x) { if constexpr (std::is_same_v<T, bool>) return !x; else return T(x + T(1)); }
template <class V, class X> concept assignable = requires(V &v, X x) { v = x; };
template <class V, class X> concept indexable_write = requires(V &v, X x) { v[0] = x; };
template <class V> concept has_set1 = requires(V &v) { v.set(1); };
template <class V> concept has_set2 = requires(V &v) { v.set(1, 1); };
template <class V> concept writable_data = requires(V &v) { *v.data() = 1; };
template <class V> concept writable_begin = requires(V &v) { *v.begin() = 1; };
template <class V> concept incr = requires(V &v) { ++v; };
template <class V> concept compound = requires(V &v) { v += 1; };
template <class V> concept swz_write = requires(V &v) { v.x = 1; };
template <class V> concept swappable_ = requires(V &v) { v.swap(v); };
template <class V> concept freeswap = requires(V &v) { swap(v, v); };

// a view at position `off` of a buffer of 7 elements
template <class T, std::size_t N> void live(std::size_t off)
{
	auto b = arr<T, 7>("b"); const auto o = b; T x = in<T>("x");
	basic_view<true, T, N> v(b.data() + off); basic_view<false, T, N> c(b.data() + off); const basic_view<true, T, N> k(b.data() + off); basic_view<false, T, N> cc((const T *)b.data() + off);
	for (std::size_t i = 0; i < N; ++i) { check_same<T>(v[i], o[off + i], "view reads its storage"); check_same<T>(c[i], o[off + i], "const view reads its storage"); check_same<T>(k[i], o[off + i], "view reads its storage"); check_same<T>(cc[i], o[off + i], "const view reads its storage"); }
	vf_assert(v.data() == b.data() + off && c.data() == b.data() + off && k.data() == b.data() + off && cc.data() == b.data() + off, "data() is the viewed storage");
	vf_assert(&v[N - 1] == b.data() + off + N - 1 && &c[N - 1] == b.data() + off + N - 1, "elements are the viewed storage");
	b[off + N - 1] = x;      // changed behind the view's back
	check_same<T>(v[N - 1], x, "live"); check_same<T>(c[N - 1], x, "live"); check_same<T>(k[N - 1], x, "live"); check_same<T>(c.x[0], b[off], "live swizzle"); check_same<T>(*(c.end() - 1), x, "live iteration");
	basic_vector<T, N> cp; if constexpr (NB<T>) cp = v; else for (std::size_t i = 0; i < N; ++i) cp[i] = v[i]; for (std::size_t i = 0; i < N; ++i) check_same<T>(cp[i], b[off + i], "copy into a vector");
	b[off] = bump(b[off]); check_same<T>(v[0], b[off], "live after copying"); vf_assert(same<T>(cp[0], N == 1 ? x : o[off]), "a copied vector is independent");
}
template <class T, std::size_t N> void wr(std::size_t off)
{
	const auto o = arr<T, 7>("b"); const auto s = arr<T, N>("s"); T x = in<T>("x");
	auto ex1 = [&](std::size_t i, T y) { auto e = o; e[off + i] = y; return e; };
	auto all = o; for (std::size_t i = 0; i < N; ++i) all[off + i] = s[i];
	for (std::size_t i = 0; i < N; ++i)
	{
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); v[i] = x; chk(b, ex1(i, x), "v[i] = x"); }
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); v.data()[i] = x; chk(b, ex1(i, x), "v.data()[i] = x"); }
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); *(v.begin() + i) = x; chk(b, ex1(i, x), "iterator write"); }
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); *(v.rbegin() + i) = x; chk(b, ex1(N - 1 - i, x), "reverse iterator write"); }
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); basic_view<true, T, N> w(v); w[i] = x; chk(b, ex1(i, x), "write through a copied view"); check_same<T>(v[i], x, "copied view shares storage"); }
	}
	if constexpr (NB<T>) { auto b = o; basic_view<true, T, N> v(b.data() + off); v.x = x; chk(b, ex1(0, x), "v.x = x"); }
	if constexpr (N > 1 && NB<T>) { auto b = o; basic_view<true, T, N> v(b.data() + off); v.yx = basic_vector<T, 2>(s[0], s[1]); auto e = o; e[off] = s[1]; e[off + 1] = s[0]; chk(b, e, "v.yx = w"); }
	if constexpr (NB<T>) { auto b = o; basic_view<true, T, N> v(b.data() + off); const basic_vector<T, N> w = vec(s); v = w; chk(b, all, "v = w"); check_same<T>(w[N - 1], s[N - 1], "source unchanged"); vf_assert(v.data() == b.data() + off, "assignment does not re-seat"); }
	if constexpr (NB<T>) { auto b = o; auto t = s; basic_view<true, T, N> v(b.data() + off); basic_view<false, T, N> w(t.data()); v = w; chk(b, all, "v = const view"); chk(t, s, "source unchanged"); vf_assert(v.data() == b.data() + off && w.data() == t.data(), "assignment does not re-seat"); t[0] = bump(t[0]); chk(b, all, "assignment copies values"); }
	{ auto b = o; basic_view<true, T, N> v(b.data() + off); [&]<std::size_t... Is>(std::index_sequence<Is...>) { v.set(s[Is]...); }(std::make_index_sequence<N>{}); chk(b, all, "v.set"); }
	if constexpr (!std::is_same_v<T, bool>)
	{
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); v += x; auto e = o; for (std::size_t i = 0; i < N; ++i) e[off + i] = T(o[off + i] + x); chk(b, e, "v += x"); }
		{ auto b = o; basic_view<true, T, N> v(b.data() + off); ++v; auto e = o; for (std::size_t i = 0; i < N; ++i) e[off + i] = T(o[off + i] + T(1)); chk(b, e, "++v"); }
		{ auto b = o; basic_view<false, T, N> v(b.data() + off); basic_vector<T, N> w(v + x); chk(b, o, "arithmetic leaves the storage alone"); check_same<T>(w[0], T(o[off] + x), "sum"); }
	}
	// re-seating
	{
		auto b = o; auto d = o; basic_view<true, T, N> v(b.data() + off); auto &y = v.x; v[0] = x;
		v.reset(d.data() + 7 - N); vf_assert(v.data() == d.data() + 7 - N, "reset");
		for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], o[7 - N + i], "re-seated view reads the new storage");
		check_same<T>(y[0], o[7 - N], "swizzles follow the re-seated view");
		[&]<std::size_t... Is>(std::index_sequence<Is...>) { v.set(s[Is]...); }(std::make_index_sequence<N>{}); auto e = o; for (std::size_t i = 0; i < N; ++i) e[7 - N + i] = s[i];
		chk(d, e, "write after reset"); chk(b, ex1(0, x), "old storage is left alone");
		v.reset(b.data()); check_same<T>(v[N - 1], b[N - 1], "reset again");
	}
	{ auto b = o; basic_view<false, T, N> v; v.reset((const T *)b.data() + off); basic_view<false, T, N> w(v); vf_assert(w.data() == b.data() + off && v.data() == w.data(), "copying a const view shares storage"); b[off] = x; check_same<T>(w[0], x, "live"); check_same<T>(v[0], x, "live"); }
	// views over vectors and matrix columns
	{ basic_vector<T, 4> q; for (int i = 0; i < 4; ++i) q[i] = o[i]; basic_view<true, T, N> v(q.data() + 4 - N); v[N - 1] = x; for (int i = 0; i < 4; ++i) check_same<T>(q[i], i == 3 ? x : o[i], "view over a vector"); q[4 - N] = s[0]; check_same<T>(v[0], s[0], "live"); }
	if constexpr (std::is_floating_point_v<T> && N > 1)
	{
		basic_matrix<T, 2, N> m; for (std::size_t i = 0; i < N; ++i) { m[0][i] = o[i]; m[1][i] = s[i]; }
		basic_view<true, T, N> v(m[1].data()); v[0] = x; for (std::size_t i = 0; i < N; ++i) { check_same<T>(m[0][i], o[i], "other column"); check_same<T>(m[1][i], i == 0 ? x : s[i], "view over a column"); }
	}
	// a const view, and a const mutable view, cannot be written
	using CV = basic_view<false, T, N>; using KV = const basic_view<true, T, N>; using V = basic_view<true, T, N>;
	vf_assert(!indexable_write<CV, T> && !indexable_write<KV, T> && indexable_write<V, T>, "const views: v[i]");
	vf_assert(!assignable<CV, basic_vector<T, N>> && !assignable<KV, basic_vector<T, N>> && assignable<V, basic_vector<T, N>> == NB<T>, "const views: v = w");
	vf_assert(!writable_data<CV> && !writable_data<KV> && writable_data<V> && !writable_begin<CV> && !writable_begin<KV> && writable_begin<V>, "const views: data, begin");
	if constexpr (N == 1) vf_assert(!has_set1<CV> && !has_set1<KV> && has_set1<V>, "const views: set");
	if constexpr (N == 2) vf_assert(!has_set2<CV> && !has_set2<KV> && has_set2<V>, "const views: set");
	if constexpr (!std::is_same_v<T, bool>) vf_assert(!incr<CV> && !incr<KV> && incr<V> && !compound<CV> && !compound<KV> && compound<V>, "const views: ++, +=");
	vf_assert(!swz_write<CV> && !swz_write<KV> && swz_write<V> == NB<T> && !swappable_<CV> && !swappable_<KV> && swappable_<V> && !freeswap<CV> && !freeswap<KV>, "const views: v.x, swap");
	vf_assert(!std::is_constructible_v<V, const T *> && std::is_constructible_v<CV, const T *>, "a mutable view cannot be made from const storage");
}
template <class T, std::size_t N> void vv()
{
	const auto o = arr<T, N>("b"), s = arr<T, N>("s"); T x = in<T>("x");
	view_vector<T, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = o[i]; view_vector<T, N> b(a); a[0] = x; check_same<T>(b[0], o[0], "view_vector copies own their storage");
	view_vector<T, N> c; c[0] = s[0]; c = b; for (std::size_t i = 0; i < N; ++i) check_same<T>(c[i], o[i], "view_vector assignment"); c[N - 1] = x; check_same<T>(b[N - 1], o[N - 1], "view_vector assignment copies");
	view_vector<T, N> d(std::move(c)); check_same<T>(d[N - 1], x, "view_vector move"); c = std::move(d); check_same<T>(c[N - 1], x, "view_vector move assignment"); d[N - 1] = o[N - 1]; check_same<T>(c[N - 1], x, "moves do not share storage");
	vf_assert(a.data() == a.store && b.data() == b.store && c.data() == c.store && d.data() == d.store, "view_vector views its own storage");
	{ basic_view<true, T, N> v(a); v[0] = s[0]; check_same<T>(a[0], s[0], "a view copied from a view_vector shares its storage"); }
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: views of dimensions 1-4 at every position of a 7-element buffer, over vectors and matrix columns; all values; every way of writing; every other buffer element checked\n'
    types = ALL_TYPES if th else ['int', 'double', 'float', 'bool']
    for T in types:
        hs = ''
        for n in range(1, 5):
            for off in range(0, 8 - n):
                if th or off in (0, 7 - n) or (off == 2 and T in ('int', 'double')):
                    hs += f'H(live{off}_{SH[T]}{n}) {{ live<{T}, {n}>({off}); }}\nH(wr{off}_{SH[T]}{n}) {{ wr<{T}, {n}>({off}); }}\n'
            hs += f'H(vv_{SH[T]}{n}) {{ vv<{T}, {n}>(); }}\n'
            for m, decl in (('null', f'basic_view<true, {T}, {n}> v; '), ('cnull', f'basic_view<false, {T}, {n}> v; '), ('rnull', f'{T} b[{n}]{{}}; basic_view<true, {T}, {n}> v(b); v.reset((({T} *) nullptr)); ')):
                for k, e in enumerate((f'(void) v[{n - 1}];', '(void) v.data();', '(void) v.begin();', '(void) v.end();', '(void) std::as_const(v)[0];', '(void) v.cbegin();', '(void) v.rbegin();', f'auto w = to_array(v); (void) w;')):
                    if th or T == 'int' or (k + n) % 4 == 0:
                        hs += f'H({m}{k}_{SH[T]}{n}) {{ {decl}vf_expect_abort(true); {e} vf_expect_end("null view"); }}\n'
        out[f'P29_{SH[T]}'] = HEAD + C + bound + hs
    return out
