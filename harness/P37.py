from gen import *

C = '''
#include "examples/slice.hxx"
#include "examples/span_convert.hxx"
#include "examples/valarray_convert.hxx"
// slice<L>(v, offset) of something whose elements are the array st, currently equal to a
template <bool M, class T, std::size_t S, std::size_t L, class V> void sl(V &v, T *st, const std::array<T, S> &a, const char *m)
{
	const std::size_t off = in<std::size_t>("off");
	vf_expect_abort(off > S - L);
	auto r = slice<L>(v, off);
	vf_expect_end("slice out of range: no assertion");
	static_assert(std::is_same_v<decltype(r), basic_view<M, T, L>>);
	vf_assert(std::as_const(r).data() == st + off, m);
	for (std::size_t i = 0; i < L; ++i) check_same<T>(r[i], a[off + i], m);
	if constexpr (M)
	{
		const T x = in<T>("x"); const std::size_t k = in<uint8_t>("k") % L;
		r[k] = x;
		for (std::size_t i = 0; i < S; ++i) check_same<T>(st[i], i == off + k ? x : a[i], m);
		if constexpr (!std::is_same_v<T, bool>) { const auto b = arr<T, L>("b"); r = vec(b); for (std::size_t i = 0; i < S; ++i) check_same<T>(st[i], i >= off && i < off + L ? b[i - off] : a[i], m); }
		const T y = in<T>("y"); st[off] = y; check_same<T>(r[0], y, m);
	}
}
// a slice of a slice
template <class T, class V> void sl2(V &v, const std::array<T, 4> &a, const char *m)
{
	const std::size_t o = in<bool>("o"), p = in<bool>("p"); auto r = slice<3>(v, o); auto s = slice<2>(r, p);
	for (std::size_t i = 0; i < 2; ++i) check_same<T>(s[i], a[o + p + i], m);
}
template <class T, class U> bool fits(U x)
{
	if constexpr (std::is_floating_point_v<U> && std::is_integral_v<T> && !std::is_same_v<T, bool>) return x >= U(std::is_signed_v<T> ? -2147483000.0 : 0.0) && x <= U(2147483000.0);
	else return true;
}
template <class T, class U, std::size_t N> void allfit(const std::array<U, N> &a) { for (auto x : a) vf_assume(fits<T>(x)); }
template <class T, class U, std::size_t S, std::size_t E> void cpto()
{
	auto v0 = arr<T, S>("v"); auto s0 = arr<U, E>("s"); allfit<T>(s0);
	const auto check = [&](const basic_vector<T, S> &v, std::size_t n, const char *m) { for (std::size_t i = 0; i < S; ++i) check_same<T>(v[i], i < n && i < E ? static_cast<T>(s0[i]) : v0[i], m); };
	auto s = s0;
	{ auto v = vec(v0); copy_to_vector(v, std::span<U, E>(s)); check(v, E, "copy_to_vector of a span"); }
	{ auto v = vec(v0); const std::size_t n = in<uint8_t>("n") % (E + 1); copy_to_vector(v, std::span<U>(s.data(), n)); check(v, n, "copy_to_vector of a dynamic span"); }
	{ auto v = vec(v0); copy_to_vector(v, std::span<U, 0>(s.data(), 0)); check(v, 0, "copy_to_vector of an empty span"); }
	{ auto v = vec(v0); copy_to_vector(v, std::valarray<U>(s.data(), E)); check(v, E, "copy_to_vector of a valarray"); }
	for (std::size_t i = 0; i < E; ++i) check_same<U>(s[i], s0[i], "source unchanged");
}
template <class T, class U, std::size_t S, std::size_t E> void cpcto()
{
	auto v0 = arr<T, S>("v"); const auto s = arr<U, E>("s"); allfit<T>(s);
	{ auto v = vec(v0); copy_to_vector(v, std::span<const U, E>(s)); for (std::size_t i = 0; i < S; ++i) check_same<T>(v[i], i < E ? static_cast<T>(s[i]) : v0[i], "copy_to_vector of a const span"); }
	{ auto v = vec(v0); const std::size_t n = in<uint8_t>("n") % (E + 1); copy_to_vector(v, std::span<const U>(s.data(), n)); for (std::size_t i = 0; i < S; ++i) check_same<T>(v[i], i < n ? static_cast<T>(s[i < E ? i : 0]) : v0[i], "copy_to_vector of a const dynamic span"); }
}
template <class T, class U, std::size_t S, std::size_t E> void cpfrom()
{
	auto v0 = arr<T, S>("v"); allfit<U>(v0); auto s0 = arr<U, E>("s"); const auto v = vec(v0);
	const auto check = [&](const auto &s, std::size_t n, const char *m) { for (std::size_t i = 0; i < E; ++i) check_same<U>(s[i], i < n && i < S ? static_cast<U>(v0[i]) : s0[i], m); };
	{ auto s = s0; copy_from_vector(std::span<U, E>(s), v); check(s, E, "copy_from_vector to a span"); }
	{ auto s = s0; const std::size_t n = in<uint8_t>("n") % (E + 1); copy_from_vector(std::span<U>(s.data(), n), v); check(s, n, "copy_from_vector to a dynamic span"); }
	{ std::valarray<U> s(s0.data(), E); copy_from_vector(s, v); vf_assert(s.size() == E, "valarray size unchanged"); check(s, E, "copy_from_vector to a valarray"); }
}
template <class T, std::size_t S> void spn()
{
	auto a = arr<T, S>("a"); auto v = vec(a); const auto c = vec(a);
	auto s = make_span(v); static_assert(std::is_same_v<decltype(s), std::span<T, S>>);
	auto t = make_span(c); static_assert(std::is_same_v<decltype(t), std::span<const T, S>>);
	auto u = make_const_span(v); static_assert(std::is_same_v<decltype(u), std::span<const T, S>>);
	vf_assert(s.data() == v.data() && t.data() == c.data() && u.data() == v.data() && s.size() == S && t.size() == S && u.size() == S, "spans refer to the vector");
	for (std::size_t i = 0; i < S; ++i) { check_same<T>(s[i], a[i], "make_span"); check_same<T>(t[i], a[i], "make_span of a const vector"); check_same<T>(u[i], a[i], "make_const_span"); }
	const T x = in<T>("x"); const std::size_t k = in<uint8_t>("k") % S; s[k] = x;
	for (std::size_t i = 0; i < S; ++i) { check_same<T>(v[i], i == k ? x : a[i], "write through make_span"); check_same<T>(u[i], v[i], "write seen by make_const_span"); }
	auto w = to_valarray(c); static_assert(std::is_same_v<decltype(w), std::valarray<T>>); vf_assert(w.size() == S, "to_valarray size");
	for (std::size_t i = 0; i < S; ++i) check_same<T>(w[i], a[i], "to_valarray");
	basic_vector<T, S> b; copy_to_vector(b, w); for (std::size_t i = 0; i < S; ++i) check_same<T>(b[i], a[i], "valarray round trip");
}
template <class T, std::size_t Cc, std::size_t R> void mat()
{
	basic_matrix<T, Cc, R> m; std::array<std::array<T, R>, Cc> a; for (auto &c : a) c = arr<T, R>("m"); set_mat(m, a); const auto cm = m;
	auto s = make_span(m); static_assert(std::is_same_v<decltype(s), std::span<basic_vector<T, R>, Cc>>);
	auto t = make_span(cm); static_assert(std::is_same_v<decltype(t), std::span<const basic_vector<T, R>, Cc>>);
	auto u = make_const_span(m); static_assert(std::is_same_v<decltype(u), std::span<const basic_vector<T, R>, Cc>>);
	for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < R; ++r)
	{ check_same<T>(s[c][r], a[c][r], "make_span of a matrix"); check_same<T>(t[c][r], a[c][r], "make_span of a const matrix"); check_same<T>(u[c][r], a[c][r], "make_const_span of a matrix"); }
	const T x = in<T>("x"); const std::size_t i = in<uint8_t>("i") % Cc, j = in<uint8_t>("j") % R; s[i][j] = x;
	for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < R; ++r) { check_same<T>(m[c][r], c == i && r == j ? x : a[c][r], "write through the span of a matrix"); check_same<T>(u[c][r], m[c][r], "write seen through the const span"); }
	auto f = arr<T, Cc * R>("f"); const auto n = make_matrix<Cc, R>(std::span<T, Cc * R>(f)); static_assert(std::is_same_v<std::remove_cvref_t<decltype(n)>, basic_matrix<T, Cc, R>>);
	for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < R; ++r) check_same<T>(n[c][r], f[c * R + r], "make_matrix is column by column");
	const auto g = arr<T, Cc * R + 2>("g"); const auto o = make_matrix<Cc, R>(std::span<const T, Cc * R + 2>(g));
	for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < R; ++r) check_same<T>(o[c][r], g[c * R + r], "make_matrix of a longer const span");
}
template <class T, std::size_t E, std::size_t... Is> void mkv()
{
	auto a = arr<T, E>("a"); auto r = make_vector(std::span<T, E>(a), std::index_sequence<Is...>{}); static_assert(std::is_same_v<decltype(r), basic_vector<T, sizeof...(Is)>>);
	constexpr std::array<std::size_t, sizeof...(Is)> ix{Is...}; for (std::size_t i = 0; i < ix.size(); ++i) check_same<T>(r[i], a[ix[i]], "make_vector");
	const auto b = a; auto q = make_vector(std::span<const T, E>(b), std::index_sequence<Is...>{}); for (std::size_t i = 0; i < ix.size(); ++i) check_same<T>(q[i], a[ix[i]], "make_vector of a const span");
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = ('// VF-BOUND: slices of every length of vectors of 1-4 components in contiguous forms, every 64-bit offset; copies between vectors and spans or valarrays of 1-6 '
             'elements (dynamic spans of every length up to that); matrices of all nine shapes\n')
    Ts = ALL_TYPES if th else ['bool', 'int', 'unsigned long long', 'float', 'double']
    hs = []
    src = {'vec': ('basic_vector<{T}, {S}> v = vec(a); {T} *st = v.data();', 1), 'cvec': ('const basic_vector<{T}, {S}> v = vec(a); {T} *st = const_cast<{T} *>(v.data());', 0),
           'vv': ('view_vector<{T}, {S}> v(vec(a)); {T} *st = v.data();', 1), 'cvv': ('const view_vector<{T}, {S}> v(vec(a)); {T} *st = const_cast<{T} *>(v.data());', 0),
           'view': ('auto s = a; {T} *st = s.data(); basic_view<true, {T}, {S}> v(st);', 1), 'cview': ('auto s = a; {T} *st = s.data(); basic_view<false, {T}, {S}> v(st);', 0),
           'constview': ('auto s = a; {T} *st = s.data(); const basic_view<true, {T}, {S}> v(st);', 0),
           'constcview': ('auto s = a; {T} *st = s.data(); const basic_view<false, {T}, {S}> v(st);', 0)}
    for T in Ts:
        for S in range(1, 5):
            for L in range(1, S + 1):
                for k, (d, w) in src.items():
                    if th or T in ('int', 'double') or (S + L + len(k)) % 3 == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {S}>("a"); {d.format(T=T, S=S)} sl<{"true" if w else "false"}, {T}, {S}, {L}>(v, st, a, "slice<{L}> {T}{S} {k}"); }}\n')
        for k, (d, w) in src.items():
            hs.append(f'\t{{ auto a = arr<{T}, 4>("a"); {d.format(T=T, S=4)} sl2<{T}>(v, a, "slice of a slice {T} {k}"); }}\n')
    # every block is a harness of its own: an assertion failure ends it
    pack(out, 'P37_slice', HEAD + C + bound, hs, 1, 60)
    hs = []
    pairs = [('double', 'int'), ('int', 'double'), ('float', 'double'), ('double', 'float'), ('int', 'int'), ('long long', 'unsigned'), ('unsigned', 'long long'), ('bool', 'int')]
    for T, U in pairs:
        for S in range(1, 5):
            for E in range(1, 7):
                if not th and (S + E + len(T)) % 3:
                    continue
                hs.append(f'\tcpto<{T}, {U}, {S}, {E}>();\n')
                if U != 'bool':
                    hs.append(f'\tcpcto<{T}, {U}, {S}, {E}>();\n')
                hs.append(f'\tcpfrom<{T}, {U}, {S}, {E}>();\n')
    for T in ALL_TYPES:
        for S in range(1, 5):
            hs.append(f'\tspn<{T}, {S}>();\n')
        hs.append(f'\tmkv<{T}, 1, 0>(); mkv<{T}, 4, 2, 0>(); mkv<{T}, 4, 3, 2, 1, 0>(); mkv<{T}, 7, 6, 1, 4>(); mkv<{T}, 3, 0, 1, 2>(); mkv<{T}, 5, 4>(); mkv<{T}, 2, 1, 1, 0>();\n')
    for T in ('float', 'double'):
        for c in range(2, 5):
            for r in range(2, 5):
                hs.append(f'\tmat<{T}, {c}, {r}>();\n')
    pack(out, 'P37_conv', HEAD + C, hs, 4, 12)
    return out
