from gen import *

C = '''
template <class A, class T, std::size_t N> void has(const A &v, const std::array<T, N> &e, const char *m) { for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], e[i], m); }
template <class T, std::size_t N> void fro()
{
	const auto a = arr<T, N>("a");
	auto v = to_vector(a); vf_assert(std::is_same_v<decltype(v), basic_vector<T, N>>, "type"); has(v, a, "to_vector(std::array)");
	T c[N]; for (std::size_t i = 0; i < N; ++i) c[i] = a[i];
	auto w = to_vector(c); vf_assert(std::is_same_v<decltype(w), basic_vector<T, N>>, "type"); has(w, a, "to_vector(T[])");
	has(to_array(to_vector(a)), a, "round trip"); has(to_array(w), a, "round trip"); has(to_vector(to_array(v)), a, "round trip");
	c[0] = in<T>("x"); has(w, a, "converted vectors do not share storage");
	vf_assert(std::tuple_size_v<basic_vector<T, N>> == N && std::tuple_size_v<basic_view<true, T, N>> == N && std::tuple_size_v<view_vector<T, N>> == N && std::tuple_size_v<storage_wrapper<true, T, N>> == N && std::tuple_size_v<view_wrapper<false, T, N>> == N, "tuple_size");
	[&]<std::size_t... Is>(std::index_sequence<Is...>) {
		vf_assert((std::is_same_v<std::tuple_element_t<Is, basic_vector<T, N>>, T> && ...) && (std::is_same_v<std::tuple_element_t<Is, basic_view<true, T, N>>, T> && ...) && (std::is_same_v<std::tuple_element_t<Is, view_vector<T, N>>, T> && ...), "tuple_element");
		auto t = std::make_tuple(T(get<int(Is)>(v))...); ((check_same<T>(std::get<Is>(t), a[Is], "tuple element")), ...);
	}(std::make_index_sequence<N>{});
}
template <class T, std::size_t N, class V> void to(V &v, const std::array<T, N> &e, const char *m)
{
	auto a = to_array(v); vf_assert(std::is_same_v<decltype(a), std::array<T, N>>, "type"); has(a, e, m); has(v, e, "operand unchanged");
	vf_assert(std::tuple_size_v<std::remove_cvref_t<V>> == N, "tuple_size");
	[&]<std::size_t... Is>(std::index_sequence<Is...>) { (check_same<T>(get<int(Is)>(v), e[Is], "get"), ...); vf_assert((std::is_same_v<std::tuple_element_t<Is, std::remove_cvref_t<V>>, T> && ...), "tuple_element"); }(std::make_index_sequence<N>{});
}
template <class T, std::size_t C, std::size_t R> void mat()
{
	const auto a = arr<T, C * R>("a"); T c[C * R]; for (std::size_t i = 0; i < C * R; ++i) c[i] = a[i];
	const auto b = arr<T, C * R + 3>("b"); T d[C * R + 1]; for (std::size_t i = 0; i <= C * R; ++i) d[i] = b[i];
	auto m = to_matrix<C, R>(a), n = to_matrix<C, R>(c), p = to_matrix<C, R>(b), q = to_matrix<C, R>(d);
	vf_assert(std::is_same_v<decltype(m), basic_matrix<T, C, R>> && std::is_same_v<decltype(n), basic_matrix<T, C, R>>, "type");
	for (std::size_t k = 0; k < C * R; ++k) { check_same<T>(m[k / R][k % R], a[k], "to_matrix(std::array)"); check_same<T>(n[k / R][k % R], a[k], "to_matrix(T[])"); check_same<T>(p[k / R][k % R], b[k], "to_matrix of a larger array"); check_same<T>(q[k / R][k % R], b[k], "to_matrix of a larger array"); }
	has(to_array(m), a, "round trip"); auto z = to_array(n); vf_assert(std::is_same_v<decltype(z), std::array<T, C * R>>, "type"); has(z, a, "matrix to_array is column major");
	auto y = to_matrix<C, R>(z); for (std::size_t k = 0; k < C * R; ++k) check_same<T>(y[k / R][k % R], a[k], "round trip");
	vf_assert(std::tuple_size_v<basic_matrix<T, C, R>> == C, "tuple_size"); [&]<std::size_t... Is>(std::index_sequence<Is...>) { vf_assert((std::is_same_v<std::tuple_element_t<Is, basic_matrix<T, C, R>>, basic_vector<T, R>> && ...), "tuple_element"); }(std::make_index_sequence<C>{});
}
'''


def generate(tier):
    out = {}
    bound = '// VF-BOUND: every scalar type, dimensions 1-4, every operand form, all 9 matrix shapes; all values\n'
    for T in ALL_TYPES + ['unsigned long']:
        hs = ''
        for n in range(1, 5):
            hs += f'H(fro_{SH[T]}{n}) {{ fro<{T}, {n}>(); }}\nH(to_{SH[T]}{n}) {{\n'
            for f in forms(n):
                hs += f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} to<{T}, {n}>(v, {f.exp(T)}, "to_array of {f.key}"); }}\n'
            hs += '}\n'
        if T in ('float', 'double'):
            for c in range(2, 5):
                for r in range(2, 5):
                    hs += f'H(mat_{SH[T]}{c}{r}) {{ mat<{T}, {c}, {r}>(); }}\n'
        out[f'P32_{SH[T]}'] = HEAD + C + bound + hs
    return out
