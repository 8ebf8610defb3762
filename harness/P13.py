from gen import *

C = '''
template <class V, class W> concept eq_comparable = requires(const V &v, const W &w) { { v == w } -> std::same_as<bool>; };
template <class V, class W, class T, class U, std::size_t N> void eq(V &v, W &w, const std::array<T, N> &a, const std::array<U, N> &b)
{
	bool e = true;
	for (std::size_t i = 0; i < N; ++i) if (!(a[i] == b[i])) e = false;
	vf_assert((v == w) == e, "=="); vf_assert((w == v) == e, "== is symmetric"); vf_assert((v != w) == !e, "!="); vf_assert((w != v) == !e, "!= is symmetric");
}
template <class V, class T, std::size_t N> void self(V &v, const std::array<T, N> &a)
{
	bool nan = false;
	for (std::size_t i = 0; i < N; ++i) if (a[i] != a[i]) nan = true;
	vf_assert((v == v) == !nan, "equal to itself unless NaN"); vf_assert((v == vec(a)) == !nan, "equal to a copy unless NaN");
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    pairs = [('int', 'int'), ('double', 'double'), ('float', 'double'), ('int', 'float'), ('unsigned', 'int'), ('long long', 'int'), ('bool', 'bool'), ('long long', 'double')]
    if th:
        pairs += [(a, b) for i, a in enumerate(NUM) for b in NUM[i:] if (a, b) not in pairs and (b, a) not in pairs]
    for ti, (T, U) in enumerate(pairs):
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if th or (i + j + n + ti) % 6 == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{U}, {g.m}>("b"); {f.decl(T)} {g.decl(U, "w", "b")} eq(v, w, {f.exp(T)}, {g.exp(U, "b")}); }}\n')
                if T == U:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} self(v, {f.exp(T)}); }}\n')
                if n == 1 and T != 'bool':
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {U} x = in<{U}>("x"); bool e = a[{f.order[0]}] == x; vf_assert((v == x) == e, "1-D == scalar"); vf_assert((x == v) == e, "scalar == 1-D"); vf_assert((v != x) == !e, "1-D != scalar"); vf_assert((x != v) == !e, "scalar != 1-D"); }}\n')
        pack(out, f'P13_{SH[T]}{SH[U]}', HEAD + C + '// VF-BOUND: element type pairs, operand forms paired, dimensions 1-4; matrices 2x2 to 4x4, float and double, all values including NaN\n', hs, 16, 2)
    for (T, U) in [('float', 'float'), ('double', 'double'), ('double', 'float')]:
        hs = []
        for c in range(2, 5):
            for r in range(2, 5):
                hs.append(f'\t{{ std::array<std::array<{T}, {r}>, {c}> a; std::array<std::array<{U}, {r}>, {c}> b; for (auto &x : a) x = arr<{T}, {r}>("a"); for (auto &x : b) x = arr<{U}, {r}>("b"); '
                          f'basic_matrix<{T}, {c}, {r}> m; set_mat(m, a); basic_matrix<{U}, {c}, {r}> k; set_mat(k, b); bool e = true; for (int i = 0; i < {c}; ++i) for (int j = 0; j < {r}; ++j) if (!(a[i][j] == b[i][j])) e = false; '
                          f'vf_assert((m == k) == e, "matrix =="); vf_assert((k == m) == e, "matrix == is symmetric"); vf_assert((m != k) == !e, "matrix !="); }}\n')
        pack(out, f'P13_m{SH[T]}{SH[U]}', HEAD + C, hs, 3, 3)
    return out
