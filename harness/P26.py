from gen import *
from P25 import C as C25

C = C25 + '''
template <class E, std::size_t C, std::size_t R, class M, class F> void close(const M &m, F f, const char *s)
{
	vf_assert(std::is_same_v<M, basic_matrix<E, C, R>>, "result type");
	for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) near<E>(m.columns[c].data()[r], f(c, r), s);
}
template <class E, std::size_t N, class V, class F> void closev(const V &v, F f, const char *s)
{
	vf_assert(std::is_same_v<V, basic_vector<E, N>>, "result type");
	for (std::size_t i = 0; i < N; ++i) near<E>(v.data()[i], f(i), s);
}
// C1 columns of R1 rows times C2 columns of C1 rows
template <class T, class U, std::size_t C1, std::size_t R1, std::size_t C2> void mm()
{
	using E = std::common_type_t<T, U>;
	auto a = marr<T, C1, R1>("a"); auto b = marr<U, C2, C1>("b"); auto m = mat<T, C1, R1>(a); auto n = mat<U, C2, C1>(b);
	auto ex = [&](std::size_t c, std::size_t r) { E s = E(a[0][r]) * E(b[c][0]); for (std::size_t k = 1; k < C1; ++k) s = s + E(a[k][r]) * E(b[c][k]); return s; };
	close<E, C2, R1>(m * n, ex, "matrix * matrix");
	each<T, C1, R1>(m, [&](int c, int r) { return a[c][r]; }, "operands unchanged"); each<U, C2, C1>(n, [&](int c, int r) { return b[c][r]; }, "operands unchanged");
	if constexpr (std::is_same_v<T, U> && C1 == C2) { m = m * n; close<E, C2, R1>(m, ex, "m = m * n"); }
	if constexpr (std::is_same_v<T, U> && C1 == R1) { m = mat<T, C1, R1>(a); n = m * n; close<E, C2, R1>(n, ex, "n = m * n"); }
	if constexpr (std::is_same_v<T, U> && C1 == R1 && C1 == C2 && C1 < 4)
	{
		m = mat<T, C1, R1>(a); m = m * m;
		close<E, C1, R1>(m, [&](std::size_t c, std::size_t r) { E s = a[0][r] * a[c][0]; for (std::size_t k = 1; k < C1; ++k) s = s + a[k][r] * a[c][k]; return s; }, "m = m * m");
	}
}
template <class E, std::size_t C, std::size_t R, class V, class T, class U> void mv(V &v, const std::array<std::array<T, R>, C> &a, const std::array<U, C> &x)
{
	auto m = mat<T, C, R>(a);
	closev<E, R>(m * v, [&](std::size_t r) { E s = E(a[0][r]) * E(x[0]); for (std::size_t k = 1; k < C; ++k) s = s + E(a[k][r]) * E(x[k]); return s; }, "matrix * vector");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operand unchanged"); for (std::size_t i = 0; i < C; ++i) check_same<U>(v[i], x[i], "operand unchanged");
}
template <class E, std::size_t C, std::size_t R, class V, class T, class U> void vm(V &v, const std::array<std::array<T, R>, C> &a, const std::array<U, R> &x)
{
	auto m = mat<T, C, R>(a);
	closev<E, C>(v * m, [&](std::size_t c) { E s = E(x[0]) * E(a[c][0]); for (std::size_t k = 1; k < R; ++k) s = s + E(x[k]) * E(a[c][k]); return s; }, "vector * matrix");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operand unchanged"); for (std::size_t i = 0; i < R; ++i) check_same<U>(v[i], x[i], "operand unchanged");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: every compatible pair of matrix shapes (27) and every matrix/vector pairing, float, double and mixed, integer vectors, every vector form, aliasing results; the identity is over the reals (equal up to rounding)\n'
    F = ('float', 'double')
    cnt = 0
    for c1 in range(2, 5):
        for r1 in range(2, 5):
            hs = ''
            for c2 in range(2, 5):
                cnt += 1
                for i, (T, U) in enumerate([(a, b) for a in F for b in F]):
                    if th or i == (cnt % 4) or (i in (0, 3) and c1 == r1 == c2):
                        hs += f'H(mm{c2}{i}_{c1}{r1}) {{ mm<{T}, {U}, {c1}, {r1}, {c2}>(); }}\n'
            for i, f in enumerate(forms(c1)):
                for j, (T, U) in enumerate([('float', 'float'), ('double', 'double'), ('float', 'double'), ('double', 'int'), ('double', 'float'), ('float', 'int'), ('double', 'unsigned'), ('float', 'long long')]):
                    if th or (i + j + c1 + r1) % 8 == 0:
                        E = f'std::common_type_t<{T}, {U}>'
                        hs += f'H(mv{f.key}{j}_{c1}{r1}) {{ auto a = marr<{T}, {c1}, {r1}>("a"); auto x = arr<{U}, {f.m}>("x"); {f.decl(U, "v", "x")} mv<{E}, {c1}, {r1}>(v, a, {f.exp(U, "x")}); }}\n'
            for i, f in enumerate(forms(r1)):
                for j, (T, U) in enumerate([('float', 'float'), ('double', 'double'), ('float', 'double'), ('double', 'int'), ('double', 'float'), ('float', 'int'), ('double', 'unsigned'), ('float', 'long long')]):
                    if U in F and (th or (i + j + c1 + r1) % 4 == 1):
                        E = f'std::common_type_t<{T}, {U}>'
                        hs += f'H(vm{f.key}{j}_{c1}{r1}) {{ auto a = marr<{T}, {c1}, {r1}>("a"); auto x = arr<{U}, {f.m}>("x"); {f.decl(U, "v", "x")} vm<{E}, {c1}, {r1}>(v, a, {f.exp(U, "x")}); }}\n'
            if c1 == r1:
                for T in F:
                    hs += (f'H(alias{SH[T]}_{c1}) {{ auto a = marr<{T}, {c1}, {c1}>("a"); auto x = arr<{T}, {c1}>("x"); auto m = mat<{T}, {c1}, {c1}>(a); basic_vector<{T}, {c1}> v = vec(x), w = v; v = m * v; w = w * m; '
                           f'for (std::size_t r = 0; r < {c1}; ++r) {{ {T} s = a[0][r] * x[0], t = x[0] * a[r][0]; for (std::size_t k = 1; k < {c1}; ++k) {{ s = s + a[k][r] * x[k]; t = t + x[k] * a[r][k]; }} near<{T}>(v[r], s, "v = m * v"); near<{T}>(w[r], t, "v = v * m"); }}\n'
                           f'\tfor (std::size_t j = 0; j < {c1}; ++j) {{ auto k = mat<{T}, {c1}, {c1}>(a); k[j] = k * k[j]; for (std::size_t c = 0; c < {c1}; ++c) for (std::size_t r = 0; r < {c1}; ++r) {{ {T} s = a[0][r] * a[j][0]; for (std::size_t q = 1; q < {c1}; ++q) s = s + a[q][r] * a[j][q]; if (c == j) near<{T}>(k[c][r], s, "column of its own matrix"); else check_same<{T}>(k[c][r], a[c][r], "other columns"); }} }} }}\n')
            out[f'P26_{c1}{r1}'] = HEAD + C + bound + hs
    return out
