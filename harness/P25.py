from gen import *

C = '''
template <class T, std::size_t C, std::size_t R> using A2 = std::array<std::array<T, R>, C>;
template <class T, std::size_t C, std::size_t R> A2<T, C, R> marr(const char *n) { A2<T, C, R> a; for (auto &c : a) c = arr<T, R>(n); return a; }
template <class T, std::size_t C, std::size_t R> basic_matrix<T, C, R> mat(const A2<T, C, R> &a) { basic_matrix<T, C, R> m; set_mat(m, a); return m; }
template <class E, std::size_t C, std::size_t R, class M, class F> void each(const M &m, F f, const char *s)
{
	vf_assert(std::is_same_v<M, basic_matrix<E, C, R>>, "result type");
	for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) check_same<E>(m.columns[c].data()[r], f(c, r), s);
}
template <class T, class U, std::size_t C, std::size_t R> void bin()
{
	using E = std::common_type_t<T, U>;
	auto a = marr<T, C, R>("a"); auto b = marr<U, C, R>("b"); auto m = mat<T, C, R>(a); auto n = mat<U, C, R>(b);
	each<E, C, R>(m + n, [&](int c, int r) { return E(a[c][r]) + E(b[c][r]); }, "m + n");
	each<E, C, R>(m - n, [&](int c, int r) { return E(a[c][r]) - E(b[c][r]); }, "m - n");
	each<E, C, R>(m / n, [&](int c, int r) { return E(a[c][r]) / E(b[c][r]); }, "m / n");
	each<E, C, R>(matrixCompMult(m, n), [&](int c, int r) { return E(a[c][r]) * E(b[c][r]); }, "matrixCompMult");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operands unchanged"); each<U, C, R>(n, [&](int c, int r) { return b[c][r]; }, "operands unchanged");
}
template <class T, class U, std::size_t C, std::size_t R> void sca()
{
	using E = std::common_type_t<T, U>;
	auto a = marr<T, C, R>("a"); U s = in<U>("s"); auto m = mat<T, C, R>(a);
	each<E, C, R>(m + s, [&](int c, int r) { return E(a[c][r]) + E(s); }, "m + s"); each<E, C, R>(s + m, [&](int c, int r) { return E(s) + E(a[c][r]); }, "s + m");
	each<E, C, R>(m - s, [&](int c, int r) { return E(a[c][r]) - E(s); }, "m - s"); each<E, C, R>(s - m, [&](int c, int r) { return E(s) - E(a[c][r]); }, "s - m");
	each<E, C, R>(m * s, [&](int c, int r) { return E(a[c][r]) * E(s); }, "m * s"); each<E, C, R>(s * m, [&](int c, int r) { return E(s) * E(a[c][r]); }, "s * m");
	each<E, C, R>(m / s, [&](int c, int r) { return E(a[c][r]) / E(s); }, "m / s"); each<E, C, R>(s / m, [&](int c, int r) { return E(s) / E(a[c][r]); }, "s / m");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operand unchanged");
}
template <class T, std::size_t C, std::size_t R> void un()
{
	auto a = marr<T, C, R>("a"); auto m = mat<T, C, R>(a);
	each<T, C, R>(+m, [&](int c, int r) { return a[c][r]; }, "+m"); each<T, C, R>(-m, [&](int c, int r) { return -a[c][r]; }, "-m");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operand unchanged");
	{ auto k = m; auto &p = ++k; vf_assert(&p == &k, "++m refers to m"); each<T, C, R>(k, [&](int c, int r) { return a[c][r] + T(1); }, "++m"); }
	{ auto k = m; auto &p = --k; vf_assert(&p == &k, "--m refers to m"); each<T, C, R>(k, [&](int c, int r) { return a[c][r] - T(1); }, "--m"); }
	{ auto k = m; each<T, C, R>(k++, [&](int c, int r) { return a[c][r]; }, "m++ value"); each<T, C, R>(k, [&](int c, int r) { return a[c][r] + T(1); }, "m++"); }
	{ auto k = m; each<T, C, R>(k--, [&](int c, int r) { return a[c][r]; }, "m-- value"); each<T, C, R>(k, [&](int c, int r) { return a[c][r] - T(1); }, "m--"); }
	// storing a result over an operand, and using one of the matrix's own elements
	{ auto k = m; k = k + k; each<T, C, R>(k, [&](int c, int r) { return a[c][r] + a[c][r]; }, "m = m + m"); }
	{ auto k = m; k = k / k[C - 1][0]; each<T, C, R>(k, [&](int c, int r) { return a[c][r] / a[C - 1][0]; }, "m = m / m[i][j]"); }
	{ auto k = m; k = k[0][1] * k; each<T, C, R>(k, [&](int c, int r) { return a[0][1] * a[c][r]; }, "m = m[i][j] * m"); }
	{ auto k = m; k = matrixCompMult(k, -k); each<T, C, R>(k, [&](int c, int r) { return a[c][r] * -a[c][r]; }, "m = matrixCompMult(m, -m)"); }
}
template <class T, class U, std::size_t C, std::size_t R> void eq()
{
	auto a = marr<T, C, R>("a"); auto b = marr<U, C, R>("b"); auto m = mat<T, C, R>(a); auto n = mat<U, C, R>(b);
	bool e = true; for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) e = e & (a[c][r] == b[c][r]);
	vf_assert((m == n) == e && (n == m) == e && (m != n) == !e && (n != m) == !e, "matrix equality");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: all 9 matrix shapes, float and double and mixed, every scalar type on the right and left, all values including NaN and infinities (results compared bit-exactly up to NaN payload)\n'
    F = ('float', 'double')
    ST = ['int', 'unsigned', 'long long', 'unsigned long long', 'float', 'double']
    for c in range(2, 5):
        for r in range(2, 5):
            hs = ''
            k = (c - 2) * 3 + r - 2
            for i, (T, U) in enumerate([(a, b) for a in F for b in F]):
                if th or i in (k % 4, (k + 3) % 4):
                    hs += f'H(bin{i}_{c}{r}) {{ bin<{T}, {U}, {c}, {r}>(); }}\nH(eq{i}_{c}{r}) {{ eq<{T}, {U}, {c}, {r}>(); }}\n'
            for i, (T, U) in enumerate([(a, b) for a in F for b in ST]):
                if th or (i + k) % 3 == 0:
                    hs += f'H(sca{i}_{c}{r}) {{ sca<{T}, {U}, {c}, {r}>(); }}\n'
            for i, T in enumerate(F):
                if th or (i + k) % 2 == 0 or k == 8:
                    hs += f'H(un{i}_{c}{r}) {{ un<{T}, {c}, {r}>(); }}\n'
            out[f'P25_{c}{r}'] = HEAD + C + bound + hs
    return out
