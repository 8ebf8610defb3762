from gen import *
from P25 import C as C25

C = C25 + '''
template <class T, std::size_t C, std::size_t R> void tr()
{
	auto a = marr<T, C, R>("a"); auto m = mat<T, C, R>(a);
	auto t = transpose(m);
	each<T, R, C>(t, [&](int c, int r) { return a[r][c]; }, "transpose");
	each<T, C, R>(transpose(t), [&](int c, int r) { return a[c][r]; }, "transpose twice");
	each<T, C, R>(m, [&](int c, int r) { return a[c][r]; }, "operand unchanged");
	for (std::size_t r = 0; r < R; ++r) for (std::size_t c = 0; c < C; ++c) { check_same<T>(m.row(r)[c], t[r][c], "row is a column of the transpose"); check_same<T>(t.row(c)[r], m[c][r], "row of the transpose"); }
	if constexpr (C == R) { m = transpose(m); each<T, C, C>(m, [&](int c, int r) { return a[r][c]; }, "m = transpose(m)"); }
}
template <class T, class U, std::size_t R, std::size_t C, class V, class W> void outer(V &v, W &w, const std::array<T, R> &a, const std::array<U, C> &b)
{
	using E = std::common_type_t<T, U>;
	each<E, C, R>(outerProduct(v, w), [&](int c, int r) { return E(a[r]) * E(b[c]); }, "outerProduct");
	for (std::size_t i = 0; i < R; ++i) check_same<T>(v[i], a[i], "operand unchanged"); for (std::size_t i = 0; i < C; ++i) check_same<U>(w[i], b[i], "operand unchanged");
}
template <class T, std::size_t N, class V> void diag(V &v, const std::array<T, N> &a)
{
	each<T, N, N>(diagonal_matrix(v), [&](int c, int r) { return c == r ? a[r] : T(0); }, "diagonal_matrix");
}
template <class T, class V, class W> void crossm(V &v, W &w, const std::array<T, 3> &a, const std::array<T, 3> &b)
{
	const T e[3][3] = {{T(0), a[2], -a[1]}, {-a[2], T(0), a[0]}, {a[1], -a[0], T(0)}};
	auto k = cross_matrix(v);
	each<T, 3, 3>(k, [&](int c, int r) { return e[c][r]; }, "cross_matrix");
	const T x[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
	auto p = k * w; auto q = v * cross_matrix(w); auto c = cross(v, w);
	for (int i = 0; i < 3; ++i) { near<T>(p[i], x[i], "cross_matrix(v) * w"); near<T>(q[i], x[i], "v * cross_matrix(w)"); near<T>(c[i], x[i], "cross(v, w)"); }
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: all matrix shapes, float and double and mixed (integer vectors for outerProduct), every vector form; entries compared exactly, cross_matrix(v)*w = cross(v,w) over the reals\n'
    F = ('float', 'double')
    for T in F:
        hs = ''
        for c in range(2, 5):
            for r in range(2, 5):
                hs += f'H(tr_{SH[T]}{c}{r}) {{ tr<{T}, {c}, {r}>(); }}\n'
        for n in range(2, 5):
            for f in forms(n):
                hs += f'H(diag_{SH[T]}{n}{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} diag<{T}, {n}>(v, {f.exp(T)}); }}\n'
        out[f'P27_t{SH[T]}'] = HEAD + C + bound + hs
        hs = ''
        fs = forms(3)
        for i, f in enumerate(fs):
            for j, g in enumerate(fs):
                if th or (i * 3 + j) % 10 == (0 if T == 'float' else 4):
                    hs += f'H(cr_{SH[T]}{f.key}{g.key}) {{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} crossm<{T}>(v, w, {f.exp(T)}, {g.exp(T, "b")}); }}\n'
        out[f'P27_c{SH[T]}'] = HEAD + C + bound + hs
    PT = [('float', 'float'), ('double', 'double'), ('float', 'double'), ('double', 'float'), ('double', 'int'), ('unsigned', 'float'), ('long long', 'double'), ('float', 'unsigned long long')]
    cnt = 0
    for n in range(2, 5):
        hs = ''
        for k in range(2, 5):
            for i, f in enumerate(forms(n)):
                for j, g in enumerate(forms(k)):
                    cnt += 1
                    for q, (T, U) in enumerate(PT):
                        if (th and (q + cnt) % 2) or (i + j + n + k) % 3 == 0 and q == cnt % 8:
                            hs += f'H(out{q}_{n}{k}{f.key}{g.key}) {{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{U}, {g.m}>("b"); {f.decl(T)} {g.decl(U, "w", "b")} outer(v, w, {f.exp(T)}, {g.exp(U, "b")}); }}\n'
        out[f'P27_o{n}'] = HEAD + C + bound + hs
    return out
