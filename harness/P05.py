from gen import *

CHK = '''
// random-access laws for [b, e) denoting the elements x[0..N)
template <class It, class T, std::size_t N> void laws(It b, It e, const std::array<T, N> &x, int i, int j, int d, const char *m)
{
	using DT = typename std::iterator_traits<It>::difference_type;
	constexpr int n = static_cast<int>(N);
	vf_assume(i >= 0 && i <= n && j >= 0 && j <= n);
	vf_assume(i + static_cast<long long>(d) >= 0 && i + static_cast<long long>(d) <= n);
	vf_assert(e - b == n, m);
	It p = b + static_cast<DT>(i), q = b + static_cast<DT>(j);
	vf_assert(p - b == i && e - p == n - i && q - p == j - i && p - q == i - j, m);
	vf_assert((p == q) == (i == j) && (p != q) == (i != j), m);
	vf_assert((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), m);
	vf_assert((e - static_cast<DT>(n - i)) == p && (static_cast<DT>(i) + b) == p, m);
	if (i < n) { check_same<T>(*p, x[i], m); check_same<T>(b[static_cast<DT>(i)], x[i], m); }
	if (j < n) check_same<T>(p[static_cast<DT>(j - i)], x[j], m);
	It r = p; vf_assert(&(r += static_cast<DT>(d)) == &r, m); vf_assert(r - b == i + d, m);
	vf_assert(r == p + static_cast<DT>(d) && (r - static_cast<DT>(d)) == p, m);
	r -= static_cast<DT>(d); vf_assert(r == p, m);
	if (i < n)
	{
		It s = p; vf_assert(&++s == &s && s - b == i + 1, m); vf_assert(&--s == &s && s == p, m);
		It t = s++; vf_assert(t == p && s - t == 1, m); t = s--; vf_assert(t - s == 1 && s == p, m);
	}
}
// successive ++ visits everything once, in order
template <class It, class T, std::size_t N> void walk(It b, It e, const std::array<T, N> &x, const char *m)
{
	std::size_t k = 0;
	for (; b != e; ++b) { vf_assert(k < N, m); check_same<T>(*b, x[k], m); ++k; }
	vf_assert(k == N, m);
	while (k > 0) { --b; --k; check_same<T>(*b, x[k], m); }
}
template <class T, std::size_t N> std::array<T, N> rev(const std::array<T, N> &x) { std::array<T, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = x[N - 1 - i]; return r; }
'''

RNG = {'mut': ('v.begin()', 'v.end()', 0), 'cst': ('std::as_const(v).begin()', 'std::as_const(v).end()', 0), 'cbg': ('v.cbegin()', 'v.cend()', 0),
       'rev': ('v.rbegin()', 'v.rend()', 1), 'crv': ('std::as_const(v).rbegin()', 'std::as_const(v).rend()', 1), 'cr2': ('v.crbegin()', 'v.crend()', 1),
       'bas': ('v.as_base().begin()', 'v.as_base().end()', 0), 'bsr': ('v.as_base().crbegin()', 'v.as_base().crend()', 1)}


def generate(tier):
    out = {}
    types = ['int', 'bool', 'float', 'double', 'unsigned long long'] if tier == 'thorough' else ['int']
    for T in types:
        for n in range(1, 5):
            src = HEAD + CHK + '// VF-BOUND: every pair of positions and every in-range displacement; dimensions 1-4; matrices by columns\n'
            for f in forms(n):
                rs = RNG if tier == 'thorough' or f.key in ('vec', 'swz', 'vswz') else {k: RNG[k] for k in ('mut', 'crv')}
                for rk, (b, e, r) in rs.items():
                    x = f'rev({f.exp(T)})' if r else f.exp(T)
                    src += f'H({SH[T]}{n}_{f.key}_{rk}) {{ auto a = arr<{T}, {f.m}>("a"); int i = in<int>("i"), j = in<int>("j"), d = in<int>("d"); {f.decl(T)} auto x = {x};\n' \
                           f'\tlaws({b}, {e}, x, i, j, d, "{f.key} {rk}"); walk({b}, {e}, x, "{f.key} {rk} walk"); }}\n'
                if f.writable:
                    # writes through iterators, mutable -> const conversion
                    src += f'H({SH[T]}{n}_{f.key}_wr) {{ auto a = arr<{T}, {f.m}>("a"); {T} y = in<{T}>("y"); int i = in<int>("i"); vf_assume(i >= 0 && i < {n}); {f.decl(T)} auto x = {f.exp(T)};\n' \
                           f'\t*(v.begin() + i) = y; for (int k = 0; k < {n}; ++k) check_same<{T}>(v[k], k == i ? y : x[k], "{f.key} write through iterator");\n' \
                           f'\tv.begin()[{n} - 1 - i] = x[0]; check_same<{T}>(v[{n} - 1 - i], x[0], "{f.key} write through subscript");\n' \
                           f'\t*(v.rbegin() + i) = y; check_same<{T}>(v[{n} - 1 - i], y, "{f.key} write through reverse iterator"); }}\n'
                if f.key in ('swz', 'vswz', 'cswz', 'cvswz', 'dup'):
                    # outside [begin, end] is caught, inside is not
                    for op, ex in (('padd', 'auto q = (v.begin() + i) + d; vf_assert(q - v.begin() == i + d, "+");'),
                                   ('psub', 'auto q = (v.end() - i) - d; vf_assert(v.end() - q == i + d, "-");'),
                                   ('cadd', 'auto q = v.cbegin() + i; q += d; vf_assert(q - v.cbegin() == i + d, "+=");'),
                                   ('csub', 'auto q = v.cend() - i; q -= d; vf_assert(v.cend() - q == i + d, "-=");')):
                        src += f'H({SH[T]}{n}_{f.key}_ob_{op}) {{ auto a = arr<{T}, {f.m}>("a"); int i = in<int>("i"), d = in<int>("d"); vf_assume(i >= 0 && i <= {n}); {f.decl(T)}\n' \
                               f'\tlong long s = i + static_cast<long long>(d); vf_expect_abort(s < 0 || s > {n}); {ex} }}\n'
            out[f'P05_{SH[T]}{n}'] = src
    # matrices iterate over columns
    src = HEAD + CHK
    for C in range(2, 5):
        for R in range(2, 5):
            src += f'''H(mat{C}{R}) {{ std::array<std::array<float, {R}>, {C}> a; for (auto &c : a) c = arr<float, {R}>("a");
	basic_matrix<float, {C}, {R}> m; set_mat(m, a); int k = 0;
	for (auto &col : m) {{ vf_assert(k < {C}, "col"); check_vec(col, a[k], "column iteration"); ++k; }} vf_assert(k == {C}, "columns");
	for (auto it = std::as_const(m).rbegin(); it != std::as_const(m).rend(); ++it) {{ --k; check_vec(*it, a[k], "reverse column iteration"); }} vf_assert(k == 0, "columns");
	vf_assert(m.end() - m.begin() == {C} && m.cend() - m.cbegin() == {C}, "columns"); for (auto &col : m) col = basic_vector<float, {R}>(1.0f);
	for (int c = 0; c < {C}; ++c) for (int r = 0; r < {R}; ++r) check_same<float>(m[c][r], 1.0f, "column write"); }}
'''
    out['P05_mat'] = src
    return out
