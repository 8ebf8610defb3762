from gen import *

C = '''
template <class M, class T, std::size_t C, std::size_t R> void check_mat(M &m, const std::array<std::array<T, R>, C> &e, const char *s)
{
	vf_assert(m.length() == int(C) && m.column_length() == int(R) && m.size() == C && m.column_size() == R && M::ComponentCount == C * R, s);
	for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) check_same<T>(m[c][r], e[c][r], s);
}
template <class T, std::size_t C, std::size_t R> std::array<std::array<T, R>, C> marr(const char *n) { std::array<std::array<T, R>, C> a; for (auto &c : a) c = arr<T, R>(n); return a; }
template <class M, class T, std::size_t C, std::size_t R> void access(M &m, const std::array<std::array<T, R>, C> &e, std::size_t i, std::size_t j)
{
	check_mat(m, e, "matrix elements");
	for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r)
	{
		check_same<T>(m.columns[c].data()[r], e[c][r], "columns member");
		check_same<T>(m.data()[c][r], e[c][r], "data");
		check_same<T>((m.begin() + c)->data()[r], e[c][r], "iteration"); check_same<T>((*(m.cbegin() + c))[r], e[c][r], "iteration");
		check_same<T>((*(m.rbegin() + (C - 1 - c)))[r], e[c][r], "reverse iteration"); check_same<T>((*(m.crbegin() + (C - 1 - c)))[r], e[c][r], "reverse iteration");
		auto row = m.row(r); static_assert(std::same_as<decltype(row), basic_vector<T, C>>); check_same<T>(row[c], e[c][r], "row");
		check_same<T>(m.row(int(r))[int(c)], e[c][r], "row");
	}
	vf_assert(m.end() - m.begin() == int(C) && m.cend() - m.cbegin() == int(C) && m.rend() - m.rbegin() == int(C) && m.crend() - m.crbegin() == int(C), "end");
	check_same<T>(m[i][j], e[i][j], "symbolic element"); check_same<T>(m[int(i)][(unsigned char)j], e[i][j], "symbolic element"); check_same<T>(m.row(j)[i], e[i][j], "symbolic row");
	check_same<T>(std::get<0>(std::tie(get<0>(m)))[j], e[0][j], "get");
	[&]<std::size_t... Is>(std::index_sequence<Is...>) { ((check_same<T>(get<int(Is)>(m)[j], e[Is][j], "get"), check_same<T>(get<int(Is)>(std::as_const(m))[j], e[Is][j], "get"), check_same<T>(get<int(Is)>(std::move(m))[j], e[Is][j], "get")), ...); }(std::make_index_sequence<C>{});
	static_assert(std::tuple_size_v<std::remove_const_t<M>> == C && std::same_as<std::tuple_element_t<1, std::remove_const_t<M>>, basic_vector<T, R>>);
	if constexpr (C == 2) { auto &[p, q] = m; check_same<T>(p[j], e[0][j], "binding"); check_same<T>(q[j], e[1][j], "binding"); }
	if constexpr (C == 3) { auto &[p, q, r] = m; check_same<T>(p[j], e[0][j], "binding"); check_same<T>(q[j], e[1][j], "binding"); check_same<T>(r[j], e[2][j], "binding"); }
	if constexpr (C == 4) { auto &[p, q, r, s] = m; check_same<T>(p[j], e[0][j], "binding"); check_same<T>(q[j], e[1][j], "binding"); check_same<T>(r[j], e[2][j], "binding"); check_same<T>(s[j], e[3][j], "binding"); }
	std::size_t k = 0; for (auto &col : m) { check_same<T>(col[j], e[k][j], "range for"); ++k; } vf_assert(k == C, "range for");
}
template <class T, std::size_t C, std::size_t R> void writes(std::size_t i, std::size_t j)
{
	auto a = marr<T, C, R>("a"); T x = in<T>("x"); auto n = arr<T, R>("n");
	auto e = a; e[i][j] = x; auto f = a; f[i] = n;
	{ basic_matrix<T, C, R> m; set_mat(m, a); m[i][j] = x; check_mat(m, e, "write m[i][j]"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); m[i].data()[j] = x; check_mat(m, e, "write m[i].data()"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); m.data()[i][j] = x; check_mat(m, e, "write m.data()"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); (*(m.begin() + i))[j] = x; check_mat(m, e, "write by iterator"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); (*(m.rbegin() + (C - 1 - i)))[j] = x; check_mat(m, e, "write by reverse iterator"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); get<1>(m)[j] = x; auto g = a; g[1][j] = x; check_mat(m, g, "write by get"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); auto row = m.row(j); row[i] = x; check_mat(m, a, "a row is a copy"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); m[i] = vec(n); check_mat(m, f, "write column"); }
	{ basic_matrix<T, C, R> m; set_mat(m, a); m[i].yx = vec(n).xy; auto g = a; g[i][0] = n[1]; g[i][1] = n[0]; check_mat(m, g, "write column swizzle"); }
}
'''


def seqs(n, th):
    """argument size sequences for n components, each size used in each place"""
    out = [('s',) * n]
    pats = [(2,), (3,), (4,), ('s', 2), (2, 's'), (3, 's'), (4, 3, 's'), ('s', 's', 4), (1, 2), (4, 's', 2), (2, 3, 4)]
    if th:
        pats += [(3, 2), ('s', 3, 4, 1), (1, 4), (4, 4, 's'), (2, 2, 3), ('s', 4, 2), (1, 1, 's', 3)]
    for p in pats:
        s, t, i = [], 0, 0
        while t < n:
            x = p[i % len(p)]
            s.append(x)
            t += 1 if x == 's' else x
            i += 1
        out.append(tuple(s))
    return [s for s in dict.fromkeys(out) if len(s) > 1]


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: all 9 shapes, float and double, all values and every in-range symbolic index; constructor argument sequences from 11 (thorough 18) size patterns with scalar, vector, swizzle and view sources of rotating element types; every pair of shapes for matrix-from-matrix\n'
    for T in ('float', 'double'):
        for c in range(2, 5):
            for r in range(2, 5):
                N = c * r
                M = f'basic_matrix<{T}, {c}, {r}>'
                h1 = (f'\t{{ std::size_t i = in<std::size_t>("i"), j = in<std::size_t>("j"); vf_assume(i < {c} && j < {r}); auto a = marr<{T}, {c}, {r}>("a");\n'
                      f'\t  {M} m; set_mat(m, a); access(m, a, i, j); const {M} k = m; access(k, a, i, j); }}\n')
                h2 = f'\t{{ std::size_t i = in<std::size_t>("i"), j = in<std::size_t>("j"); vf_assume(i < {c} && j < {r}); writes<{T}, {c}, {r}>(i, j); }}\n'
                h3 = ''
                for it in (('int', 'unsigned', 'long long', 'unsigned char') if th else ('int', 'unsigned char') if T == 'double' else ('unsigned', 'long long')):
                    h3 += f'H(idx{SH.get(it, "uc")}_{SH[T]}{c}{r}) {{ auto i = in<{it}>("i"); {M} m; vf_expect_abort(!(i >= 0 && i < {c})); (void) &m[i]; vf_expect_end("index"); }}\n'
                    h3 += f'H(cidx{SH.get(it, "uc")}_{SH[T]}{c}{r}) {{ auto i = in<{it}>("i"); const {M} m{{}}; vf_expect_abort(!(i >= 0 && i < {c})); (void) &m[i]; vf_expect_end("index"); }}\n'
                    h3 += f'H(row{SH.get(it, "uc")}_{SH[T]}{c}{r}) {{ auto i = in<{it}>("i"); {M} m; vf_expect_abort(!(i >= 0 && i < {r})); (void) m.row(i); vf_expect_end("row index"); }}\n'
                if not th and T == 'float' and (c + r) % 2:
                    h1 = h2 = h3 = ''
                # construction
                U = 'float' if T == 'double' else 'double'
                h4 = f'\t{{ {M} y{{}}; check_mat(y, std::array<std::array<{T}, {r}>, {c}>{{}}, "default"); }}\n'
                h4 += f'\t{{ auto a = marr<{T}, {c}, {r}>("a"); {M} m; set_mat(m, a); {M} n(m), o; o = m; {M} p(std::move(n)); check_mat(m, a, "copy"); check_mat(o, a, "copy assignment"); check_mat(p, a, "copy"); o = std::move(p); check_mat(o, a, "assignment"); m = m; check_mat(m, a, "self assignment"); }}\n'
                h4 += f'\t{{ auto a = arr<{T}, {N + 1}>("a"); std::array<std::array<{T}, {r}>, {c}> e; for (int k = 0; k < {N}; ++k) e[k / {r}][k % {r}] = a[k + 1]; {M} m(a.data() + 1); check_mat(m, e, "pointer"); }}\n'
                h4 += f'\t{{ auto a = arr<{U}, {N}>("a"); std::array<std::array<{T}, {r}>, {c}> e; for (int k = 0; k < {N}; ++k) e[k / {r}][k % {r}] = static_cast<{T}>(a[k]); {M} m(a.data()); check_mat(m, e, "pointer"); }}\n'
                h4 += f'\t{{ auto a = marr<{U}, {c}, {r}>("a"); basic_matrix<{U}, {c}, {r}> m; set_mat(m, a); {M} n(m); std::array<std::array<{T}, {r}>, {c}> e; for (int k = 0; k < {N}; ++k) e[k / {r}][k % {r}] = static_cast<{T}>(a[k / {r}][k % {r}]); check_mat(n, e, "converted matrix"); '
                if T == 'double':
                    h4 += f'{M} o; o = m; check_mat(o, e, "converted assignment"); {M} p = m; check_mat(p, e, "converted matrix"); '
                h4 += '}\n'
                if c == r:
                    for V in ('int', 'float', 'double', 'unsigned long long'):
                        h4 += f'\t{{ {V} x = in<{V}>("x"); {M} m(x); std::array<std::array<{T}, {r}>, {c}> e{{}}; for (int k = 0; k < {c}; ++k) e[k][k] = static_cast<{T}>(x); check_mat(m, e, "diagonal"); }}\n'
                else:
                    h4 += f'\tstatic_assert(!std::constructible_from<{M}, {T}>);\n'
                h5 = ''
                for V in (T, U):
                    for c2 in range(2, 5):
                        for r2 in range(2, 5):
                            if V != T and not th and (c2 + r2 + c + r) % 3:
                                continue
                            ident = f'i == j ? {T}(1) : {T}(0)' if c == r else f'{T}(0)'
                            h5 += (f'\t{{ auto a = marr<{V}, {c2}, {r2}>("a"); basic_matrix<{V}, {c2}, {r2}> m; set_mat(m, a); {M} n(m); std::array<std::array<{T}, {r}>, {c}> e; '
                                   f'for (std::size_t i = 0; i < {c}; ++i) for (std::size_t j = 0; j < {r}; ++j) e[i][j] = i < {c2} && j < {r2} ? static_cast<{T}>(a[i][j]) : ({ident}); check_mat(n, e, "matrix {c}x{r} from {c2}x{r2}"); }}\n')
                if not th and T == 'float' and (c + r) % 2:
                    h5 = ''
                h6 = []
                AT = ['int', T, 'double', 'float', 'unsigned', 'long long', T, 'unsigned long long']
                cnt = 0
                for sz in seqs(N, th) if th or T == 'double' or (c + r) % 2 == 0 else []:
                    decl, args, exp = '', [], []
                    for i, x in enumerate(sz):
                        cnt += 1
                        W = AT[(cnt * 3 + c + r) % len(AT)]
                        if x == 's':
                            decl += f'{W} s{i} = in<{W}>("s{i}"); '
                            args.append(f's{i}')
                            exp.append(f's{i}')
                        else:
                            f = forms(x)[(cnt + c * 3 + r) % 10]
                            decl += f'auto a{i} = arr<{W}, {f.m}>("a{i}"); {f.decl(W, f"v{i}", f"a{i}")} '
                            args.append(f'v{i}')
                            exp += [f'a{i}[{j}]' for j in f.order]
                    e = ', '.join('{' + ', '.join(f'static_cast<{T}>({x})' for x in col) + '}' for col in chunks(exp[:N], r))
                    h6.append(f'\t{{ {decl} {M} m({", ".join(args)}); check_mat(m, std::array<std::array<{T}, {r}>, {c}>{{{{{e}}}}}, "{M} from {" ".join(str(x) for x in sz)}"); }}\n')
                out[f'P24_{SH[T]}{c}{r}'] = HEAD + C + bound + f'H(acc_{SH[T]}{c}{r}) {{\n{h1}}}\nH(wr_{SH[T]}{c}{r}) {{\n{h2}}}\n{h3}H(con_{SH[T]}{c}{r}) {{\n{h4}}}\nH(mm_{SH[T]}{c}{r}) {{\n{h5}}}\n' + \
                    ''.join(f'H(seq{k}_{SH[T]}{c}{r}) {{\n{"".join(x)}}}\n' for k, x in enumerate(chunks(h6, 6)))
    return out
