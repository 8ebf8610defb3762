from gen import *

C = '''
template <std::size_t N, class T> std::array<T, N> rep(T x) { std::array<T, N> r; r.fill(x); return r; }
template <class R, class T, std::size_t N> void same_vec(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); check_same<T>(r, e[0], m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); check_vec(r, e, m); }
}
template <class T> bool fin(T x) { return x - x == 0; }
template <class T, std::size_t N> bool fins(const std::array<T, N> &a) { for (auto x : a) if (!fin(x)) return false; return true; }
// vector forms against the scalar functions, which are compared to the defining formulas below
template <class V, class W, class U, class T, std::size_t N> void tri(V &v, W &w, U &u, const std::array<T, N> &a, const std::array<T, N> &b, const std::array<T, N> &c, const char *m)
{
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = dsga::mix(a[i], b[i], c[i]);
	same_vec(dsga::mix(v, w, u), e, m);
}
template <class V, class W, class U, class T, std::size_t N> void smo(V &v, W &w, U &u, const std::array<T, N> &a, const std::array<T, N> &b, const std::array<T, N> &c, const char *m)
{
	for (std::size_t i = 0; i < N; ++i) if (!(a[i] < b[i])) return;
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = dsga::smoothstep(a[i], b[i], c[i]);
	same_vec(dsga::smoothstep(v, w, u), e, m);
}
template <class V, class W, class T, std::size_t N> void bi(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = dsga::mod(a[i], b[i]);
	same_vec(dsga::mod(v, w), e, m);
}
template <class V, class W, class T, std::size_t N> void bmix(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	auto s = arr<bool, N>("s"); std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = s[i] ? b[i] : a[i];
	same_vec(dsga::mix(v, w, vec(s)), e, m);
	if constexpr (N > 1) { basic_vector<bool, 4> big(true, false, true, false); for (std::size_t i = 0; i < N; ++i) big[N - 1 - i] = s[i];
		if constexpr (N == 4) same_vec(dsga::mix(v, w, big.wzyx), e, m); else if constexpr (N == 3) same_vec(dsga::mix(v, w, big.zyx), e, m); else same_vec(dsga::mix(v, w, big.yx), e, m); }
}
template <class V, class W, class T, std::size_t N> void mdf(V &v, W &w, const std::array<T, N> &a, const char *m)
{
	if (!fins(a)) return;
	auto r = dsga::modf(v, w);
	std::array<T, N> e, q; for (std::size_t i = 0; i < N; ++i) { q[i] = std::trunc(a[i]); e[i] = a[i] - q[i]; }
	same_vec(r, e, m); for (std::size_t i = 0; i < N; ++i) check_same<T>(w[i], q[i], m);
}
''' + CHECK_ALL


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: float and double, every operand form, mixed-form argument lists, dimensions 1-4, scalars, aliased modf arguments; scalar formulas over the reals (equal up to rounding), endpoints and boolean mix exactly\n' \
            '// VF-ASSUME: mod, modf and mix arguments are finite for the defining formulas (the componentwise agreement has no such restriction)\n'
    for T in ('float', 'double'):
        s = SH[T]
        src = HEAD + C + bound
        src += f'H({s}_mix) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"), a = in<{T}>("a"); vf_assume(fin(x) && fin(y) && fin(a)); near<{T}>(dsga::mix(x, y, a), x * ({T}(1) - a) + y * a, "mix"); }}\n'
        src += f'H({s}_mixend) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_assume(fin(x) && fin(y)); vf_assert(dsga::mix(x, y, {T}(0)) == x, "mix at 0"); vf_assert(dsga::mix(x, y, {T}(1)) == y, "mix at 1"); }}\n'
        src += f'H({s}_mixbool) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); bool b = in<bool>("b"); check_same<{T}>(dsga::mix(x, y, b), b ? y : x, "mix with a boolean"); }}\n'
        src += f'H({s}_smooth) {{ {T} a = in<{T}>("a"), b = in<{T}>("b"), x = in<{T}>("x"); vf_assume(fin(a) && fin(b) && fin(x) && a < b); {T} t = (x - a) / (b - a); if (t < 0) t = 0; if (t > 1) t = 1; near<{T}>(dsga::smoothstep(a, b, x), t * t * (3 - 2 * t), "smoothstep"); }}\n'
        src += f'H({s}_mod) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_assume(fin(x) && fin(y) && y != 0); near<{T}>(dsga::mod(x, y), x - y * std::floor(x / y), "mod"); }}\n'
        src += f'H({s}_modf) {{ {T} x = in<{T}>("x"), i = in<{T}>("i"); vf_assume(fin(x)); {T} r = dsga::modf(x, i); check_same<{T}>(i, std::trunc(x), "integral part"); check_same<{T}>(r, x - std::trunc(x), "fractional part"); {T} y = in<{T}>("y"); vf_assume(fin(y)); {T} z = y; r = dsga::modf(z, z); check_same<{T}>(z, std::trunc(y), "integral part stored over the argument"); check_same<{T}>(r, y - std::trunc(y), "fractional part"); }}\n'
        out[f'P17_{s}_scalar'] = src
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            k = len(fs)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if th or (i + j + n) % 5 == 0:
                        h = fs[(i * 3 + j + 2) % k]
                        d = f'auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} '
                        d3 = d + f'auto c = arr<{T}, {h.m}>("c"); {h.decl(T, "u", "c")} '
                        A, B, E = f.exp(T), g.exp(T, 'b'), h.exp(T, 'c')
                        t = f'"{T}{n} {f.key}, {g.key}'
                        hs.append(f'\t{{ {d3} tri(v, w, u, {A}, {B}, {E}, {t}, {h.key} mix"); smo(v, w, u, {A}, {B}, {E}, {t}, {h.key} smoothstep"); bi(v, w, {A}, {B}, {t} mod"); bmix(v, w, {A}, {B}, {t} mix bool"); }}\n')
                        if g.writable:
                            fin_ = final(T, g, ['std::trunc((' + A + f')[{i_}])' for i_ in range(n)], 'other components after modf', 'w', 'b')
                            hs.append(f'\t{{ {d} mdf(v, w, {A}, {t} modf"); if (fins({A})) {fin_} }}\n')
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {T} x = in<{T}>("x"), y = in<{T}>("y"); {f.decl(T)} auto b = arr<{T}, {f.m}>("b"); {f.decl(T, "w", "b")} bi(v, x, {f.exp(T)}, rep<{n}>(x), "{T}{n} {f.key}, scalar mod"); smo(x, y, v, rep<{n}>(x), rep<{n}>(y), {f.exp(T)}, "smoothstep scalar, scalar, {T}{n} {f.key}"); tri(v, w, x, {f.exp(T)}, {f.exp(T, "b")}, rep<{n}>(x), "{T}{n} {f.key} mix scalar"); }}\n')
                if f.writable:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} mdf(v, v, {f.exp(T)}, "{T}{n} {f.key} modf onto itself"); }}\n')
            if n > 1:
                w = nm(range(n - 1, -1, -1))
                hs.append(f'\t{{ auto a = arr<{T}, {n}>("a"); basic_vector<{T}, {n}> v = vec(a); basic_vector<{T}, {n}> rv = v.{w}; std::array<{T}, {n}> ra{{{", ".join(f"a[{n - 1 - i}]" for i in range(n))}}}; if (fins(ra)) {{ auto r = dsga::modf(v.{w}, v); for (int i = 0; i < {n}; ++i) {{ check_same<{T}>(v[i], std::trunc(ra[i]), "modf of a swizzle onto its own vector"); check_same<{T}>(r[i], ra[i] - std::trunc(ra[i]), "modf of a swizzle onto its own vector"); }} }} }}\n')
        pack(out, f'P17_{s}', HEAD + C, hs, 8, 6)
    hs = []
    for T in ['bool', 'int', 'long long', 'unsigned']:
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                g = fs[(i * 7 + n) % len(fs)]
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} bmix(v, w, {f.exp(T)}, {g.exp(T, "b")}, "{T}{n} {f.key}, {g.key} mix bool"); }}\n')
    pack(out, 'P17_bm', HEAD + C, hs, 10, 8)
    return out
