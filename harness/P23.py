from gen import *

C = '''
template <class E, class R> constexpr void ty() { vf_assert(std::is_same_v<R, E>, "result type"); }
template <class T, std::size_t N, class R> void nearv(const R &r, const std::array<T, N> &e, const char *m) { ty<basic_vector<T, N>, R>(); for (std::size_t i = 0; i < N; ++i) near<T>(r[i], e[i], m); }
template <class A, class T, class U, std::size_t N> A sumprod(const std::array<T, N> &a, const std::array<U, N> &b) { A r = A(a[0]) * A(b[0]); for (std::size_t i = 1; i < N; ++i) r = r + A(a[i]) * A(b[i]); return r; }
template <class T, std::size_t N> bool fins(const std::array<T, N> &a) { for (auto x : a) if (!(x - x == 0)) return false; return true; }
template <class V, class W, class T, class U> void crs(V &v, W &w, const std::array<T, 3> &a, const std::array<U, 3> &b, const char *m)
{
	using A = decltype(T() * U());
	nearv<A, 3>(dsga::cross(v, w), {A(a[1]) * A(b[2]) - A(a[2]) * A(b[1]), A(a[2]) * A(b[0]) - A(a[0]) * A(b[2]), A(a[0]) * A(b[1]) - A(a[1]) * A(b[0])}, m);
}
template <class V, class T, std::size_t N> void nrm(V &v, const std::array<T, N> &a, const char *m)
{
	if (!fins(a)) return;
	bool zero = true; for (auto x : a) if (x != 0) zero = false;
	auto r = dsga::normalize(v); ty<basic_vector<T, N>, decltype(r)>();
	if (!zero) { T l = std::sqrt(sumprod<T>(a, a)); if (l > 0 && l - l == 0) for (std::size_t i = 0; i < N; ++i) near<T>(r[i], a[i] / l, m); }
}
template <class V> void nrm0(V &v)
{
	auto r = dsga::normalize(v); for (std::size_t i = 0; i < v.size(); ++i) vf_assert(r[i] != r[i], "normalize of a zero vector gives NaN");
}
template <class T, std::size_t N> std::array<T, N> zeros() { std::array<T, N> a; for (auto &x : a) x = in<bool>("s") ? T(-0.0) : T(0.0); return a; }
template <class V, class W, class U, class T, std::size_t N> void ffd(V &v, W &w, U &u, const std::array<T, N> &a, const std::array<T, N> &b, const std::array<T, N> &c, const char *m)
{
	if (!(fins(a) && fins(b) && fins(c))) return;
	bool keep = sumprod<T>(c, b) < 0;
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = keep ? a[i] : -a[i];
	nearv(dsga::faceforward(v, w, u), e, m);
}
template <class V, class W, class T, std::size_t N> void rfl(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	if (!(fins(a) && fins(b))) return;
	T d = sumprod<T>(b, a);
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = a[i] - T(2) * d * b[i];
	nearv(dsga::reflect(v, w), e, m);
}
template <class V, class W, class T, std::size_t N> void rfr(V &v, W &w, T eta, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	if (!(fins(a) && fins(b) && eta - eta == 0)) return;
	T d = sumprod<T>(b, a), k = T(1) - eta * eta * (T(1) - d * d);
	std::array<T, N> e{}; if (!(k < 0)) for (std::size_t i = 0; i < N; ++i) e[i] = eta * a[i] - (eta * d + std::sqrt(k)) * b[i];
	nearv(dsga::refract(v, w, eta), e, m);
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: float and double (cross also mixed), combinations of operand forms, dimensions 2-4; identities over the reals (equal up to rounding); finite operands; NaN of normalize(0) exactly\n'
    for T in ('double', 'float'):
        s = SH[T]
        for U in ('double', 'float'):
            hs = []
            fs = forms(3)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if th or T == U == 'double' or (i + j) % (3 if T == U else 5) == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{U}, {g.m}>("b"); {f.decl(T)} {g.decl(U, "w", "b")} crs(v, w, {f.exp(T)}, {g.exp(U, "b")}, "cross {f.key}, {g.key}"); }}\n')
            pack(out, f'P23_cross{s}{SH[U]}', HEAD + C + bound, hs, 12, 4)
        hs = []
        for n in range(2, 5):
            fs = forms(n)
            k = len(fs)
            for i, f in enumerate(fs):
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} nrm(v, {f.exp(T)}, "normalize {T}{n} {f.key}"); }}\n')
                hs.append(f'\t{{ auto a = zeros<{T}, {f.m}>(); {f.decl(T)} nrm0(v); }}\n')
                for j, g in enumerate(fs):
                    if th or (i + j + n) % (5 if T == 'double' else 10) == 0:
                        h = fs[(3 * i + j + 1) % k]
                        A, B, E = f.exp(T), g.exp(T, 'b'), h.exp(T, 'c')
                        d = f'auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} '
                        t = f'"{T}{n} {f.key}, {g.key}'
                        hs.append(f'\t{{ {d} rfl(v, w, {A}, {B}, {t} reflect"); }}\n')
                        hs.append(f'\t{{ {d} auto c = arr<{T}, {h.m}>("c"); {h.decl(T, "u", "c")} ffd(v, w, u, {A}, {B}, {E}, {t}, {h.key} faceforward"); }}\n')
                        hs.append(f'\t{{ {d} {T} eta = in<{T}>("eta"); rfr(v, w, eta, {A}, {B}, {t} refract"); }}\n')
        pack(out, f'P23_{s}', HEAD + C, hs, 2, 16)
    return out
