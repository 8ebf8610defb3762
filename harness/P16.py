from gen import *
from P14 import C as VAL

C = VAL + '''
template <class T> T mn(T x, T y) { return y < x ? y : x; }
template <class T> T mx(T x, T y) { return x < y ? y : x; }
template <class T> T cl(T x, T lo, T hi) { return mn(mx(x, lo), hi); }
template <class T> T sg(T x) { return x > 0 ? T(1) : x < 0 ? T(-1) : T(0); }
template <class T> T st(T e, T x) { return x < e ? T(0) : T(1); }
template <class T> bool ord(T x) { return x == x; }
template <class T, std::size_t N> bool ords(const std::array<T, N> &a) { for (auto x : a) if (x != x) return false; return true; }
// value equality (signed zeros compare equal)
template <class R, class T, std::size_t N> void eqv(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); vf_assert(r == e[0], m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); for (std::size_t i = 0; i < N; ++i) vf_assert(r[i] == e[i], m); }
}
template <class R, class T, std::size_t N> void eqn(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); vf_assert(r == e[0] || (r != r && e[0] != e[0]), m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); for (std::size_t i = 0; i < N; ++i) vf_assert(r[i] == e[i] || (r[i] != r[i] && e[i] != e[i]), m); }
}
#define MAP1(F) [&] { std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = F(a[i]); return e; }()
#define MAP2(F) [&] { std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = F(a[i], b[i]); return e; }()
#define MAP3(F) [&] { std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = F(a[i], b[i], c[i]); return e; }()
template <class V, class T, std::size_t N> void un(V &v, const std::array<T, N> &a, const char *m)
{
	auto ab = [](T x) { return x < 0 ? T(-x) : x; };
	bool ok = ords(a);
	if constexpr (std::is_integral_v<T>) for (auto x : a) if (x == std::numeric_limits<T>::min()) ok = false;
	if (ok) { eqv(dsga::abs(v), MAP1(ab), m); eqv(dsga::sign(v), MAP1(sg), m); if constexpr (std::is_floating_point_v<T>) { auto r = dsga::abs(v); if constexpr (std::is_same_v<decltype(r), T>) vf_assert(!std::signbit(r), "abs clears the sign"); else for (std::size_t i = 0; i < N; ++i) vf_assert(!std::signbit(r[i]), "abs clears the sign"); } }
	if constexpr (std::is_floating_point_v<T>) if (!ok) eqn(dsga::abs(v), MAP1(ab), "abs with NaN");
}
template <class V, class W, class T, std::size_t N> void bi(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	if (!(ords(a) && ords(b))) return;
	eqv(dsga::min(v, w), MAP2(mn), m); eqv(dsga::max(v, w), MAP2(mx), m);
	if constexpr (std::is_floating_point_v<T> && !(std::is_same_v<W, T> && !std::is_same_v<V, T>)) eqv(dsga::step(v, w), MAP2(st), m);
}
template <class V, class W, class T, std::size_t N> void stp(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	eqv(dsga::step(v, w), MAP2(st), m);
}
template <class V, class W, class U, class T, std::size_t N> void tri(V &v, W &w, U &u, const std::array<T, N> &a, const std::array<T, N> &b, const std::array<T, N> &c, const char *m)
{
	if (!(ords(a) && ords(b) && ords(c))) return;
	for (std::size_t i = 0; i < N; ++i) if (!(b[i] <= c[i])) return;
	eqv(dsga::clamp(v, w, u), MAP3(cl), m);
}
template <std::size_t N, class T> std::array<T, N> rep(T x) { std::array<T, N> r; r.fill(x); return r; }
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: element types int, long long, float, double (min/max/clamp also unsigned); every operand form, mixed-form argument lists, dimensions 1-4, scalars; NaN excluded for the ordering functions (unspecified there), INT_MIN excluded for abs\n'
    for T in NUM:
        uns = T.startswith('unsigned')
        fl = T in ('float', 'double')
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            k = len(fs)
            for i, f in enumerate(fs):
                if not uns:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} un(v, {f.exp(T)}, "{T}{n} {f.key} unary"); }}\n')
                for j, g in enumerate(fs):
                    if th or (i + j + n) % (5 if T == 'int' else 10 if T == 'double' else 20) == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} bi(v, w, {f.exp(T)}, {g.exp(T, "b")}, "{T}{n} {f.key}, {g.key}"); }}\n')
                        h = fs[(i * 3 + j + 2) % k]
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); auto c = arr<{T}, {h.m}>("c"); {f.decl(T)} {g.decl(T, "w", "b")} {h.decl(T, "u", "c")} tri(v, w, u, {f.exp(T)}, {g.exp(T, "b")}, {h.exp(T, "c")}, "clamp {T}{n} {f.key}, {g.key}, {h.key}"); }}\n')
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {T} x = in<{T}>("x"), y = in<{T}>("y"); {f.decl(T)} bi(v, x, {f.exp(T)}, rep<{n}>(x), "{T}{n} {f.key}, scalar"); tri(v, x, y, {f.exp(T)}, rep<{n}>(x), rep<{n}>(y), "clamp {T}{n} {f.key}, scalar, scalar");'
                          + (f' if (ords(a) && ord(x)) stp(x, v, rep<{n}>(x), {f.exp(T)}, "step scalar, {T}{n} {f.key}");' if fl else '') + ' }\n')
        hs.append(f'\t{{ {T} x = in<{T}>("x"), y = in<{T}>("y"), z = in<{T}>("z"); std::array<{T}, 1> a{{x}}, b{{y}}, c{{z}}; bi(x, y, a, b, "scalars"); tri(x, y, z, a, b, c, "clamp scalars");' + ('' if uns else ' un(x, a, "scalar");')
                  + (' if (ord(x) && ord(y)) stp(x, y, a, b, "step scalars");' if fl else '') + ' }\n')
        pack(out, f'P16_{SH[T]}', HEAD + C + bound, hs, 8, 6)
    return out
