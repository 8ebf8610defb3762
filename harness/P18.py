from gen import *

UN = 'sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log exp2 log2'.split()
C = '''
template <class R, class T, std::size_t N> void same_vec(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); check_same<T>(r, e[0], m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); check_vec(r, e, m); }
}
#define MAP1(F) [&] { std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = F(a[i]); return e; }()
template <class V, class T, std::size_t N> void un(V &v, const std::array<T, N> &a)
{
''' + ''.join(f'\tsame_vec(dsga::{f}(v), MAP1(std::{f}), "{f}");\n' for f in UN) + '''
	same_vec(dsga::radians(v), MAP1(dsga::radians), "radians"); same_vec(dsga::degrees(v), MAP1(dsga::degrees), "degrees");
}
template <bool P = true, class V, class W, class T, std::size_t N> void bi(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b)
{
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = std::atan2(a[i], b[i]);
	same_vec(dsga::atan(v, w), e, "atan(y, x)");
	if (!P) return;
	for (std::size_t i = 0; i < N; ++i) if (!(a[i] >= 0 && !(a[i] == 0 && b[i] <= 0))) return;
	for (std::size_t i = 0; i < N; ++i) e[i] = std::pow(a[i], b[i]);
	same_vec(dsga::pow(v, w), e, "pow");
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: float and double, every operand form, argument pairs of mixed forms, dimensions 1-4, scalars; the standard library functions are uninterpreted (the same function of the same operand)\n'
    for T in ('float', 'double'):
        s = SH[T]
        hs, h2 = [f'\t{{ {T} x = in<{T}>("x"), y = in<{T}>("y"); std::array<{T}, 1> a{{x}}, b{{y}}; un(x, a); bi(x, y, a, b); }}\n'], []
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} un(v, {f.exp(T)}); }}\n')
                for j, g in enumerate(fs):
                    if th or (i + j + n) % 3 == 0:
                        h2.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} bi<{'true' if (i + 2 * j + n) % (4 if T == 'double' else 8) == 0 or th else 'false'}>(v, w, {f.exp(T)}, {g.exp(T, "b")}); }}\n')
        pack(out, f'P18_{s}', HEAD + C + bound, hs, 8, 3)
        pack(out, f'P18_{s}b', HEAD + C, h2, 4, 9)
        out[f'P18_{s}_deg'] = HEAD + f'H({s}_rad) {{ {T} x = in<{T}>("x"); near<{T}>(dsga::radians(x), x * std::numbers::pi_v<{T}> / {T}(180), "radians"); }}\nH({s}_deg) {{ {T} x = in<{T}>("x"); near<{T}>(dsga::degrees(x), x * {T}(180) / std::numbers::pi_v<{T}>, "degrees"); }}\n'
    return out
