from gen import *
from P08 import BIN

C = BIN + '''
#define REL(F, EXPR) { std::array<bool, N> e; for (std::size_t i = 0; i < N; ++i) { T x = a[i], y = b[i]; e[i] = EXPR; } res<N>(F(v, w), e, #F); \\
	for (std::size_t i = 0; i < N; ++i) check_same<bool>(F(a[i], b[i]), e[i], "scalar " #F); }
template <class V, class W, class T, std::size_t N> void rel(V &v, W &w, const std::array<T, N> &a, const std::array<T, N> &b, const char *m)
{
	if constexpr (!std::is_same_v<T, bool>) { REL(lessThan, x < y) REL(lessThanEqual, x <= y) REL(greaterThan, x > y) REL(greaterThanEqual, x >= y) }
	else { REL(compAnd, (x && y)) REL(compOr, (x || y)) }
	REL(equal, x == y) REL(notEqual, !(x == y))
}
template <class V, std::size_t N> void logic(V &v, const std::array<bool, N> &a, const char *m)
{
	std::array<bool, N> e; bool an = false, al = true;
	for (std::size_t i = 0; i < N; ++i) { e[i] = !a[i]; if (a[i]) an = true; else al = false; }
	res<N>(compNot(v), e, "compNot");
	vf_assert(any(v) == an, "any"); vf_assert(all(v) == al, "all"); vf_assert(none(v) == !an, "none");
	for (std::size_t i = 0; i < N; ++i) { vf_assert(any(a[i]) == a[i], "any(bool)"); vf_assert(all(a[i]) == a[i], "all(bool)"); vf_assert(none(a[i]) == !a[i], "none(bool)"); vf_assert(compNot(a[i]) == !a[i], "compNot(bool)"); }
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    for ti, T in enumerate(NUM + ['bool']):
        hs = []
        for n in range(1, 5):
            fs = forms(n)
            for i, f in enumerate(fs):
                for j, g in enumerate(fs):
                    if th or (i + j + n + ti) % 7 == 0:
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} rel(v, w, {f.exp(T)}, {g.exp(T, "b")}, ""); }}\n')
                if T == 'bool':
                    hs.append(f'\t{{ auto a = arr<bool, {f.m}>("a"); {f.decl(T)} logic(v, {f.exp(T)}, ""); }}\n')
        pack(out, f'P12_{SH[T]}', HEAD + C + '// VF-BOUND: every scalar type, operand forms paired, dimensions 1-4, all values including NaN\n', hs, 12 if T != 'bool' else 16, 2)
    return out
