from gen import *

BIN = '''
template <class R, class E> constexpr void ty() { vf_assert(std::is_same_v<R, E>, "result type"); }
template <std::size_t N, class R, class E> void res(const R &r, const std::array<E, N> &e, const char *m)
{
	if constexpr (N == 1 && std::is_arithmetic_v<R>) { ty<R, E>(); check_same<E>(r, e[0], m); }
	else { ty<R, basic_vector<E, N>>(); if constexpr (std::is_same_v<R, basic_vector<E, N>>) check_vec(r, e, m); }
}
#define DO(OP) { using E = decltype(C() OP C()); std::array<E, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = static_cast<C>(a[i]) OP static_cast<C>(b[i]); res<N>(v OP w, e, m); }
template <class V, class W, class T, class U, std::size_t N> void bin(V &v, W &w, const std::array<T, N> &a, const std::array<U, N> &b, const char *m)
{
	using C = std::common_type_t<T, U>;
	DO(+) DO(-) DO(*)
	bool ok = true;
	if constexpr (std::is_integral_v<C>) for (std::size_t i = 0; i < N; ++i) { if (C(b[i]) == 0) ok = false; if constexpr (std::is_signed_v<C>) if (C(b[i]) == -1) ok = false; }
	if (ok) DO(/)
}
template <std::size_t N, class T> std::array<T, N> rep(T x) { std::array<T, N> r; r.fill(x); return r; }
'''
PAIRS = [('int', 'int'), ('double', 'double'), ('int', 'double'), ('float', 'int'), ('unsigned', 'int'), ('long long', 'unsigned'), ('float', 'float')]


def block(op, T, U, n, fl, fr):
    return f'\t{{ auto a = arr<{T}, {fl.m}>("a"); auto b = arr<{U}, {fr.m}>("b"); {fl.decl(T, "v", "a")} {fr.decl(U, "w", "b")} ' \
           f'{op}(v, w, {fl.exp(T, "a")}, {fr.exp(U, "b")}, "{T}{n} {fl.key} op {U} {fr.key}"); ' \
           f'auto &cv = v; auto &cw = w; for (std::size_t i = 0; i < {n}; ++i) {{ check_same<{T}>(cv[i], ({fl.exp(T, "a")})[i], "left operand unchanged"); check_same<{U}>(cw[i], ({fr.exp(U, "b")})[i], "right operand unchanged"); }} }}\n'


def scalar_blocks(op, T, U, n, f, th):
    hs = []
    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {U} x = in<{U}>("x"); {op}(v, x, {f.exp(T)}, rep<{n}>(x), "{T}{n} {f.key} op scalar {U}"); {op}(x, v, rep<{n}>(x), {f.exp(T)}, "scalar {U} op {T}{n} {f.key}"); }}\n')
    if n > 1:
        for g in forms(1):
            hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} auto b = arr<{U}, {g.m}>("b"); {g.decl(U, "w", "b")} '
                      f'{op}(v, w, {f.exp(T)}, rep<{n}>(b[{g.order[0]}]), "{T}{n} {f.key} op 1-D {g.key}"); {op}(w, v, rep<{n}>(b[{g.order[0]}]), {f.exp(T)}, "1-D {g.key} op {T}{n} {f.key}"); }}\n')
    return hs


def matrix(op, pairs, tier, prefix, head, bound):
    """every pair of operand forms; both operands of one dimension, scalars and 1-D operands"""
    out = {}
    th = tier == 'thorough'
    for pi, (T, U) in enumerate(pairs):
        for n in range(1, 5):
            hs = []
            fs = forms(n)
            for i, fl in enumerate(fs):
                for j, fr in enumerate(fs):
                    if th and pi < 3 or (i + j + pi) % (5 if pi < 2 else 8) == 0:
                        hs.append(block(op, T, U, n, fl, fr))
                if th or (i + pi + n) % 3 == 0 or i == 0:
                    sb = scalar_blocks(op, T, U, n, fl, th)
                    hs += sb if th or i == 0 else sb[:1] + sb[1 + i % 10: 2 + i % 10]
            pack(out, f'{prefix}_{SH[T]}{SH[U]}{n}', head + bound, hs, 6, 6)
    return out


def generate(tier):
    pairs = PAIRS if tier != 'thorough' else PAIRS + [(a, b) for a in NUM for b in NUM if (a, b) not in PAIRS]
    return matrix('bin', pairs, tier, 'P08', HEAD + BIN,
                  '// VF-BOUND: operand forms paired (all pairs in thorough), dimensions 1-4, scalars and 1-D operands on both sides, all values; integer division by 0 and by -1 excluded\n')
