from gen import *

C = '''
#include "examples/bezier.hxx"
template <class T> bool fin(T x) { return x - x == 0; }
template <class T, std::size_t N> bool fins(const std::array<T, N> &a) { bool r = true; for (auto x : a) r = r & fin(x); return r; }
template <class T> T bern(T a, T b, T c, T t) { const T s = 1 - t; return s * s * a + 2 * s * t * b + t * t * c; }
template <class T> T bern(T a, T b, T c, T d, T t) { const T s = 1 - t; return s * s * s * a + 3 * s * s * t * b + 3 * s * t * t * c + t * t * t * d; }
// the result as an array, whatever it is (a scalar for one-dimensional control points)
template <class T, std::size_t N, class R> std::array<T, N> comps(const R &r)
{
	std::array<T, N> a{};
	if constexpr (N == 1) { static_assert(std::is_same_v<R, T>); a[0] = r; }
	else { static_assert(std::is_same_v<R, basic_vector<T, N>>); for (std::size_t i = 0; i < N; ++i) a[i] = r[i]; }
	return a;
}
template <class T, std::size_t N, class F, class... A> void curve(F f, const char *m, const A &...p)
{
	T t = in<T>("t"); const auto r = comps<T, N>(f(t));
	for (std::size_t i = 0; i < N; ++i) near<T>(r[i], bern(p[i]..., t), m);
}
template <class T, std::size_t N, class F, class G> void agree(F f, G g, const char *m)
{
	T t = in<T>("t"); const auto r = comps<T, N>(f(t)), s = comps<T, N>(g(T(1) - t));
	for (std::size_t i = 0; i < N; ++i) near<T>(r[i], s[i], m);
}
template <class T, std::size_t N, class F, class A> void ends(F f, const A &first, const A &last, const char *m)
{
	const auto r = comps<T, N>(f(T(0))), s = comps<T, N>(f(T(1)));
	for (std::size_t i = 0; i < N; ++i) { vf_assert(r[i] == first[i], m); vf_assert(s[i] == last[i], m); }
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: float and double control points of dimension 1-4 in combinations of operand forms; any t; identities over the reals (equal up to rounding); t = 0 and t = 1 exactly, for finite control points\n'
    for T in ('double', 'float'):
        hs = []
        es = []
        for n in range(1, 5):
            fs = forms(n)
            k = len(fs)
            for i in range(k):
                if not th and (T == 'float' and (i + n) % 3):
                    continue
                f = [fs[i], fs[(i + 3) % k], fs[(i + n) % k], fs[(3 * i + 1) % k]]
                d = ''.join(f'auto {c} = arr<{T}, {g.m}>("{c}"); {g.decl(T, v, c)} ' for g, c, v in zip(f, 'abcd', 'pqrs'))
                d2 = ''.join(f'auto {c} = arr<{T}, {g.m}>("{c}"); {g.decl(T, v, c)} ' for g, c, v in zip(f, 'abc', 'pqr'))
                E = [g.exp(T, c) for g, c in zip(f, 'abcd')]
                key = ', '.join(g.key for g in f)
                for e in ('', '2'):
                    q = lambda a: f'[&]({T} t) {{ return quadratic_bezier_eval{e}({a}, t); }}'
                    c = lambda a: f'[&]({T} t) {{ return cubic_bezier_eval{e}({a}, t); }}'
                    hs.append(f'\t{{ {d2} curve<{T}, {n}>({q("p, q, r")}, "quadratic{e} {T}{n} {key}", {", ".join(E[:3])}); }}\n')
                    hs.append(f'\t{{ {d} curve<{T}, {n}>({c("p, q, r, s")}, "cubic{e} {T}{n} {key}", {", ".join(E)}); }}\n')
                    if i in (0, 5) or th:
                        hs.append(f'\t{{ {d2} agree<{T}, {n}>({q("p, q, r")}, {q("r, q, p")}, "quadratic{e} reversed {T}{n} {key}"); }}\n')
                        hs.append(f'\t{{ {d} agree<{T}, {n}>({c("p, q, r, s")}, {c("s, r, q, p")}, "cubic{e} reversed {T}{n} {key}"); }}\n')
                    if th or i == 0 and n in ((1, 2) if T == 'double' else (2, 3)):
                        es.append(f'\t{{ {d2} vf_assume(fins(a) & fins(b) & fins(c)); ends<{T}, {n}>({q("p, q, r")}, {E[0]}, {E[2]}, "quadratic{e} ends {T}{n} {key}"); }}\n'
                                  .replace(f'{E[0]}, {E[2]}', f'{E[0]}, {E[2]}'))
                        es.append(f'\t{{ {d} vf_assume(fins(a) & fins(b) & fins(c) & fins(d)); ends<{T}, {n}>({c("p, q, r, s")}, {E[0]}, {E[3]}, "cubic{e} ends {T}{n} {key}"); }}\n')
        # the ordinate evaluators, in every form
        for g in forms(3):
            for e in ('', '2'):
                hs.append(f'\t{{ auto a = arr<{T}, {g.m}>("a"); {g.decl(T)} const auto x = {g.exp(T)}; T_t; near<{T}>(quadratic_bezier_ordinate_eval{e}(v, t), bern(x[0], x[1], x[2], t), "quadratic ordinate{e} {g.key}"); }}\n'.replace('T_t', f'{T} t = in<{T}>("t")'))
        for g in forms(4):
            for e in ('', '2'):
                hs.append(f'\t{{ auto a = arr<{T}, {g.m}>("a"); {g.decl(T)} const auto x = {g.exp(T)}; T_t; near<{T}>(cubic_bezier_ordinate_eval{e}(v, t), bern(x[0], x[1], x[2], x[3], t), "cubic ordinate{e} {g.key}"); }}\n'.replace('T_t', f'{T} t = in<{T}>("t")'))
        pack(out, f'P36_{SH[T]}', HEAD + C + bound, hs, 3, 14)
        pack(out, f'P36_ends{SH[T]}', HEAD + C, es, 1, 16)
    return out
