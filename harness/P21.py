from gen import *

C = '''
template <class R, class T, std::size_t N> void same_vec(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); check_same<T>(r, e[0], m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); check_vec(r, e, m); }
}
template <class V, class T, std::size_t N> void roots(V &v, const std::array<T, N> &a)
{
	std::array<T, N> e;
	for (std::size_t i = 0; i < N; ++i) e[i] = std::sqrt(a[i]);
	same_vec(dsga::sqrt(v), e, "sqrt is the correctly rounded square root of each component");
	for (std::size_t i = 0; i < N; ++i) e[i] = dsga::inversesqrt(a[i]);
	same_vec(dsga::inversesqrt(v), e, "inversesqrt works componentwise");
	for (std::size_t i = 0; i < N; ++i) e[i] = dsga::fast_inversesqrt(a[i]);
	same_vec(dsga::fast_inversesqrt(v), e, "fast_inversesqrt works componentwise");
}
template <class T> void special(T x, T r, const char *m)
{
	if (!(x >= 0)) vf_assert(r != r, m);
	else if (x == 0) vf_assert(r == std::numeric_limits<T>::infinity(), m);
	else vf_assert(r == 0, m);
}
'''


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: sqrt and the componentwise forms: every float and double value, every operand form, dimensions 1-4; inversesqrt: NaN, infinities, zeros and negative values exactly\n'
    for T in ('float', 'double'):
        s = SH[T]
        hs = [f'\t{{ {T} x = in<{T}>("x"); check_same<{T}>(dsga::sqrt(x), std::sqrt(x), "sqrt"); }}\n']
        for n in range(1, 5):
            for f in forms(n):
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} roots(v, {f.exp(T)}); }}\n')
        pack(out, f'P21_{s}', HEAD + C + bound, hs, 1 if T == 'double' else 2, 8)
        out[f'P21_{s}_special'] = HEAD + C + ''.join(f'H({s}_{q}_special) {{ {T} x = in<{T}>("x"); vf_assume(!(x > 0 && x < std::numeric_limits<{T}>::infinity())); special<{T}>(x, dsga::{q}(x), "{q} of a special value"); }}\n' for q in ('inversesqrt', 'fast_inversesqrt'))
    return out
