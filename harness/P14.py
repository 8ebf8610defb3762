from gen import *

C = '''
#include <cfenv>
template <class T> void val(T r, T e, const char *m) { vf_assert(r == e || (r != r && e != e), m); }
template <class T> T even(T x) { return std::nearbyint(x); }
template <class R, class T, std::size_t N> void each(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (N == 1) check_same<T>(r, e[0], m); else { static_assert(std::is_same_v<R, basic_vector<T, N>>); check_vec(r, e, m); }
}
'''
FN = ['floor', 'ceil', 'trunc', 'round', 'roundEven', 'fract']


def generate(tier):
    out = {}
    th = tier == 'thorough'
    for T in ('float', 'double'):
        src = HEAD + C + '// VF-BOUND: every float and double bit pattern for the scalar functions (signed zeros compare equal); every form, dimensions 1-4, for the componentwise forms\n'
        for fn, e in (('floor', 'std::floor(x)'), ('ceil', 'std::ceil(x)'), ('trunc', 'std::trunc(x)'), ('round', 'std::round(x)'), ('roundEven', 'even(x)')):
            src += f'H({SH[T]}_{fn}) {{ {T} x = in<{T}>("x"); val<{T}>(dsga::{fn}(x), {e}, "{fn}"); }}\n'
        src += f'H({SH[T]}_fract) {{ {T} x = in<{T}>("x"); vf_assume(x - x == 0); val<{T}>(dsga::fract(x), x - std::floor(x), "fract"); }}\n'
        src += f'H({SH[T]}_fract_nan) {{ {T} x = in<{T}>("x"); vf_assume(x != x); {T} r = dsga::fract(x); vf_assert(r != r, "fract(NaN)"); }}\n'
        out[f'P14_{SH[T]}_scalar'] = src
        hs = []
        for n in range(1, 5):
            for f in forms(n):
                for fn in FN:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} std::array<{T}, {n}> e; for (int i = 0; i < {n}; ++i) e[i] = dsga::{fn}(({f.exp(T)})[i]); each(dsga::{fn}(v), e, "{fn} {T}{n} {f.key}"); }}\n')
        pack(out, f'P14_{SH[T]}', HEAD + C, hs, 20, 4)
    return out
