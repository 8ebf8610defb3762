from gen import *

C = '''
template <class T, std::size_t N> bool bad_pow(const std::array<T, N> &a, const std::array<T, N> &b) { for (std::size_t i = 0; i < N; ++i) if (!(a[i] >= 0) || (a[i] == 0 && b[i] <= 0)) return true; return false; }
template <class T, std::size_t N> bool bad_le(const std::array<T, N> &a, const std::array<T, N> &b) { for (std::size_t i = 0; i < N; ++i) if (!(a[i] <= b[i])) return true; return false; }
template <class T, std::size_t N> bool bad_lt(const std::array<T, N> &a, const std::array<T, N> &b) { for (std::size_t i = 0; i < N; ++i) if (!(a[i] < b[i])) return true; return false; }
template <class T, std::size_t N> bool has(const std::array<T, N> &a, T x) { for (auto y : a) if (y == x) return true; return false; }
template <class T> bool outside(T i, std::size_t n) { if constexpr (std::is_signed_v<T>) if (i < 0) return true; return static_cast<unsigned long long>(i) >= n; }
#define USE(X) { auto r_ = X; (void)r_; }
'''
TOTAL = 'radians degrees sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log exp2 log2 sqrt abs sign floor ceil trunc round roundEven fract isnan isinf length'.split()


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: all argument values on both sides of each boundary incl. NaN; float and double (int for clamp, %, abs); operand forms vec, cview, swizzle (all in thorough); dimensions 1-4 and scalars\n'
    keys = None if th else ('vec', 'cview', 'swz')
    for T in ('float', 'double'):
        s = SH[T]
        for n in range(1, 5):
            src = HEAD + C + bound
            fs = forms(n, keys)
            for i, f in enumerate(fs):
                g = fs[(i + 1) % len(fs)]
                h = fs[(i + 2) % len(fs)]
                two = f'auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} '
                three = two + f'auto c = arr<{T}, {h.m}>("c"); {h.decl(T, "u", "c")} '
                A, B, E = f.exp(T), g.exp(T, 'b'), h.exp(T, 'c')
                src += f'H({s}{n}_pow_{f.key}) {{ {two} vf_expect_abort(bad_pow({A}, {B})); USE(dsga::pow(v, w)) vf_expect_end("pow outside its domain"); }}\n'
                src += f'H({s}{n}_clamp_{f.key}) {{ {three} vf_expect_abort(bad_le({B}, {E})); USE(dsga::clamp(v, w, u)) vf_expect_end("clamp with lo > hi"); }}\n'
                src += f'H({s}{n}_smooth_{f.key}) {{ {three} vf_expect_abort(bad_lt({A}, {B})); USE(dsga::smoothstep(v, w, u)) vf_expect_end("smoothstep with edge0 >= edge1"); }}\n'
                src += f'H({s}{n}_sc_{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_expect_abort(!(x <= y)); USE(dsga::clamp(v, x, y)) vf_expect_end("clamp with lo > hi"); vf_expect_abort(!(x < y)); USE(dsga::smoothstep(x, y, v)) vf_expect_end("smoothstep with edge0 >= edge1"); }}\n'
                src += f'H({s}{n}_total_{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} ' + ' '.join(f'USE(dsga::{fn}(v))' for fn in TOTAL) + ' USE(dsga::atan(v, w)) USE(dsga::min(v, w)) USE(dsga::max(v, w)) USE(dsga::mod(v, w)) USE(dsga::mix(v, w, v)) USE(dsga::step(v, w)) USE(dsga::dot(v, w)) USE(v == w) USE(v + w) USE(v / w) USE(dsga::lessThan(v, w)) USE(dsga::distance(v, w)) }\n'
            out[f'P19_{s}{n}'] = src
        src = HEAD + C + f'H({s}_pow) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_expect_abort(!(x >= 0) || (x == 0 && y <= 0)); USE(dsga::pow(x, y)) vf_expect_end("pow outside its domain"); }}\n' \
            f'H({s}_clamp) {{ {T} x = in<{T}>("x"), y = in<{T}>("y"), z = in<{T}>("z"); vf_expect_abort(!(y <= z)); USE(dsga::clamp(x, y, z)) vf_expect_end("clamp with lo > hi"); vf_expect_abort(!(y < z)); USE(dsga::smoothstep(y, z, x)) vf_expect_end("smoothstep with edge0 >= edge1"); }}\n'
        for c in range(2, 5):
            r = 6 - c if c != 3 else 2
            for it in ('int', 'unsigned long', 'signed char', 'unsigned'):
                for k, (e, lim) in {'col': (f'm[i][0]', c), 'ccol': ('std::as_const(m)[i][0]', c), 'row': ('m.row(i)[0]', r)}.items():
                    src += f'H({s}_m{c}{r}_{k}_{it.replace(" ", "")}) {{ basic_matrix<{T}, {c}, {r}> m; {it} i = in<{it}>("i"); vf_expect_abort(outside(i, {lim})); USE({e}) vf_expect_end("matrix {k} index out of range"); }}\n'
        out[f'P19_{s}_scalar'] = src
    for T in INTS:
        src = HEAD + C
        s = SH[T]
        sg = not T.startswith('unsigned')
        for n in range(1, 5):
            fs = forms(n, keys)
            for i, f in enumerate(fs):
                g = fs[(i + 1) % len(fs)]
                two = f'auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); {f.decl(T)} {g.decl(T, "w", "b")} '
                A, B = f.exp(T), g.exp(T, 'b')
                nov = f'for (auto x : {B}) vf_assume(x != {one(T)}(-1)); ' if sg else ''
                src += f'H({s}{n}_mod_{f.key}) {{ {two} {nov} vf_expect_abort(has<{T}>({B}, {T}(0))); USE(v % w) vf_expect_end("% by a zero component"); }}\n'.replace(f'{T}(0)', f'{one(T)}(0)')
                src += f'H({s}{n}_mods_{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {T} x = in<{T}>("x"); ' + (f'vf_assume(x != {one(T)}(-1)); ' if sg else '') + f'vf_expect_abort(x == 0); USE(v % x) vf_expect_end("% by zero"); }}\n'
                if f.writable:
                    src += f'H({s}{n}_modeq_{f.key}) {{ {two} {nov} vf_expect_abort(has<{T}>({B}, {one(T)}(0))); v %= w; vf_expect_end("%= by a zero component"); }}\n'
                src += f'H({s}{n}_clamp_{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {T} x = in<{T}>("x"), y = in<{T}>("y"); vf_expect_abort(!(x <= y)); USE(dsga::clamp(v, x, y)) vf_expect_end("clamp with lo > hi"); }}\n'
                if sg:
                    src += f'H({s}{n}_abs_{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} vf_expect_abort(has<{T}>({A}, std::numeric_limits<{T}>::min())); USE(dsga::abs(v)) vf_expect_end("abs of the most negative integer"); }}\n'
        out[f'P19_{s}'] = src
    src = HEAD + C
    for n in range(1, 5):
        w = nm(range(n))
        for M in ('true', 'false'):
            for k, e in {'idx': 'USE(v[0])', 'swz': f'USE(v.{w}[0])', 'conv': f'basic_vector<int, {n}> r(v); (void)r;', 'iter': 'USE(*v.begin())', 'data': 'USE(*v.data())', 'op': 'USE(v + v)', 'eq': 'USE(v == v)',
                         'reset': 'int x = 3; v.reset(&x); v.reset(static_cast<int *>(nullptr)); USE(v[0])'}.items():
                if k == 'op' or k == 'iter' or k == 'data':
                    continue
                src += f'H(null{n}_{k}_{"m" if M == "true" else "c"}) {{ basic_view<{M}, int, {n}> v; vf_expect_abort(true); {e} vf_expect_end("use of a null view"); }}\n'
        src += f'H(null{n}_asg) {{ auto a = arr<int, {n}>("a"); basic_view<true, int, {n}> v; vf_expect_abort(true); v = vec(a); vf_expect_end("assignment to a null view"); }}\n'
    out['P19_null'] = src
    return out
