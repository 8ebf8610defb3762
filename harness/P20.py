from gen import *

C = '''
template <class R, class T, std::size_t N> void bits_vec(const R &r, const std::array<T, N> &e, const char *m)
{
	if constexpr (std::is_same_v<R, T>) { static_assert(N == 1); check_same<T>(r, e[0], m); }
	else { vf_assert(std::is_same_v<R, basic_vector<T, N>>, "result type"); if constexpr (std::is_same_v<R, basic_vector<T, N>>) check_vec(r, e, m); }
}
template <class T> bool nan_bits(T x) { if constexpr (sizeof(T) == 4) return (std::bit_cast<unsigned>(x) & 0x7fffffffu) > 0x7f800000u; else return (std::bit_cast<ullong>(x) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
template <class T> bool inf_bits(T x) { if constexpr (sizeof(T) == 4) return (std::bit_cast<unsigned>(x) & 0x7fffffffu) == 0x7f800000u; else return (std::bit_cast<ullong>(x) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull; }
template <class T> T swap_bytes(T x) { T r = 0; for (unsigned i = 0; i < sizeof(T); ++i) { r = T((r << 8) | ((x >> (8 * i)) & 0xff)); } return r; }
template <class T, std::size_t N, class F> auto map(const std::array<T, N> &a, F f) { std::array<decltype(f(a[0])), N> e; for (std::size_t i = 0; i < N; ++i) e[i] = f(a[i]); return e; }
#define LAM(E) [](auto x) { return E; }
template <class V, std::size_t N> void fbits(V &v, const std::array<float, N> &a)
{
	bits_vec(dsga::floatBitsToInt(v), map(a, LAM(std::bit_cast<int>(x))), "floatBitsToInt");
	bits_vec(dsga::floatBitsToUint(v), map(a, LAM(std::bit_cast<unsigned>(x))), "floatBitsToUint");
	bits_vec(dsga::intBitsToFloat(dsga::floatBitsToInt(v)), a, "floatBitsToInt round trip"); bits_vec(dsga::uintBitsToFloat(dsga::floatBitsToUint(v)), a, "floatBitsToUint round trip");
}
template <class V, std::size_t N> void fbits(V &v, const std::array<double, N> &a)
{
	bits_vec(dsga::doubleBitsToLongLong(v), map(a, LAM(std::bit_cast<llong>(x))), "doubleBitsToLongLong");
	bits_vec(dsga::doubleBitsToUlongLong(v), map(a, LAM(std::bit_cast<ullong>(x))), "doubleBitsToUlongLong");
	bits_vec(dsga::longLongBitsToDouble(dsga::doubleBitsToLongLong(v)), a, "doubleBitsToLongLong round trip"); bits_vec(dsga::ulongLongBitsToDouble(dsga::doubleBitsToUlongLong(v)), a, "doubleBitsToUlongLong round trip");
}
template <class V, class T, std::size_t N> void cls(V &v, const std::array<T, N> &a)
{
	bits_vec(dsga::isnan(v), map(a, LAM(nan_bits(x))), "isnan"); bits_vec(dsga::isinf(v), map(a, LAM(inf_bits(x))), "isinf");
}
template <class V, class T, std::size_t N> void ibits(V &v, const std::array<T, N> &a)
{
	if constexpr (std::is_same_v<T, int>) bits_vec(dsga::intBitsToFloat(v), map(a, LAM(std::bit_cast<float>(x))), "intBitsToFloat");
	if constexpr (std::is_same_v<T, unsigned>) bits_vec(dsga::uintBitsToFloat(v), map(a, LAM(std::bit_cast<float>(x))), "uintBitsToFloat");
	if constexpr (std::is_same_v<T, llong>) bits_vec(dsga::longLongBitsToDouble(v), map(a, LAM(std::bit_cast<double>(x))), "longLongBitsToDouble");
	if constexpr (std::is_same_v<T, ullong>) bits_vec(dsga::ulongLongBitsToDouble(v), map(a, LAM(std::bit_cast<double>(x))), "ulongLongBitsToDouble");
	bits_vec(dsga::byteswap(v), map(a, LAM(swap_bytes(x))), "byteswap"); bits_vec(dsga::byteswap(dsga::byteswap(v)), a, "byteswap twice");
}
template <class V, class W, class U, class T, std::size_t N> void fma3(V &v, W &w, U &u, const std::array<T, N> &a, const std::array<T, N> &b, const std::array<T, N> &c)
{
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = std::fma(a[i], b[i], c[i]);
	bits_vec(dsga::fma(v, w, u), e, "fma");
}
template <class V, class W, class T, std::size_t N> void exps(V &v, W &w, const std::array<T, N> &a, const std::array<int, N> &b)
{
	std::array<T, N> e; for (std::size_t i = 0; i < N; ++i) e[i] = std::ldexp(a[i], b[i]);
	bits_vec(dsga::ldexp(v, w), e, "ldexp");
}
template <class V, class W, class T, std::size_t N> void fre(V &v, W &w, const std::array<T, N> &a)
{
	std::array<T, N> e; std::array<int, N> q; for (std::size_t i = 0; i < N; ++i) { q[i] = 0; e[i] = std::frexp(a[i], &q[i]); }
	bits_vec(dsga::frexp(v, w), e, "frexp mantissa"); for (std::size_t i = 0; i < N; ++i) check_same<int>(w[i], q[i], "frexp exponent");
}
''' + CHECK_ALL


def generate(tier):
    out = {}
    th = tier == 'thorough'
    bound = '// VF-BOUND: every bit pattern (NaN payloads not distinguished), every operand form, dimensions 1-4, scalars; frexp, ldexp and fma as the same scalar operation on each component\n'
    for T in NUM:
        s = SH[T]
        hs = []
        fl = T in ('float', 'double')
        fn = ['fbits', 'cls'] if fl else ['ibits']
        hs.append(f'\t{{ {T} x = in<{T}>("x"); std::array<{T}, 1> a{{x}}; ' + ' '.join(f'{q}(x, a);' for q in fn) + ' }\n')
        for n in range(1, 5):
            fs = forms(n)
            k = len(fs)
            for i, f in enumerate(fs):
                # isnan and isinf exist for vectors, swizzles and views
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} ' + ' '.join(f'{q}(v, {f.exp(T)});' for q in fn) + ' }\n')
                if not fl:
                    continue
                for j, g in enumerate(fs):
                    if not th and (i + j + n) % 4:
                        continue
                    h = fs[(3 * i + j + 1) % k]
                    A = f.exp(T)
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); auto b = arr<{T}, {g.m}>("b"); auto c = arr<{T}, {h.m}>("c"); {f.decl(T)} {g.decl(T, "w", "b")} {h.decl(T, "u", "c")} fma3(v, w, u, {A}, {g.exp(T, "b")}, {h.exp(T, "c")}); }}\n')
                    d = f'auto a = arr<{T}, {f.m}>("a"); auto b = arr<int, {g.m}>("b"); {f.decl(T)} {g.decl("int", "w", "b")} '
                    hs.append(f'\t{{ {d} exps(v, w, {A}, {g.exp("int", "b")}); }}\n')
                    if g.writable:
                        rest = ' '.join(f'check_same<int>({owner(g, "w")}[{x}], b[{x}], "other components after frexp");' for x in range(g.m) if x not in g.order)
                        hs.append(f'\t{{ {d} fre(v, w, {A}); {rest} }}\n')
        pack(out, f'P20_{s}', HEAD + C + bound, hs, 12, 5)
    return out
