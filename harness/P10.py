from gen import *
from P08 import BIN, matrix
import P08

INT = BIN + '''
template <class V, class W, class T, class U, std::size_t N> void ibin(V &v, W &w, const std::array<T, N> &a, const std::array<U, N> &b, const char *m)
{
	using C = std::common_type_t<T, U>;
	bool nz = true, sh = true;
	for (std::size_t i = 0; i < N; ++i)
	{
		if (C(b[i]) == 0) nz = false;
		if constexpr (std::is_signed_v<C>) if (C(b[i]) == -1) nz = false;
		if (b[i] < U(0) || static_cast<uint64_t>(b[i]) >= 8 * sizeof(T)) sh = false;
	}
	if constexpr (sizeof(T) == sizeof(U)) { DO(&) DO(|) DO(^) }
	if (nz) DO(%)
	if (sh)
	{
		std::array<T, N> e;
		for (std::size_t i = 0; i < N; ++i) e[i] = static_cast<T>(a[i] << b[i]);
		res<N>(v << w, e, m);
		for (std::size_t i = 0; i < N; ++i) e[i] = static_cast<T>(a[i] >> b[i]);
		res<N>(v >> w, e, m);
	}
}
'''


def generate(tier):
    th = tier == 'thorough'
    pairs = [('int', 'int'), ('unsigned', 'int'), ('long long', 'int'), ('unsigned long long', 'long long')]
    if th:
        pairs += [(a, b) for a in INTS for b in INTS if (a, b) not in pairs]
    bound = '// VF-BOUND: every integral type pair (thorough), operand forms paired, dimensions 1-4, both operand orders, all values inside the domain of the built-in operator (% by 0 and by -1, shift counts outside the width excluded)\n'
    out = matrix('ibin', pairs, tier, 'P10', HEAD + INT, bound)
    for T in INTS if th else ['int', 'unsigned long long']:
        hs = []
        for n in range(1, 5):
            for f in forms(n):
                hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} std::array<decltype(~{one(T)}()), {n}> e; for (int i = 0; i < {n}; ++i) e[i] = ~({f.exp(T)})[i]; res<{n}>(~v, e, "~ {T}{n} {f.key}"); }}\n')
        pack(out, f'P10_not{SH[T]}', HEAD + INT + bound, hs)
    return out
