from gen import *

# with assertions: out of range indices abort; without: std::out_of_range
BODY = '''
template <class I> bool bad(I i, std::size_t n) noexcept { if constexpr (std::is_signed_v<I>) { if (i < 0) return true; } return static_cast<unsigned long long>(i) >= n; }
template <class T, std::size_t N, class I, class V> void run(V &v, const std::array<T, N> &a)
{
	(void)v;
}
'''


def generate(tier):
    out = {}
    types = ALL_TYPES if tier == 'thorough' else ['int', 'double']
    itypes = ['int', 'unsigned', 'unsigned long'] + (['long long', 'short', 'signed char', 'unsigned char'] if tier == 'thorough' else ['signed char'])
    for mode in ('assert', 'throw'):
        for T in types:
            src = ('// VF-FLAGS: -DDSGA_DISABLE_ASSERTS\n' if mode == 'throw' else '') + HEAD + BODY + \
                '// VF-BOUND: 1 to 4 indices, each any value of its type; vectors of dimension 1-4, swizzles and views\n'
            for n in range(1, 5):
                for it in itypes:
                    for k in range(1, 5):
                        forms = [('vec', 'auto v = vec(a);', range(n))]
                        if it == 'int':
                            forms.append(('view', f'basic_view<false, {T}, {n}> v(a.data());', range(n)))
                            if n > 1:
                                forms.append(('swz', f'auto q = vec(a); auto &v = q.{nm(range(n - 1, -1, -1))};', list(range(n - 1, -1, -1))))
                        for fl, decl, order in forms:
                            name = f'{SH[T]}{n}_{fl}_{it.replace(" ", "")}_{k}'
                            ins = ' '.join(f'{it} i{j} = in<{it}>("i{j}");' for j in range(k))
                            badx = ' || '.join(f'bad(i{j}, {n})' for j in range(k))
                            call = f'swizzle(v, {", ".join(f"i{j}" for j in range(k))})'
                            el = lambda j: f'e[i{j}]'
                            pre = f'auto a = arr<{T}, {n}>("a"); {decl} {ins} const std::array<{T}, {n}> e{br("a", order)};'
                            if k == 1:
                                chk = f'check_same<{T}>(r, e[i0], "element");'
                            else:
                                chk = f'check_vec(r, std::array<{T}, {k}>{{{", ".join(el(j) for j in range(k))}}}, "elements");'
                            keep = f'for (std::size_t i = 0; i < {n}; ++i) check_same<{T}>(v[i], e[i], "argument unchanged");'
                            if mode == 'assert':
                                src += f'H({name}) {{ {pre} vf_expect_abort({badx}); auto r = {call}; {chk} {keep} }}\n'
                            else:
                                src += f'H(t_{name}) {{ {pre} bool b = {badx}; bool thrown = false; \n' \
                                       f'\ttry {{ auto r = {call}; if (!b) {{ {chk} }} }} catch (const std::out_of_range &) {{ thrown = true; }}\n' \
                                       f'\tvf_assert(thrown == b, "out of range iff std::out_of_range"); {keep} }}\n'
            out[f'P03_{mode}_{SH[T]}'] = src
    return out
