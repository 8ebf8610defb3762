from gen import *

CHK = '''
// every way of reading a swizzle
template <class S, class T, std::size_t L> void reads(const S &s, const std::array<T, L> &e, const char *m)
{
	static_assert(std::tuple_size_v<S> == L); static_assert(S::size() == L);
	vf_assert(s.length() == static_cast<int>(L), m);
	check_vec(s, e, m);
	basic_vector<T, L> v = s;
	check_vec(v, e, m);
	std::size_t k = 0;
	for (auto x : s) { vf_assert(k < L, m); check_same<T>(x, e[k], m); ++k; }
	vf_assert(k == L, m);
	if constexpr (L == 1) { T one = s; check_same<T>(one, e[0], m); }
}
'''
# VF-BOUND directives go into the generated source


def generate(tier):
    out = {}
    types = ['int', 'double'] if tier == 'quick' else ALL_TYPES
    for T in types:
        for n in range(1, 5):
            head = HEAD + CHK + f'// VF-BOUND: all {sum(n ** k for k in range(1, 5))} words of length 1-4 over {n} letters; all element values ({T})\n'
            flavours = [('vec', f'auto v = vec(a);'), ('cvec', f'const auto v = vec(a);'),
                        ('view', f'basic_view<true, {T}, {n}> v(a.data());'),
                        ('cview', f'basic_view<false, {T}, {n}> v(a.data());'),
                        ('vv', f'view_vector<{T}, {n}> v(vec(a));')]
            allw = [w for k in range(1, 5) for w in words(n, k)]
            for fl, decl in flavours:
                src = head
                for ci, ws in enumerate(chunks(allw, 90)):
                    body = '\n'.join(f'\treads(v.{nm(w)}, {arrlit(T, "a", w)}, "{fl} {nm(w)}");' for w in ws)
                    src += f'H({SH[T]}{n}_{fl}_{ci}) {{ auto a = arr<{T}, {n}>("a"); {decl}\n{body}\n' \
                           f'\tfor (std::size_t i = 0; i < {n}; ++i) check_same<{T}>(v[i], a[i], "{fl} unchanged"); }}\n'
                out[f'P01_{SH[T]}{n}_{fl}'] = src
    return out
