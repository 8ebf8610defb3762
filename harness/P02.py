from gen import *

CHK = '''
// after the write: named components hold the source, the others are unchanged
template <class V, class T, std::size_t N, std::size_t L>
void written(const V &v, const std::array<T, N> &old, const std::array<std::size_t, L> &w, const std::array<T, L> &e, const char *m)
{
	for (std::size_t i = 0; i < N; ++i)
	{
		T x = old[i];
		for (std::size_t k = 0; k < L; ++k) if (w[k] == i) x = e[k];
		check_same<T>(v[i], x, m);
	}
}
template <class V, class T, std::size_t N, std::size_t L>
void written2(const V &v, const std::array<T, N> &old, const std::array<std::size_t, L> &w, const std::array<T, L> &e, const char *named, const char *others)
{
	for (std::size_t i = 0; i < N; ++i)
	{
		bool in = false;
		for (std::size_t k = 0; k < L; ++k) if (w[k] == i) { in = true; check_same<T>(v[i], e[k], named); }
		if (!in) check_same<T>(v[i], old[i], others);
	}
}
template <class D, class S> constexpr bool assignable = std::is_assignable_v<D, S>;
'''


def conv(T):
    """a type implicitly convertible to T"""
    return {'int': None, 'double': 'float', 'float': 'int', 'bool': None, 'long long': 'int',
            'unsigned long long': 'unsigned', 'unsigned': 'int'}[T]


def generate(tier):
    out = {}
    thorough = tier == 'thorough'
    types = ALL_TYPES if thorough else ['int', 'double']
    for T in types:
        for n in range(1, 5):
            for fl in ('vec', 'view'):
                hs = []
                src0 = HEAD + CHK + f'// VF-BOUND: all repetition-free words over {n} letters ({T}, {fl}); ' \
                                    f'{"all" if thorough else "reversed, rotated, repeated and shifted"} overlapping source words; all element values\n'
                decl = 'auto v = vec(a);' if fl == 'vec' else f'std::array<{T}, {n}> st = a; basic_view<true, {T}, {n}> v(st.data());'
                blocks = []
                for L in range(1, n + 1):
                    for w in uwords(n, L):
                        W = nm(w)
                        idx = f'std::array<std::size_t, {L}>{{{", ".join(map(str, w))}}}'

                        def blk(stmt, e, m):
                            return f'\t{{ {decl} {stmt} written(v, a, {idx}, {e}, "{fl} {W} {m}"); }}\n'
                        # L == 1 vectors carry different overloads: keep both forms
                        b = blk(f'basic_vector<{T}, {L}> s = vec(b{L}); v.{W} = s;', arrlit(T, f'b{L}', range(L)), '= vector')
                        b += blk(f'v.{W}.set({", ".join(f"b{L}[{i}]" for i in range(L))});', arrlit(T, f'b{L}', range(L)), 'set')
                        if fl == 'vec' :
                            b += blk(f'auto o = vec(c); v.{W} = o.{W};', arrlit(T, 'c', w), '= same word of another')
                        b += blk(f'basic_view<false, {T}, {n}> o(c.data()); v.{W} = o.{W};', arrlit(T, 'c', w), '= same word of a view')
                        srcs = {tuple(reversed(w)), w[1:] + w[:1], (w[0],) * L, tuple((x + 1) % n for x in w)}
                        if thorough:
                            srcs = set(uwords(n, L)) | srcs
                        for s in sorted(srcs):
                            if s == w and fl != 'vec':
                                continue
                            b += blk(f'v.{W} = v.{nm(s)};', arrlit(T, 'a', s), f'= own {nm(s)}')
                        alias = f'basic_view<true, {T}, {n}> q(v.data());'
                        s = tuple(reversed(w))
                        b += blk(f'{alias} v.{W} = q.{nm(s)};' if s != w or fl == 'vec' else f'{alias}', arrlit(T, 'a', s), f'= aliasing view {nm(s)}')
                        for i in range(L):
                            e = [f'a[{x}]' for x in w]
                            e[i] = 'b1[0]'
                            b += blk(f'v.{W}[{i}] = b1[0];', f'std::array<{T}, {L}>{{{", ".join(e)}}}', f'[{i}] =')
                        b += blk(f'std::size_t k = 0; for (auto &x : v.{W}) x = b{L}[k++];', arrlit(T, f'b{L}', range(L)), 'range write')
                        if L == 1:
                            b += blk(f'v.{W} = b1[0];' if T != 'bool' else f'v.{W}.set(b1[0]);', arrlit(T, 'b1', (0,)), '= scalar')
                        c = conv(T)
                        if c:
                            b += blk(f'basic_vector<{c}, {L}> s = vec(d{L}); v.{W} = s;',
                                     f'std::array<{T}, {L}>{{{", ".join(f"static_cast<{T}>(d{L}[{i}])" for i in range(L))}}}', '= converted vector')
                        if T == 'bool':      # bool vectors are not implicitly convertible, not even to bool
                            b = ''.join(l for l in b.splitlines(True) if ' = vector' not in l and ' = same' not in l and
                                        '= own' not in l and '= aliasing' not in l)
                        b += f'\tvf_assert((!assignable<decltype((std::as_const(z).{W})), basic_vector<{T}, {L}>>), "const {W} is not assignable");\n'
                        blocks.append(b)
                # repeated letters
                rep = ''
                for L in range(2, 5):
                    for w in words(n, L):
                        if len(set(w)) < L:
                            rep += f'\tvf_assert((!assignable<decltype((z.{nm(w)})), basic_vector<{T}, {L}>>), "{nm(w)} is not assignable");\n'
                            rep += f'\tvf_assert((!std::is_assignable_v<decltype((z.{nm(w)}[0])), {T}>), "{nm(w)}[0] is not assignable");\n'
                            if fl == 'vec':
                                rep += f'\tvf_assert((!assignable<decltype((z.{nm(w)})), decltype((z.{nm(w)}))>), "{nm(w)} is not self-assignable");\n'
                zdecl = f'basic_vector<{T}, {n}> z = vec(a);' if fl == 'vec' else f'basic_view<true, {T}, {n}> z(c.data());'
                pre = f'auto a = arr<{T}, {n}>("a"); auto c = arr<{T}, {n}>("c"); {zdecl}\n' + \
                      ''.join(f'\tauto b{L} = arr<{T}, {L}>("b{L}");' for L in range(1, n + 1))
                if conv(T):
                    pre += ''.join(f'\tauto d{L} = arr<{conv(T)}, {L}>("d{L}");' for L in range(1, n + 1))
                for ci, bl in enumerate(chunks(blocks, 4 if thorough else 16)):
                    hs.append(f'H({SH[T]}{n}_{fl}_{ci}) {{ {pre}\n{"".join(bl)}\n}}\n')
                hs.append(f'H({SH[T]}{n}_{fl}_rep) {{ {pre}\n{rep} check_same<{T}>(z[0], z[0], "");\n}}\n')
                for hi, hh in enumerate(chunks(hs, 2 if not thorough else 6)):
                    out[f'P02_{SH[T]}{n}_{fl}{hi}'] = src0 + ''.join(hh)
        if T == 'bool':
            continue
        # assignment from the same swizzle of a const vector or a temporary (see known_findings.json)
        src = HEAD + CHK
        for n in (2, 4):
            body = ''
            for w in uwords(n, 1) + uwords(n, 2):
                L, W = len(w), nm(w)
                if n == 4 and L == 2 and w not in ((0, 1), (3, 2)):
                    continue
                idx = f'std::array<std::size_t, {L}>{{{", ".join(map(str, w))}}}'
                body += f'H({SH[T]}{n}_const_same_{W}) {{ auto a = arr<{T}, {n}>("a"); auto c = arr<{T}, {n}>("c");\n' \
                        f'\tauto v = vec(a); const auto o = vec(c); v.{W} = o.{W}; written2(v, a, {idx}, {arrlit(T, "c", w)}, "named components of {W} = same word of a const vector", "other components after {W} = same word of a const vector"); }}\n'
                body += f'H({SH[T]}{n}_temp_same_{W}) {{ auto a = arr<{T}, {n}>("a"); auto c = arr<{T}, {n}>("c");\n' \
                        f'\tauto v = vec(a); v.{W} = vec(c).{W}; written2(v, a, {idx}, {arrlit(T, "c", w)}, "named components of {W} = same word of a temporary", "other components after {W} = same word of a temporary"); }}\n'
            src += body
        if T in ('int', 'double'):
            out[f'P02_{SH[T]}_same'] = src
    return out
