from gen import *
import itertools

SRC = {'double': ['double', 'float', 'int'], 'int': ['int'], 'float': ['float', 'int'], 'unsigned': ['unsigned', 'int'],
       'long long': ['long long', 'int'], 'unsigned long long': ['unsigned long long', 'long long'], 'bool': ['bool']}


def dst_forms(n):
    return forms(n, ('vec', 'view', 'vv', 'swz', 'vswz'))


def owner(f):
    """name of the object all of whose elements must be right afterwards"""
    return {'vec': 'v', 'view': 'st_v', 'vv': 'v', 'swz': 'q_v', 'vswz': 'st_v'}[f.key]


def generate(tier):
    out = {}
    th = tier == 'thorough'
    types = ALL_TYPES if th else ['int', 'double', 'bool']
    for T in types:
        for n in range(1, 5):
            hs = []

            def final(f, e, m):
                """all the storage behind `v`: logical elements e, the rest as before"""
                ex = [f'a[{i}]' for i in range(f.m)]
                for k, i in enumerate(f.order):
                    ex[i] = f'static_cast<{T}>({e[k]})'
                return f'for (std::size_t i = 0; i < {f.m}; ++i) {{ std::array<{T}, {f.m}> ex{{{", ".join(ex)}}}; check_same<{T}>({owner(f)}[i], ex[i], "{T}{n} {m}"); }} '

            for f in dst_forms(n):
                bind = '' if f.key == 'vec' else ''
                head = f'auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} '
                if T != 'bool':
                    for U in SRC[T] if f.key in ('vec', 'vv') or th else SRC[T][:1]:
                        for s in forms(n):
                            if not th and f.key in ('vswz',) and s.key in ('cswz', 'cvswz', 'cview', 'cvec'):
                                continue
                            if U == T and f.key == 'swz' and s.key == 'cswz':
                                continue      # the known finding KF01, decided under P02
                            if U == T and ((f.key == 'view' and s.key in ('view', 'vv')) or (f.key == 'vswz' and s.key == 'vswz')):
                                continue      # same-type view assignment is deleted
                            hs.append(f'\t{{ {head} auto b = arr<{U}, {s.m}>("b"); {s.decl(U, "w", "b")} auto &r = (v = w); vf_assert((const void *)&r == (const void *)&v, "reference to the target"); '
                                      f'{final(f, [f"b[{i}]" for i in s.order], f.key + " = " + s.key)} '
                                      f'for (std::size_t i = 0; i < {n}; ++i) check_same<{U}>(w[i], ({s.exp(U, "b")})[i], "source unchanged"); }}\n')
                    if n == 1 and f.key != 'vv':
                        hs.append(f'\t{{ {head} auto x = in<{T}>("x"); v = x; {final(f, ["x"], f.key + " = scalar")} }}\n')
                elif f.key == 'vec':
                    for s in ('vec', 'cvec'):
                        s = forms(n, (s,))[0]
                        hs.append(f'\t{{ {head} auto b = arr<bool, {n}>("b"); {s.decl("bool", "w", "b")} v = w; {final(f, [f"b[{i}]" for i in range(n)], "vec = " + s.key)} }}\n')
                elif f.key == 'vv':
                    hs.append(f'\t{{ {head} auto b = arr<bool, {n}>("b"); view_vector<bool, {n}> w(vec(b)); v = w; {final(f, [f"b[{i}]" for i in range(n)], "vv = vv")} w[0] = !b[0]; {final(f, [f"b[{i}]" for i in range(n)], "vv independent of vv")} }}\n')
                # set, with several argument types; generic set through the base
                hs.append(f'\t{{ {head} auto b = arr<{T}, {n}>("b"); v.set({", ".join(f"b[{i}]" for i in range(n))}); {final(f, [f"b[{i}]" for i in range(n)], f.key + ".set")} }}\n')
                # set with own components
                ord_ = list(reversed(range(n)))
                hs.append(f'\t{{ {head} v.set({", ".join(f"v[{i}]" for i in ord_)}); {final(f, [f"a[{f.order[i]}]" for i in ord_], f.key + ".set own components")} }}\n')
                U = 'float' if T in ('double',) else 'int' if T != 'int' else 'bool'
                hs.append(f'\t{{ {head} auto b = arr<{U}, {n}>("b"); v.set({", ".join(f"b[{i}]" for i in range(n))}); {final(f, [f"b[{i}]" for i in range(n)], f.key + ".set converted")} }}\n')
                # overlapping sources: any word over the storage, as swizzle and as aliasing view, and shifted views
                if T != 'bool':
                    if f.key in ('vec', 'view', 'vv'):
                        ws = [w for w in words(n, n)] if (th or n < 4) else [w for i, w in enumerate(words(4, 4)) if len(set(w)) == 4 or i % 7 == 0]
                        for w in ws:
                            hs.append(f'\t{{ {head} v = v.{nm(w)}; {final(f, [f"a[{i}]" for i in w], f.key + " = own " + nm(w))} }}\n')
                            if w != tuple(range(n)):
                                hs.append(f'\t{{ {head} basic_view<true, {T}, {n}> q(v.data()); v = q.{nm(w)}; {final(f, [f"a[{i}]" for i in w], f.key + " = aliasing " + nm(w))} }}\n')
                        for s in ('v', 'q'):
                            hs.append(f'\t{{ {head} basic_view<true, {T}, {n}> q(v.data()); auto &r = v; {"v = r" if s == "v" and f.key != "view" else "v = std::as_const(q).{}".format(nm(range(n)))}; {final(f, [f"a[{i}]" for i in range(n)], f.key + " = itself")} }}\n')
                    if f.key == 'view':
                        for m in range(n, n + 4):
                            for d in range(0, m - n + 1):
                                for so in range(0, m - n + 1):
                                    if m > n + 3 or (not th and (m > n + 2)):
                                        continue
                                    ex = [f'a[{i}]' for i in range(m)]
                                    for k in range(n):
                                        ex[d + k] = f'a[{so + k}]'
                                    for cs in ('true', 'false'):
                                        if cs == 'true':
                                            continue   # same type: deleted
                                        hs.append(f'\t{{ auto a = arr<{T}, {m}>("a"); auto st = a; basic_view<true, {T}, {n}> d(st.data() + {d}); basic_view<{cs}, {T}, {n}> s(st.data() + {so}); d = s; '
                                                  f'std::array<{T}, {m}> ex{{{", ".join(ex)}}}; for (std::size_t i = 0; i < {m}; ++i) check_same<{T}>(st[i], ex[i], "view at {d} = overlapping view at {so}"); }}\n')
                if f.key in ('view', 'vswz'):
                    # assigning through a temporary view
                    if T != 'bool':
                        tmp = f'basic_view<true, {T}, {n}>(st_v.data())' if f.key == 'view' else f'basic_view<true, {T}, 4>(st_v.data()).{nm(f.order)}'
                        hs.append(f'\t{{ {head} auto b = arr<{T}, {n}>("b"); basic_vector<{T}, {n}> w = vec(b); {tmp} = w; {final(f, [f"b[{i}]" for i in range(n)], f.key + " temporary = vec")} }}\n')
                        if n == 1:
                            hs.append(f'\t{{ {head} auto x = in<{T}>("x"); {tmp} = x; {final(f, ["x"], f.key + " temporary = scalar")} }}\n')
            head = HEAD + '// VF-BOUND: every writable form assigned from every form, every word over the target itself, aliasing views at offsets 0-3; dimensions 1-4; all values (a swizzle assigned from the same-named swizzle of a const vector is decided under P02)\n' \
                          '// VF-ASSUME: a view_vector still views its own storage (it was not re-seated with reset)\n'
            cs = chunks(hs, 20)
            for ti, tu in enumerate(chunks(list(enumerate(cs)), 4)):
                out[f'P07_{SH[T]}{n}_{ti}'] = head + ''.join(f'H({SH[T]}{n}_{ci}) {{\n{"".join(c)}}}\n' for ci, c in tu)
    return out
