from gen import *
import itertools

AT = ['int', 'double', 'float', 'unsigned', 'long long', 'bool', 'unsigned long long']


def comps(n):
    """argument size sequences that are accepted for n components"""
    out = []
    for k in range(1, n + 1):
        for sz in itertools.product((1, 2, 3, 4, 's'), repeat=k):
            v = [1 if x == 's' else x for x in sz]
            if sum(v[:-1]) < n <= sum(v):
                out.append(sz)
    return out


def generate(tier):
    out = {}
    th = tier == 'thorough'
    types = ALL_TYPES if th else ['int', 'double', 'float', 'bool']
    for T in types:
        for n in range(1, 5):
            head = HEAD + '// VF-BOUND: every sequence of scalar / vector / swizzle argument sizes accepted for dimensions 1-4, all values, source types rotated\n'
            hs = []
            cnt = 0
            cs = comps(n)
            if not th:
                cs = cs if T in ('int', 'double') else cs[::3]
            for sz in cs:
                for variant in range(2 if th else 1):
                    cnt += 1
                    decl, args, exp = '', [], []
                    for i, x in enumerate(sz):
                        U = AT[(cnt + i * 3 + variant * 2 + ALL_TYPES.index(T)) % len(AT)] if len(sz) > 1 or x == 's' else \
                            ({'double': 'float', 'float': 'int', 'int': 'int', 'unsigned': 'int', 'long long': 'int', 'unsigned long long': 'unsigned', 'bool': 'bool'}[T])
                        if x == 's':
                            decl += f'{U} s{i} = in<{U}>("s{i}"); '
                            args.append(f's{i}')
                            exp.append(f's{i}')
                        elif (cnt + i) % 2 == 0:
                            decl += f'auto a{i} = arr<{U}, {x}>("a{i}"); basic_vector<{U}, {x}> v{i} = vec(a{i}); '
                            args.append(f'v{i}')
                            exp += [f'a{i}[{j}]' for j in range(x)]
                        else:
                            w = SWZ[x] if (cnt + i) % 4 == 1 else {1: (1,), 2: (2, 2), 3: (0, 3, 0), 4: (1, 1, 2, 0)}[x]
                            decl += f'auto a{i} = arr<{U}, 4>("a{i}"); basic_vector<{U}, 4> v{i} = vec(a{i}); '
                            args.append(f'v{i}.{nm(w)}')
                            exp += [f'a{i}[{j}]' for j in w]
                    if len(sz) == 1 and sz[0] != 's' and T == 'bool':
                        continue          # no implicit conversion: see the variadic form
                    if sz == ('s',):
                        exp = exp * n
                    e = ', '.join(f'static_cast<{T}>({x})' for x in exp[:n])
                    m = f'{T}{n} from {" ".join(str(x) for x in sz)}'
                    hs.append(f'\t{{ {decl} basic_vector<{T}, {n}> v({", ".join(args)}); check_vec(v, std::array<{T}, {n}>{{{e}}}, "{m}"); }}\n')
                    if cnt % 3 == 0:
                        hs.append(f'\t{{ {decl} view_vector<{T}, {n}> v({", ".join(args)}); check_vec(v, std::array<{T}, {n}>{{{e}}}, "view_vector {m}"); }}\n') \
                            if not (len(sz) == 1 and sz[0] != 's') else None
            # default construction, copies, single views, every form
            for f in forms(n):
                if T != 'bool' or f.key in ('vec', 'cvec'):
                    hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("f"); {f.decl(T)} basic_vector<{T}, {n}> c(v); check_vec(c, {f.exp(T)}, "copy of {f.key}"); '
                              f'basic_vector<{T}, {n}> d{{v}}; check_vec(d, {f.exp(T)}, "copy of {f.key}"); }}\n')
            if T != 'bool':
                for k in range(n, 5):
                    for f in forms(k, ('view', 'cview', 'vv', 'vswz', 'cvswz')):
                        hs.append(f'\t{{ auto a = arr<{T}, {f.m}>("g"); {f.decl(T)} basic_vector<{T}, {n}> c(v); check_vec(c, {arrlit(T, "a", f.order[:n])}, "{n} of {f.key}{k}"); }}\n')
            hs.append(f'\t{{ basic_vector<{T}, {n}> z{{}}; for (int i = 0; i < {n}; ++i) vf_assert(same<{T}>(z[i], {T}(0)), "zero"); view_vector<{T}, {n}> y{{}}; for (int i = 0; i < {n}; ++i) vf_assert(same<{T}>(y[i], {T}(0)), "zero"); }}\n')
            hs.append(f'\t{{ auto a = arr<{T}, {n}>("h"); basic_vector v({", ".join(f"a[{i}]" for i in range(n))}); static_assert(std::same_as<decltype(v), basic_vector<{T}, {n}>>); check_vec(v, a, "deduced");\n'
                      f'\t  view_vector w({", ".join(f"a[{i}]" for i in range(n))}); static_assert(std::same_as<decltype(w), view_vector<{T}, {n}>>); check_vec(w, a, "deduced view_vector");\n'
                      f'\t  view_vector c(w); view_vector d(std::move(c)); check_vec(d, a, "copied view_vector"); d[0] = {T}(1); check_vec(w, a, "copies are independent"); }}\n')
            # matrices
            if T in ('float', 'double', 'int') and n > 1:
                for mt in ('float', 'double'):
                    for C in range(2, 5):
                        for R in range(2, 5):
                            for lead in range(0, n):
                                order = [(k // R, k % R) for k in range(C * R)][:n - lead]
                                if T == 'int' and (C, R) != (2, 3):
                                    continue
                                d = ''.join(f'{T} l{i} = in<{T}>("l{i}"); ' for i in range(lead))
                                ar = ', '.join([f'l{i}' for i in range(lead)] + ['m'])
                                ex = ', '.join([f'l{i}' for i in range(lead)] + [f'static_cast<{T}>(a[{c}][{r}])' for c, r in order])
                                if len(order) < n - lead:
                                    continue
                                hs.append(f'\t{{ {d} std::array<std::array<{mt}, {R}>, {C}> a; for (auto &c : a) c = arr<{mt}, {R}>("m"); basic_matrix<{mt}, {C}, {R}> m; set_mat(m, a); '
                                          f'basic_vector<{T}, {n}> v({ar}); check_vec(v, std::array<{T}, {n}>{{{ex}}}, "matrix {C}x{R} after {lead}"); }}\n')
            for ci, c in enumerate(chunks(hs, 24)):
                head += f'H({SH[T]}{n}_{ci}) {{\n{"".join(c)}}}\n'
                if ci % 4 == 3:
                    out[f'P06_{SH[T]}{n}_{ci}'] = head
                    head = HEAD
            out[f'P06_{SH[T]}{n}_z'] = head
    return out
