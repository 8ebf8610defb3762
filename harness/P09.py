from gen import *

C = CHECK_ALL + '''
template <class T, class U> constexpr bool div_ok(std::initializer_list<U> l) { using C = std::common_type_t<T, U>; for (auto x : l) { if (C(x) == 0) return false; if constexpr (std::is_signed_v<C>) if (C(x) == C(-1)) return false; } return true; }
template <class T, class U> constexpr bool sh_ok(std::initializer_list<U> l) { for (auto x : l) if (x < U(0) || static_cast<uint64_t>(x) >= 8 * sizeof(T)) return false; return true; }
'''
FOPS = ['+', '-', '*', '/']
IOPS = ['%', '<<', '>>', '&', '|', '^']
FP = ('float', 'double')


def guard(op, T, U, bs):
    l = '{' + ', '.join(f'{one(U)}({b})' for b in bs) + '}'
    if op in ('/', '%') and T not in FP:
        return f'if (div_ok<{T}, {U}>({l})) '
    if op in ('<<', '>>'):
        return f'if (sh_ok<{T}, {U}>({l})) '
    return ''


def val(op, T, U, x, y):
    if op in ('<<', '>>'):
        return f'({x} {op} {y})'
    return f'(static_cast<std::common_type_t<{T}, {U}>>({x}) {op} static_cast<std::common_type_t<{T}, {U}>>({y}))'


def blk(T, U, f, op, pre, rhs, bs, m):
    """one compound assignment: bs = C++ of the right-hand values before the call, per component"""
    n = len(f.order)
    e = [val(op, T, U, f'a[{i}]', b) for i, b in zip(f.order, bs)]
    return f'\t{{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} {pre} {guard(op, T, U, bs)}{{ auto &r = (v {op}= {rhs}); vf_assert((const void *)&r == (const void *)&v, "{op}= refers to the left side"); ' \
           f'{final(T, f, e, f"{T}{n} {f.key} {op}= {m}")} }} }}\n'


def generate(tier):
    out = {}
    th = tier == 'thorough'
    cases = [('int', 'int'), ('double', 'double'), ('float', 'int'), ('long long', 'unsigned'), ('unsigned', 'int')]
    if th:
        cases += [(t, u) for t, u in [('double', 'float'), ('double', 'int'), ('float', 'float'), ('unsigned long long', 'int'),
                                      ('unsigned long long', 'unsigned long long'), ('long long', 'long long'), ('unsigned', 'unsigned'), ('float', 'long long')]]
    bound = '// VF-BOUND: every compound operator; left: every writable form; right: every form, scalar, 1-D, every word over the target, aliasing and shifted views; dimensions 1-4; all values in the domain of the built-in operator\n'
    for ti, (T, U) in enumerate(cases):
        for n in range(1, 5):
            hs = []
            ops = FOPS + ([o for o in IOPS if o not in '&|^' or SH[T] and {'int': 4, 'unsigned': 4}.get(T, 8) == {'int': 4, 'unsigned': 4}.get(U, 8)] if T not in FP and U not in FP else [])
            fs = [f for f in forms(n, ('vec', 'view', 'vv', 'swz', 'vswz'))]
            k = ti + n
            for f in fs:
                for s in forms(n):
                    for op in ops:
                        k += 1
                        if th and ti < 3 or k % (6 if len(ops) > 4 else 3) == 0:
                            hs.append(blk(T, U, f, op, f'auto b = arr<{U}, {s.m}>("b"); {s.decl(U, "w", "b")} ', 'w', [f'b[{i}]' for i in s.order], f'{U} {s.key}'))
                for op in ops:
                    k += 1
                    if th or k % 2:
                        hs.append(blk(T, U, f, op, f'{U} x = in<{U}>("x");', 'x', ['x'] * n, f'scalar {U}'))
                    if n > 1:
                        g = forms(1)[k % 10]
                        hs.append(blk(T, U, f, op, f'auto b = arr<{U}, {g.m}>("b"); {g.decl(U, "w", "b")} ', 'w', [f'b[{g.order[0]}]'] * n, f'1-D {U} {g.key}'))
                # shared storage
                if T == U:
                    own = {'swz': 'q_v', 'vswz': 'q_v'}.get(f.key, 'v')
                    m = 4 if f.key in ('swz', 'vswz') else n
                    ws = words(m, n)
                    for wi, w in enumerate(ws):
                        op = ops[(wi + k) % len(ops)]
                        if th or n < 3 or wi % (3 if n == 3 else 11) == (k % 3):
                            hs.append(blk(T, T, f, op, '', f'{own}.{nm(w)}', [f'a[{i}]' for i in w], 'own ' + nm(w)))
                        if (th or wi % 5 == k % 5) and f.key in ('vec', 'view', 'vv'):
                            hs.append(blk(T, T, f, op, f'basic_view<true, {T}, {n}> z(v.data()); ', f'z.{nm(w)}', [f'a[{i}]' for i in w], 'aliasing ' + nm(w)))
                    for op in ops:
                        hs.append(blk(T, T, f, op, '', 'v', [f'a[{i}]' for i in f.order], 'itself'))
                        for c in range(m):
                            k += 1
                            if n > 1 and (th or k % 2 == 0):
                                hs.append(blk(T, T, f, op, '', f'{own}.{nm((c,))}', [f'a[{c}]'] * n, 'own component ' + nm((c,))))
                                hs.append(blk(T, T, f, op, '', f'{own}[{c}]', [f'a[{c}]'] * n, f'own element {c}'))
                    if f.key == 'view' and n > 1:
                        for d in (0, 1):
                            op = ops[(k + d) % len(ops)]
                            ex = [f'a[{i}]' for i in range(n + 1)]
                            bs = [f'a[{i + 1 - d}]' for i in range(n)]
                            for i in range(n):
                                ex[i + d] = val(op, T, T, f'a[{i + d}]', bs[i])
                            hs.append(f'\t{{ auto a = arr<{T}, {n + 1}>("a"); auto st = a; basic_view<true, {T}, {n}> v(st.data() + {d}); basic_view<false, {T}, {n}> w(st.data() + {1 - d}); '
                                      f'{guard(op, T, T, bs)}{{ v {op}= w; check_all<{T}, {n + 1}>(st, {{{", ".join(f"static_cast<{T}>({x})" for x in ex)}}}, "view {op}= shifted view"); }} }}\n')
            pack(out, f'P09_{SH[T]}{SH[U]}{n}', HEAD + C + bound, hs, 16, 4)
    return out
