from gen import *
from P08 import BIN

U = BIN + CHECK_ALL


def generate(tier):
    out = {}
    th = tier == 'thorough'
    for T in NUM if th else ['int', 'double', 'unsigned', 'float', 'long long']:
        hs = []
        for n in range(1, 5):
            for f in forms(n):
                d = f'auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} '
                pr = f'std::array<decltype(-{one(T)}()), {n}> e; for (int i = 0; i < {n}; ++i) e[i] = -({f.exp(T)})[i]; '
                hs.append(f'\t{{ {d} {pr} res<{n}>(-v, e, "- {T}{n} {f.key}"); res<{n}>(+v, {f.exp(T)}, "+ {T}{n} {f.key}"); '
                          f'auto &cv = v; for (std::size_t i = 0; i < {n}; ++i) check_same<{T}>(cv[i], ({f.exp(T)})[i], "operand unchanged"); }}\n')
                if n > 1:
                    hs.append(f'\t{{ {d} auto r = +v; r[0] = {one(T)}(1); auto &cv = v; check_same<{T}>(cv[0], ({f.exp(T)})[0], "+ returns a new vector"); }}\n')
                if f.writable and f.key != 'dup':
                    for op in ('++', '--'):
                        new = [f'{one(T)}(a[{i}] {op[0]} {one(T)}(1))' for i in f.order]
                        hs.append(f'\t{{ {d} auto &r = {op}v; vf_assert((const void *)&r == (const void *)&v, "{op}v refers to v"); {final(T, f, new, f"prefix {op} {T}{n} {f.key}")} }}\n')
                        hs.append(f'\t{{ {d} auto r = v{op}; check_vec(r, {f.exp(T)}, "{T}{n} {f.key} postfix {op} returns the old values"); {final(T, f, new, f"postfix {op} {T}{n} {f.key}")} }}\n')
                        hs.append(f'\t{{ {d} {op}{op}v; {final(T, f, [f"{one(T)}({one(T)}(a[{i}] {op[0]} {one(T)}(1)) {op[0]} {one(T)}(1))" for i in f.order], f"{op}{op} {T}{n} {f.key}")} }}\n')
        pack(out, f'P11_{SH[T]}', HEAD + U + '// VF-BOUND: every form, dimensions 1-4, all values\n', hs, 16, 3)
    return out
