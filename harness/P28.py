from gen import *
from P25 import C as C25
import itertools


def sign(p):
    return -1 if sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 else 1


def det(idx_c, idx_r, name='a'):
    """Leibniz expansion over the given columns and rows"""
    t = []
    n = len(idx_c)
    for p in itertools.permutations(range(n)):
        t.append((' + ' if sign(p) > 0 else ' - ') + ' * '.join(f'{name}[{idx_c[k]}][{idx_r[p[k]]}]' for k in range(n)))
    return '(T(0)' + ''.join(t) + ')'


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = '// VF-BOUND: 2x2, 3x3 and 4x4, float and double; identities over the reals (equal up to rounding), all entries; inverse compared entrywise with adjugate/determinant under determinant != 0\n'
    for T in ('float', 'double'):
        for n in range(2, 5):
            al = list(range(n))
            hs = f'H(det_{SH[T]}{n}) {{ using T = {T}; auto a = marr<{T}, {n}, {n}>("a"); const auto m = mat<{T}, {n}, {n}>(a); auto d = determinant(m); vf_assert(std::is_same_v<decltype(d), {T}>, "type"); near<{T}>(d, {det(al, al)}, "determinant"); each<{T}, {n}, {n}>(m, [&](int c, int r) {{ return a[c][r]; }}, "operand unchanged"); }}\n'
            # adj[c][r] = cofactor of element [r][c]
            for c in range(n):
                for r in range(n):
                    rest_c = [k for k in al if k != r]
                    rest_r = [k for k in al if k != c]
                    sg = '' if (c + r) % 2 == 0 else '-'
                    hs += (f'H(inv_{SH[T]}{n}{c}{r}) {{ using T = {T}; auto a = marr<{T}, {n}, {n}>("a"); const auto m = mat<{T}, {n}, {n}>(a); auto i = inverse(m); vf_assert(std::is_same_v<decltype(i), basic_matrix<{T}, {n}, {n}>>, "type"); '
                           f'near<{T}>(i[{c}][{r}], {sg}{det(rest_c, rest_r)} / {det(al, al)}, "inverse entry"); }}\n')
            hs += f'H(self_{SH[T]}{n}) {{ auto a = marr<{T}, {n}, {n}>("a"); const auto m = mat<{T}, {n}, {n}>(a); auto k = inverse(m); auto l = m; l = inverse(l); for (int c = 0; c < {n}; ++c) for (int r = 0; r < {n}; ++r) check_same<{T}>(l[c][r], k[c][r], "m = inverse(m)"); each<{T}, {n}, {n}>(m, [&](int c, int r) {{ return a[c][r]; }}, "operand unchanged"); }}\n'
            out[f'P28_{SH[T]}{n}'] = HEAD + C25 + bound + hs
    return out
