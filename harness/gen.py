"""helpers for the harness generators"""
import itertools

LET = 'xyzw'
QUICK_TYPES = ['int', 'double']
ALL_TYPES = ['bool', 'int', 'unsigned', 'long long', 'unsigned long long', 'float', 'double']
SH = {'bool': 'b', 'int': 'i', 'unsigned': 'u', 'long long': 'l', 'unsigned long long': 'ul', 'float': 'f', 'double': 'd',
      'unsigned long': 'sz'}


def words(n, length):
    """all words (tuples of indices) over the first n letters"""
    return list(itertools.product(range(n), repeat=length))


def uwords(n, length):
    return list(itertools.permutations(range(n), length))


def nm(w):
    return ''.join(LET[i] for i in w)


def br(name, w):
    return '{' + ', '.join(f'{name}[{i}]' for i in w) + '}'


def arrlit(T, name, w):
    return f'std::array<{T}, {len(w)}>{br(name, w)}'


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


HEAD = '#include "vf.h"\nusing namespace vf;\nusing namespace dsga;\nusing llong = long long; using ullong = unsigned long long;\n'


class Form:
    """one way of holding a vector of logical dimension n: declares `v` (named var) from storage array `a`"""
    def __init__(self, key, m, decl, order, writable, owns):
        self.key, self.m, self._decl, self.order, self.writable, self.owns = key, m, decl, tuple(order), writable, owns

    def decl(self, T, v='v', a='a'):
        """C++ declaring `v` over the values of array `a` (std::array<T, m>)"""
        return self._decl.replace('@T', T).replace('@v', v).replace('@a', a)

    def exp(self, T, a='a'):
        return arrlit(T, a, self.order)


SWZ = {1: (2,), 2: (3, 1), 3: (1, 3, 0), 4: (2, 0, 3, 1)}


def forms(n, which=None):
    rev = SWZ[n]
    m = 4
    dup = {1: (1,), 2: (1, 1), 3: (2, 0, 2), 4: (3, 3, 0, 1)}[n]
    fs = [
        Form('vec', n, f'basic_vector<@T, {n}> @v = vec(@a);', range(n), True, True),
        Form('cvec', n, f'const basic_vector<@T, {n}> @v = vec(@a);', range(n), False, True),
        Form('view', n, f'std::array<@T, {n}> st_@v = @a; basic_view<true, @T, {n}> @v(st_@v.data());', range(n), True, False),
        Form('cview', n, f'std::array<@T, {n}> st_@v = @a; basic_view<false, @T, {n}> @v(st_@v.data());', range(n), False, False),
        Form('vv', n, f'view_vector<@T, {n}> @v(vec(@a));', range(n), True, True),
        Form('swz', m, f'basic_vector<@T, 4> q_@v = vec(@a); auto &@v = q_@v.{nm(rev)};', rev, True, False),
        Form('cswz', m, f'const basic_vector<@T, 4> q_@v = vec(@a); auto &@v = q_@v.{nm(rev)};', rev, False, False),
        Form('dup', m, f'basic_vector<@T, 4> q_@v = vec(@a); auto &@v = q_@v.{nm(dup)};', dup, n == 1, False),
        Form('vswz', m, f'std::array<@T, 4> st_@v = @a; basic_view<true, @T, 4> q_@v(st_@v.data()); auto &@v = q_@v.{nm(rev)};', rev, True, False),
        Form('cvswz', m, f'std::array<@T, 4> st_@v = @a; basic_view<false, @T, 4> q_@v(st_@v.data()); auto &@v = q_@v.{nm(rev)};', rev, False, False),
    ]
    if which:
        fs = [f for f in fs if f.key in which]
    return fs


NUM = ['int', 'unsigned', 'long long', 'unsigned long long', 'float', 'double']
INTS = ['int', 'unsigned', 'long long', 'unsigned long long']


def owner(f, v='v'):
    """name of the object all of whose elements have to be right after a write through `v`"""
    return {'vec': v, 'view': 'st_' + v, 'vv': v, 'swz': 'q_' + v, 'vswz': 'st_' + v, 'dup': 'q_' + v}[f.key]


def final(T, f, e, m, v='v', a='a'):
    """C++ checking all the storage behind `v`: logical elements e, everything else as in array a"""
    ex = [f'{a}[{i}]' for i in range(f.m)]
    for k, i in enumerate(f.order):
        ex[i] = f'static_cast<{T}>({e[k]})'
    return f'check_all<{T}, {f.m}>({owner(f, v)}, {{{", ".join(ex)}}}, "{m}"); '


CHECK_ALL = '''
template <class T, std::size_t M, class O> void check_all(const O &o, const std::array<T, M> &ex, const char *m)
{ for (std::size_t i = 0; i < M; ++i) check_same<T>(o[i], ex[i], m); }
'''


def pack(out, prefix, head, blocks, per=20, per_tu=4):
    """distribute C++ blocks over harness functions and translation units"""
    cs = list(enumerate(chunks(blocks, per)))
    for ti, tu in enumerate(chunks(cs, per_tu)):
        out[f'{prefix}_{ti}'] = head + ''.join('H(%s_%d) {\n%s}\n' % (prefix.split('_', 1)[1], ci, ''.join(c)) for ci, c in tu)


def one(T):
    """single-token spelling, for functional casts"""
    return {'long long': 'llong', 'unsigned long long': 'ullong'}.get(T, T)
