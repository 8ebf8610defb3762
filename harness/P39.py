from gen import *

# the example headers are compiled with the stream, formatter and from_chars names redirected to recording stand-ins:
# every character and every element handed to the library is an event with its (symbolic) value
REC = '''#include <iostream>
#include <format>
#include <charconv>
#include <string_view>
#include "vf.h"
namespace vfo
{
	enum { chr = 1, elem = 2, man = 3 };
	struct log
	{
		int n = 0; int kind[224]; unsigned long long val[224]; int ty[224]; int spec[224];
		void put(int k, unsigned long long v, int t, int s) { if (n < 224) { kind[n] = k; val[n] = v; ty[n] = t; spec[n] = s; } ++n; }
		void text(const char *s) { while (*s) put(chr, (unsigned char)*s++, 0, 0); }
	};
	template <class T> constexpr int tid() { return std::is_same_v<T, bool> ? 1 : std::is_same_v<T, float> ? 2 : std::is_same_v<T, double> ? 3 : int(8 + sizeof(T) * 2 + std::is_signed_v<T>); }
	template <class T> unsigned long long bits(T x)
	{
		if constexpr (std::is_same_v<T, float>) return x != x ? 0x7fc00000u : std::bit_cast<unsigned>(x); else if constexpr (std::is_same_v<T, double>) return x != x ? 0x7ff8000000000000ull : std::bit_cast<unsigned long long>(x); else return (unsigned long long)x;
	}
}
namespace std
{
	struct vf_ostream
	{
		vfo::log *l; bool alpha = false;
		vf_ostream &operator<<(const char *s) { l->text(s); return *this; }
		vf_ostream &operator<<(char c) { l->put(vfo::chr, (unsigned char)c, 0, 0); return *this; }
		template <class T> requires (std::is_arithmetic_v<T> && !std::is_same_v<T, char>) vf_ostream &operator<<(T x) { l->put(vfo::elem, vfo::bits(x), vfo::tid<T>(), alpha); return *this; }
		vf_ostream &operator<<(std::ios_base &(*f)(std::ios_base &)) { if (f == static_cast<std::ios_base &(*)(std::ios_base &)>(std::boolalpha)) alpha = true; else if (f == static_cast<std::ios_base &(*)(std::ios_base &)>(std::noboolalpha)) alpha = false; else l->put(vfo::man, 0, 0, 0); return *this; }
	};
	struct vf_out { vfo::log *l; };
	struct vf_context { vfo::log *l; vf_out out() { return {l}; } void advance_to(vf_out o) { l = o.l; } };
	inline vf_out vf_format_to(vf_out o, const char *s) { o.l->text(s); return o; }
	// the standard formatters of the scalar types: the specification given to parse, the value given to format
	template <class T, class CharT> struct vf_formatter
	{
		int spec = -1;
		int parse(int s) { spec = s; return s; }
		vf_out format(const T &x, vf_context &c) const { c.l->put(vfo::elem, vfo::bits(x), vfo::tid<T>(), spec); return c.out(); }
	};
	struct vf_fcr { const char *first, *last; int fmt; };
	template <class T> vf_fcr vf_from_chars(const char *a, const char *b, T &v, std::chars_format f) { v = T(1); return {a, b, int(f)}; }
}
#define ostream vf_ostream
#define formatter vf_formatter
#define format_to vf_format_to
#define from_chars vf_from_chars
#include "examples/ostream_output.hxx"
#include "examples/format_output.hxx"
#undef ostream
#undef formatter
#undef format_to
#undef from_chars
#ifndef __cpp_lib_format
#error "no std::format"
#endif
using namespace vf; using namespace dsga; using llong = long long; using ullong = unsigned long long;
void check_log(const vfo::log &a, const vfo::log &b, const char *m)
{
	vf_assert(a.n == b.n, m);
	if (a.n == b.n) for (int i = 0; i < b.n && i < 224; ++i) { vf_assert(a.kind[i] == b.kind[i], m); vf_assert(a.ty[i] == b.ty[i], m); vf_assert(a.val[i] == b.val[i], m); vf_assert(a.spec[i] == b.spec[i], m); }
}
template <class T, std::size_t N> void expect(vfo::log &l, const std::array<T, N> &e, int spec)
{
	l.text("["); for (std::size_t i = 0; i < N; ++i) { if (i) l.text(", "); l.put(vfo::elem, vfo::bits(e[i]), vfo::tid<T>(), spec); } l.text("]");
}
template <class V, class T, std::size_t N> void stream(const V &v, const std::array<T, N> &e)
{
	vfo::log l, x; std::vf_ostream o{&l}; auto &r = (o << v); expect(x, e, std::is_same_v<T, bool>); check_log(l, x, "stream output lists the components in order"); vf_assert(&r == &o, "stream returned");
	r << v; expect(x, e, std::is_same_v<T, bool>); check_log(l, x, "two values in a row");
}
template <class V, class T, std::size_t N> void fmt(const V &v, const std::array<T, N> &e)
{
	vfo::log l, x; int s = in<int>("spec"); std::vf_formatter<std::remove_cvref_t<V>, char> f; f.parse(s); std::vf_context c{&l};
	auto r = f.format(v, c); expect(x, e, s); check_log(l, x, "format output lists the components in order, each with the specification"); vf_assert(r.l == &l, "output position");
}
template <class M, class T, std::size_t C, std::size_t R> void mats(const M &m, const std::array<std::array<T, R>, C> &a)
{
	vfo::log l, x; std::vf_ostream o{&l}; o << m;
	x.text("["); for (std::size_t c = 0; c < C; ++c) { if (c) x.text(", "); expect(x, a[c], 0); } x.text("]"); check_log(l, x, "stream output lists the columns in order");
	vfo::log l2, x2; int s = in<int>("spec"); std::vf_formatter<std::remove_cvref_t<M>, char> f; f.parse(s); std::vf_context c{&l2}; f.format(m, c);
	x2.text("["); for (std::size_t k = 0; k < C; ++k) { if (k) x2.text(", "); expect(x2, a[k], s); } x2.text("]"); check_log(l2, x2, "format output lists the columns in order");
}
template <class T, std::size_t N> void hexchars()
{
	std::array<unsigned char, N + 1> raw{}; char b[N + 1]; for (std::size_t i = 0; i < N; ++i) b[i] = char(in<uint8_t>("c")); b[N] = 0;
	T v = T(0); auto r = from_format_hexfloat_chars(std::string_view(b, N), v); int skip = N > 0 && (b[0] == '+' || b[0] == ' ');
	vf_assert(r.first == b + skip, "a leading plus or space is skipped"); vf_assert(r.last == b + N, "end"); vf_assert(v == T(1), "value stored"); vf_assert(r.fmt == int(std::chars_format::hex), "hexadecimal");
}
'''


def generate(tier):
    th = tier == 'thorough'
    out = {}
    bound = ('// VF-BOUND: dimensions 1-4, every operand form and storage or view wrappers, every element value, every specification value; matrices 2x2 to 4x4; the library side of '
             'the stream and the scalar formatters is a recording stand-in, so the rendering of one scalar is outside\n')
    hd = REC + bound
    for T in ALL_TYPES if th else ['int', 'double', 'bool', 'float', 'unsigned long long']:
        s = SH[T]
        hs = ''
        for n in range(1, 5):
            for k, f in enumerate(forms(n)):
                if not th and T not in ('int', 'bool') and (k + n) % 3:
                    continue
                hs += f'H({s}{n}{f.key}) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} stream(v, {f.exp(T)}); fmt(v, {f.exp(T)}); }}\n'
            a = f'auto a = arr<{T}, {n}>("a"); '
            hs += f'H({s}{n}sw) {{ {a} storage_wrapper<true, {T}, {n}> v; for (int i = 0; i < {n}; ++i) v[i] = a[i]; stream(v, a); fmt(v, a); }}\n'
            hs += f'H({s}{n}vw) {{ {a} auto b = a; view_wrapper<true, {T}, {n}> v(b.data()); stream(v, a); fmt(v, a); view_wrapper<false, {T}, {n}> w(b.data()); stream(w, a); fmt(w, a); }}\n'
            hs += f'H({s}{n}base) {{ {a} basic_vector<{T}, {n}> v = vec(a); stream(v.as_base(), a); }}\n'.replace('v.as_base()', f'static_cast<const vector_base<true, {T}, {n}, basic_vector<{T}, {n}>> &>(v)')
            hs += f'H({s}{n}arr) {{ {a} fmt(a, a); }}\n'
        out[f'P39_{s}'] = hd + hs
    hs = ''
    for T in ('float', 'double'):
        for c in range(2, 5):
            for r in range(2, 5):
                hs += f'H(mat_{SH[T]}{c}{r}) {{ std::array<std::array<{T}, {r}>, {c}> a; for (auto &q : a) q = arr<{T}, {r}>("a"); basic_matrix<{T}, {c}, {r}> m; set_mat(m, a); mats(m, a); }}\n'
        for n in range(0, 5):
            hs += f'H(hex_{SH[T]}{n}) {{ hexchars<{T}, {n}>(); }}\n'
    out['P39_m'] = hd + hs
    return out
