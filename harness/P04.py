from gen import *

CHK = '''
template <class I> bool bad(I i, std::size_t n) noexcept { if constexpr (std::is_signed_v<I>) { if (i < 0) return true; } return static_cast<unsigned long long>(i) >= n; }
template <class V, std::size_t... Is> constexpr auto seqarr(std::index_sequence<Is...>) { return std::array<std::size_t, sizeof...(Is)>{Is...}; }

// all read paths denote the same element
template <class T, std::size_t N, class V> void readpaths(V &v, const std::array<T, N> &e, const char *m)
{
	const auto &cv = v;
	static_assert(std::tuple_size_v<std::remove_const_t<V>> == N);
	static_assert(std::same_as<std::tuple_element_t<0, std::remove_const_t<V>>, T>);
	vf_assert(v.length() == static_cast<int>(N) && v.size() == N, m);
	constexpr auto sq = seqarr<V>(V::sequence());
	static_assert(sq.size() == N);
	for (std::size_t i = 0; i < N; ++i)
	{
		check_same<T>(v[i], e[i], m);
		check_same<T>(cv[i], e[i], m);
		check_same<T>(v.data()[sq[i]], e[i], m);
		check_same<T>(cv.data()[sq[i]], e[i], m);
		check_same<T>(cv.as_base()[i], e[i], m);
		check_same<T>(*(v.begin() + static_cast<std::ptrdiff_t>(i)), e[i], m);
		check_same<T>(*(cv.begin() + static_cast<std::ptrdiff_t>(i)), e[i], m);
		check_same<T>(*(v.cbegin() + static_cast<std::ptrdiff_t>(i)), e[i], m);
		check_same<T>(*(v.rbegin() + static_cast<std::ptrdiff_t>(N - 1 - i)), e[i], m);
		check_same<T>(*(v.crbegin() + static_cast<std::ptrdiff_t>(N - 1 - i)), e[i], m);
	}
	[&]<std::size_t... Is>(std::index_sequence<Is...>) {
		(check_same<T>(get<static_cast<int>(Is)>(v), e[Is], m), ...);
		(check_same<T>(get<static_cast<int>(Is)>(cv), e[Is], m), ...);
	}(std::make_index_sequence<N>{});
	if constexpr (N == 1) { auto &[x] = cv; check_same<T>(x, e[0], m); }
	if constexpr (N == 2) { auto &[x, y] = cv; check_same<T>(x, e[0], m); check_same<T>(y, e[1], m); }
	if constexpr (N == 3) { auto &[x, y, z] = cv; check_same<T>(x, e[0], m); check_same<T>(y, e[1], m); check_same<T>(z, e[2], m); }
	if constexpr (N == 4) { auto &[x, y, z, w] = cv; check_same<T>(x, e[0], m); check_same<T>(y, e[1], m); check_same<T>(z, e[2], m); check_same<T>(w, e[3], m); }
}

// write element k through each path, everything else stays
template <class T, std::size_t N, class V> void writepaths(V &v, std::array<T, N> e, T x, const char *m)
{
	constexpr auto sq = seqarr<V>(V::sequence());
	auto all = [&] { for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], e[i], m); };
	for (std::size_t k = 0; k < N; ++k)
	{
		auto old = e[k];
		v[k] = x; e[k] = x; all();
		v.data()[sq[k]] = old; e[k] = old; all();
		*(v.begin() + static_cast<std::ptrdiff_t>(k)) = x; e[k] = x; all();
		*(v.rbegin() + static_cast<std::ptrdiff_t>(N - 1 - k)) = old; e[k] = old; all();
		v.as_base()[k] = x; e[k] = x; all();
	}
	[&]<std::size_t... Is>(std::index_sequence<Is...>) {
		((get<static_cast<int>(Is)>(v) = e[N - 1 - Is]), ...);
	}(std::make_index_sequence<N>{});
	for (std::size_t i = 0; i < N; ++i) check_same<T>(v[i], e[N - 1 - i], m);
}
'''


def generate(tier):
    out = {}
    types = ALL_TYPES if tier == 'thorough' else ['int', 'double']
    ity = ['int', 'unsigned', 'unsigned long', 'signed char', 'unsigned char', 'long long', 'short']
    for T in types:
        for n in range(1, 5):
            src = HEAD + CHK + '// VF-BOUND: every index value of 7 integral index types; dimensions 1-4; vectors, views, swizzles\n'
            for f in forms(n):
                src += f'H({SH[T]}{n}_{f.key}_read) {{ auto a = arr<{T}, {f.m}>("a"); {f.decl(T)} readpaths<{T}, {n}>(v, {f.exp(T)}, "{f.key} read paths agree"); }}\n'
                if f.writable:
                    src += f'H({SH[T]}{n}_{f.key}_write) {{ auto a = arr<{T}, {f.m}>("a"); {T} x = in<{T}>("x"); {f.decl(T)} writepaths<{T}, {n}>(v, {f.exp(T)}, x, "{f.key} write paths agree"); }}\n'
                for it in (ity if f.key in ('vec', 'view', 'swz', 'vswz') and T == 'int' else ['int']):
                    pre = f'auto a = arr<{T}, {f.m}>("a"); {it} i = in<{it}>("i"); const auto e = {f.exp(T)}; {f.decl(T)} vf_expect_abort(bad(i, {n}));'
                    src += f'H({SH[T]}{n}_{f.key}_ix_{it.replace(" ", "")}) {{ {pre} {T} r = std::as_const(v)[i]; check_same<{T}>(r, e[i], "{f.key} indexed read"); }}\n'
                    if f.writable:
                        src += f'H({SH[T]}{n}_{f.key}_ixw_{it.replace(" ", "")}) {{ {pre} {T} x = in<{T}>("x"); v[i] = x; ' \
                               f'for (std::size_t k = 0; k < {n}; ++k) check_same<{T}>(v[k], k == static_cast<std::size_t>(i) ? x : e[k], "{f.key} indexed write"); }}\n'
            # structured bindings to a mutable vector write through
            names = ', '.join(LET[:n])
            src += f'H({SH[T]}{n}_sb) {{ auto a = arr<{T}, {n}>("a"); auto b = arr<{T}, {n}>("b"); auto v = vec(a); auto &[{names}] = v; ' + \
                   ' '.join(f'{LET[i]} = b[{i}];' for i in range(n)) + f' check_vec(v, b, "structured binding writes"); ' \
                   f'auto [{", ".join("c" + LET[i] for i in range(n))}] = v; ' + \
                   ' '.join(f'check_same<{T}>(c{LET[i]}, b[{i}], "structured binding copy");' for i in range(n)) + ' }\n'
            # null views abort on access
            src += f'H({SH[T]}{n}_nullview) {{ int k = in<int>("k"); vf_assume(k >= 0 && k < {n}); basic_view<true, {T}, {n}> v; vf_expect_abort(true); {T} x = v[k]; vf_expect_end("null view"); (void)x; }}\n'
            out[f'P04_{SH[T]}{n}'] = src
    return out
