// Histories of DenseMatrix / FixedMatrix operations (C04).
#include "mat.h"
TRACE_MAIN_GLOBALS

template<class M> struct H {
	typedef typename M::value_type T;
	static T val(Rng& g) { return toT<T>(rnum<T>(g, 4)); }
	template<class It> static std::string ent(const It& it) { const It& c = it; return "[" + js((unsigned long)it.row()) + "," + js((unsigned long)it.column()) + "," + js(num(*c)) + "]"; }
	template<class It> static std::string ret(const It& it) { return it.isValid() ? ent(it) : std::string("[]"); }
	template<class It> static std::string walk(It it, It end, size_t limit, bool post = false) {
		std::string s = "["; size_t n = 0;
		for (; it != end;) {
			if (n) s += ",";
			if (n > limit) { s += "[-1]"; break; }
			if (!it.isValid()) { s += "[-2]"; break; }
			s += ent(it); ++n;
			if (post) { auto old = it++; if (!(old != it)) { s += ",[-3]"; break; } } else ++it;
		}
		return s + "]";
	}
	static void obs(int o, const M& m) {
		const size_t R = m.rows(), C = m.columns();
		NM lat(R, NV(C)), hv(R, NV(C));
		std::vector<std::vector<bool> > h(R, std::vector<bool>(C)), h2(R, std::vector<bool>(C));
		anyOrder(R * C, [&](size_t k) {
			const Index i = k / C, j = k % C; T v = (T)77;
			lat[i][j] = num(m.linear_at(k)); h[i][j] = m.has(i, j); h2[i][j] = m.has(i, j, v); hv[i][j] = num(v);
		});
		Ev("obs").f("o", o).f("r", R).f("c", C).f("size", m.size()).f("at", cont(m)).f("lat", lat).f("hasv", hv).f("has", h).f("has2", h2).f("empty", m.empty()).f("hz", m.has_zero()).out();
	}
	static void iter(int o, M& m) {
		const M& c = m; const size_t lim = m.size();
		Ev e("iter"); e.f("o", o);
		{ typename M::iterator b = m.begin(), n = m.end(); e.raw("std", walk(b, n, lim)).raw("post", walk(b, n, lim, true)); }
		{ typename M::iterator b = c.begin(), n = c.end(); e.raw("cstd", walk(b, n, lim)); }
		{ typename M::iterator b = m.cbegin(), n = m.cend(); e.raw("cbeg", walk(b, n, lim)); }
		std::string r[6];
		for (Index i = 0; i < m.rows(); ++i) {
			{ typename M::row_iterator b = m.row_begin(i), n = m.row_end(i); r[0] += (i ? "," : "") + walk(b, n, lim, i % 2); }
			{ typename M::row_iterator b = c.row_begin(i), n = c.row_end(i); r[1] += (i ? "," : "") + walk(b, n, lim); }
			{ typename M::row_iterator b = m.row_cbegin(i), n = m.row_cend(i); r[2] += (i ? "," : "") + walk(b, n, lim); }
		}
		for (Index j = 0; j < m.columns(); ++j) {
			{ typename M::column_iterator b = m.column_begin(j), n = m.column_end(j); r[3] += (j ? "," : "") + walk(b, n, lim, j % 2); }
			{ typename M::column_iterator b = c.column_begin(j), n = c.column_end(j); r[4] += (j ? "," : "") + walk(b, n, lim); }
			{ typename M::column_iterator b = m.column_cbegin(j), n = m.column_cend(j); r[5] += (j ? "," : "") + walk(b, n, lim); }
		}
		e.raw("rows", "[" + r[0] + "]").raw("crows", "[" + r[1] + "]").raw("cbrows", "[" + r[2] + "]");
		e.raw("cols", "[" + r[3] + "]").raw("ccols", "[" + r[4] + "]").raw("cbcols", "[" + r[5] + "]").out();
	}
	static void peek(int o, const M& m) { Ev("peek").f("o", o).f("r", m.rows()).f("c", m.columns()).f("at", cont(m)).out(); }
	typedef M* P;
	template<class F> static void bin(const char* k, int d, int a, int b, F f) { std::string x = guarded(f); Ev("bin").f("k", k).f("d", d).f("a", a).f("b", b).f("exc", x).out(); }

	// fresh: gives a new matrix (dense: of a random shape)
	static void history(Rng& g, size_t R, size_t C, int ops, bool dyn, std::function<M*(size_t, size_t)> fresh, std::function<M*(Rng&, int)> initList) {
		Ev("reset").out();
		P reg[6] = {0, 0, 0, 0, 0, 0};
		for (int o = 1; o <= 2; ++o) { reg[o] = fresh(R, C); Ev("new").f("o", o).f("r", R).f("c", C).out(); }
		for (int t = 0; t < ops; ++t) {
			int o = g.in(1, 4); while (!reg[o]) o = g.in(1, 4);
			int o2 = g.in(1, 4); while (!reg[o2]) o2 = g.in(1, 4);
			int d = g.in(1, 4);
			M& m = *reg[o]; const int r = (int)m.rows(), c = (int)m.columns(), i = g.below(r), j = g.below(c);
			T v = g.coin(1, 5) ? (T)0 : val(g);
			switch (g.below(18)) {
			case 0: case 1: case 2: m.set(i, j, v); Ev("set").f("o", o).f("i", i).f("j", j).f("v", num(v)).out(); break;
			case 3: m.linear_set(i * c + j, v); Ev("lset").f("o", o).f("k", i * c + j).f("v", num(v)).out(); break;
			case 4: { int how = g.below(3);
				if (how == 0) { auto it = m.begin(); while (it.row() != (Index)i || it.column() != (Index)j) ++it; *it = v; }
				else if (how == 1) { auto it = m.row_begin(i); while (it.column() != (Index)j) ++it; *it = v; }
				else { auto it = m.column_begin(j); while (it.row() != (Index)i) ++it; *it = v; }
				Ev("set").f("o", o).f("i", i).f("j", j).f("v", num(v)).out(); break; }
			case 5: { auto it = m.begin(); for (int k = 0; k < i * c + j; ++k) ++it;
				if (g.coin()) { auto x = m.set(it, v); Ev("setit").f("o", o).f("i", i).f("j", j).f("v", num(v)).raw("ret", ret(x)).out(); }
				else { auto x = m.erase(it); Ev("setit").f("o", o).f("i", i).f("j", j).raw("v", "[0,0,1]").raw("ret", ret(x)).out(); } break; }
			case 6: { auto x = g.coin() ? m.erase(m.end()) : m.set(m.end(), (T)3); Ev("endop").f("o", o).raw("ret", ret(x)).out(); break; }
			case 7: if (reg[d] && g.coin()) *reg[d] = *reg[o]; else if (d != o) { delete reg[d]; reg[d] = new M(*reg[o]); } else { M& a = *reg[o]; *reg[o] = a; } Ev("copy").f("d", d).f("s", o).out(); break;
			case 8: if (d == o) break; if (reg[d] && g.coin()) *reg[d] = std::move(*reg[o]); else { delete reg[d]; reg[d] = new M(std::move(*reg[o])); } delete reg[o]; reg[o] = 0; Ev("move").f("d", d).f("s", o).out(); break;
			case 9: reg[o]->swap(*reg[o2]); Ev("swap").f("a", o).f("b", o2).out(); break;
			case 10: { delete reg[d]; size_t rr = dyn ? g.in(1, 4) : R, cc = dyn ? g.in(1, 4) : C; if (dyn && g.coin()) { rr = R; cc = C; } reg[d] = fresh(rr, cc); Ev("new").f("o", d).f("r", rr).f("c", cc).out(); break; }
			case 11: delete reg[d]; reg[d] = initList(g, d); break;
			case 12: { int k = g.below(linearOnly() ? 2 : 3); static const char* nm[] = {"add", "sub", "mul"}; M& a = *reg[o2];
				bin(nm[k], o, o, o2, [&] { if (k == 0) m += a; else if (k == 1) m -= a; else m *= a; }); peek(o2, a); break; }
			case 13: { int k = g.below(linearOnly() ? 2 : 3); static const char* nm[] = {"add", "sub", "mul"}; M& a = *reg[o2]; M tmp = m; bool ok = true;
				std::string x = guarded([&] { if (k == 0) tmp = m + a; else if (k == 1) tmp = m - a; else tmp = m * a; }); ok = x == "ok";
				Ev("bin").f("k", nm[k]).f("d", d).f("a", o).f("b", o2).f("exc", x).out();
				if (ok) { if (reg[d]) *reg[d] = tmp; else reg[d] = new M(tmp); } break; }
			case 14: { T f = g.coin(1, 6) ? (T)0 : Mk<T>::make(g.in(-2, 2), Mk<T>::cplx ? g.in(-1, 1) : 0); int k = g.below(linearOnly() ? 3 : 4); if (k == 3) { auto it = m.row_begin(i); T& s = *it; f = s; m *= s; d = o; } else if (k == 0) { m *= f; d = o; } else { M tmp = k == 1 ? m * f : f * m; if (reg[d]) *reg[d] = tmp; else reg[d] = new M(tmp); } Ev("scale").f("a", o).f("d", d).f("v", numU(f)).out(); break; }
			case 15: { M tmp = -m; if (reg[d]) *reg[d] = tmp; else reg[d] = new M(tmp); Ev("neg").f("a", o).f("d", d).out(); break; }
			case 16: { bool e = false, n = false; std::string x = guarded([&] { e = *reg[o] == *reg[o2]; }), y = guarded([&] { n = *reg[o] != *reg[o2]; }); Ev("cmp").f("a", o).f("b", o2).f("eq", e).f("ne", n).f("exc", x).f("exc2", y).out(); break; }
			default: iter(o, m);
			}
			// keep the numbers small
			for (int q = 1; q <= 4; ++q) if (reg[q]) { bool big = false; for (Index k = 0; k < reg[q]->size(); ++k) if (!(std::abs(reg[q]->linear_at(k)) / SC() < (sizeof(typename Mk<T>::real) == 4 ? 2e3 : WIDE() ? 4e8 : 1e6))) big = true;
				if (big) { for (Index k = 0; k < reg[q]->size(); ++k) { T w = val(g); reg[q]->linear_set(k, w); Ev("lset").f("o", q).f("k", k).f("v", num(w)).out(); } } }
			for (int q = 1; q <= 4; ++q) if (reg[q] && (q == d || q == o || t % 5 == 0)) obs(q, *reg[q]);
		}
		for (int q = 1; q <= 4; ++q) if (reg[q]) { iter(q, *reg[q]); obs(q, *reg[q]); delete reg[q]; }
	}
};
template<class T> void dense(Rng& g, size_t R, size_t C, int ops) {
	typedef DenseMatrix<T> M;
	H<M>::history(g, R, C, ops, true, [](size_t r, size_t c) { return new M(r, c); }, [](Rng& g, int o) -> M* {
		Num a = rnum<T>(g, 4), b = rnum<T>(g, 4), c = rnum<T>(g, 4), d = rnum<T>(g, 4);
		T A = toT<T>(a), B = toT<T>(b), C_ = toT<T>(c), D = toT<T>(d);
		if (g.coin()) { Ev("init").f("o", o).raw("rows", "[[" + js(a) + "],[" + js(b) + "," + js(c) + "," + js(d) + "],[]]").out(); return new M{{A}, {B, C_, D}, {}}; }
		Ev("init").f("o", o).raw("rows", "[[" + js(a) + "," + js(b) + "],[" + js(c) + "]]").out(); return new M{{A, B}, {C_}};
	});
	// dense (op)= fixed
	Ev("reset").out();
	NM x = rmat<T>(g, 2, 3, 4), y = rmat<T>(g, 2, 3, 4), z = rmat<T>(g, 3, 2, 4);
	for (int k = 0; k < (linearOnly() ? 2 : 3); ++k) {
		static const char* nm[] = {"add", "sub", "mul"};
		M m = of<M>(x); FixedMatrix<T, 2, 3> f = of<FixedMatrix<T, 2, 3> >(y); FixedMatrix<T, 3, 2> f2 = of<FixedMatrix<T, 3, 2> >(z);
		Ev("init").f("o", 1).f("rows", x).out(); Ev("init").f("o", 2).f("rows", y).out(); Ev("init").f("o", 3).f("rows", z).out();
		H<M>::bin(nm[k], 1, 1, 2, [&] { if (k == 0) m += f; else if (k == 1) m -= f; else m *= f; }); H<M>::peek(1, m);
		H<M>::bin(nm[k], 1, 1, 3, [&] { if (k == 0) m += f2; else if (k == 1) m -= f2; else m *= f2; }); H<M>::peek(1, m);
	}
}
template<class T, Dimension A, Dimension B> void fixed(Rng& g, int ops) {
	typedef FixedMatrix<T, A, B> M;
	H<M>::history(g, A, B, ops, false, [](size_t, size_t) { return new M(); }, [](Rng& g, int o) -> M* {
		Num a = rnum<T>(g, 4), b = rnum<T>(g, 4); T A_ = toT<T>(a), B_ = toT<T>(b);
		const int K = g.below(3); NM rows(A, NV(B, Num{0, 0, 1}));
		// short rows and missing rows are filled with zeros
		if (K == 0 || A < 2 || B < 2) { rows[0][0] = a; Ev("init").f("o", o).f("rows", rows).out(); return new M{{A_}}; }
		if (K == 1) { rows[0][0] = a; rows[1][0] = b; rows[1][1] = a; Ev("init").f("o", o).f("rows", rows).out(); return new M{{A_}, {B_, A_}}; }
		rows[0][0] = a; rows[0][1] = b; Ev("init").f("o", o).f("rows", rows).out(); return new M{{A_, B_}, {}};
	});
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 17);
	const int K = o.thorough ? 14 : 2;
	static const size_t dims[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}, {4, 3}, {3, 5}};
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < 2 * K; ++k) {
		Mode mode(k % 2 == 0 ? 0 : 1 + (k / 2 + o.seed) % 3);
		for (auto& d : dims) {
			if (k % 2 && (&d - dims + k / 2) % 2) continue;
			MINE dense<double>(g, d[0], d[1], 60);
			MINE dense<std::complex<double> >(g, d[0], d[1], 40);
			MINE dense<float>(g, d[0], d[1], 40);
		}
		static const size_t wide[][2] = {{7, 6}, {9, 2}, {2, 11}, {8, 8}, {1, 17}, {16, 1}};
		for (auto& d : wide) { if (k % 2 && (&d - wide + k / 2) % 2) continue; MINE dense<double>(g, d[0], d[1], 22); if (k % 4 < 2) { MINE dense<float>(g, d[0], d[1], 12); } }
		MINE fixed<double, 7, 9>(g, 15); MINE fixed<double, 10, 3>(g, 15);
		for (int q = 0; q < (k % 2 ? 1 : 2); ++q) {
		MINE fixed<double, 1, 1>(g, 40);
		MINE fixed<double, 1, 3>(g, 40);
		MINE fixed<double, 3, 1>(g, 40);
		MINE fixed<double, 2, 3>(g, 60);
		MINE fixed<double, 3, 2>(g, 60);
		MINE fixed<double, 4, 4>(g, 40);
		MINE fixed<std::complex<double>, 2, 3>(g, 40);
		MINE fixed<std::complex<float>, 3, 2>(g, 40);
		MINE fixed<float, 2, 2>(g, 40);
		}
	}
	fclose(g_out);
	return 0;
}
