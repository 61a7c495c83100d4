// Histories of SparseMatrix operations (C01 contents, C02 iteration and erase, C03 element-wise algebra).
#include "matrix/SparseMatrix.h"
#include "mat.h"
#include <fstream>
TRACE_MAIN_GLOBALS

template<class T> struct S {
	typedef SparseMatrix<T> M;
	static T val(Rng& g, bool nonzero) {
		return toT<T>(rnum<T>(g, 4, nonzero));
	}
	static std::string at(const M& m) {
		return js(cont(m));
	}
	static void obs(int o, const M& m) {
		const size_t R = m.rows(), C = m.columns();
		NM lat(R, std::vector<Num>(C)), hv(R, std::vector<Num>(C));
		std::vector<std::vector<bool> > h(R, std::vector<bool>(C)), h2(R, std::vector<bool>(C));
		std::vector<size_t> rfc, cfc;
		anyOrder(R * C, [&](size_t k) {
			const Index i = k / C, j = k % C; T v = (T)77;
			switch (k % 3) {
			case 0: lat[i][j] = num(m.linear_at(k)); h[i][j] = m.has(i, j); h2[i][j] = m.has(i, j, v); break;
			case 1: h[i][j] = m.has(i, j); h2[i][j] = m.has(i, j, v); lat[i][j] = num(m.linear_at(k)); break;
			default: h2[i][j] = m.has(i, j, v); lat[i][j] = num(m.linear_at(k)); h[i][j] = m.has(i, j); }
			hv[i][j] = num(v);
		});
		rfc.resize(R); cfc.resize(C);
		anyOrder(R, [&](size_t i) { rfc[i] = m.row_filled_count(i); });
		anyOrder(C, [&](size_t j) { cfc[j] = m.column_filled_count(j); });
		Ev("obs").f("o", o).f("r", R).f("c", C).f("size", m.size()).raw("at", at(m)).f("lat", lat).f("hasv", hv)
			.f("has", h).f("has2", h2).f("fc", m.filled_count()).f("rfc", rfc).f("cfc", cfc)
			.f("empty", m.empty()).f("hz", m.has_zero()).out();
	}
	static void peek(int o, const M& m) {
		Ev("peek").f("o", o).f("r", m.rows()).f("c", m.columns()).raw("at", at(m)).f("fc", m.filled_count()).out();
	}
	struct E { Index i, j; Num v; };
	template<class It> static std::string ent(const It& it) {
		const It& c = it;
		return "[" + js((unsigned long)it.row()) + "," + js((unsigned long)it.column()) + "," + js(num(*c)) + "]";
	}
	template<class It> static std::string ret(const It& it) { return it.isValid() ? ent(it) : std::string("[]"); }
	// walks a range; gives up (and shows it) after more steps than there are entries
	template<class It, class End> static std::string walk(It it, End end, size_t limit, bool post = false) {
		std::string s = "["; size_t n = 0;
		for (; it != end;) {
			if (n) s += ",";
			if (n > limit) { s += "[-1]"; break; }
			if (!it.isValid()) { s += "[-2]"; break; }
			s += ent(it); ++n;
			if (post) { auto old = it++; if (!(old != it)) { s += ",[-3]"; break; } } else ++it;
		}
		return s + "]";
	}
	static void iter(int o, M& m) {
		const M& c = m; const size_t lim = m.size();
		Ev e("iter"); e.f("o", o);
		{ typename M::iterator b = m.begin(), n = m.end(); e.raw("std", walk(b, n, lim)); e.raw("post", walk(b, n, lim, true)); }
		{ SparseMatrixIterator<T> b = c.begin(), n = c.end(); e.raw("cstd", walk(b, n, lim)); }
		{ SparseMatrixIterator<T> b = m.cbegin(), n = m.cend(); e.raw("cbeg", walk(b, n, lim)); }
		std::string r[6];
		for (Index i = 0; i < m.rows(); ++i) {
			{ SparseMatrixRowIterator<T> b = m.row_begin(i), n = m.row_end(i); r[0] += (i ? "," : "") + walk(b, n, lim, i % 2); }
			{ SparseMatrixRowIterator<T> b = c.row_begin(i), n = c.row_end(i); r[1] += (i ? "," : "") + walk(b, n, lim); }
			{ SparseMatrixRowIterator<T> b = m.row_cbegin(i), n = m.row_cend(i); r[2] += (i ? "," : "") + walk(b, n, lim); }
		}
		for (Index j = 0; j < m.columns(); ++j) {
			{ SparseMatrixColumnIterator<T> b = m.column_begin(j), n = m.column_end(j); r[3] += (j ? "," : "") + walk(b, n, lim, j % 2); }
			{ SparseMatrixColumnIterator<T> b = c.column_begin(j), n = c.column_end(j); r[4] += (j ? "," : "") + walk(b, n, lim); }
			{ SparseMatrixColumnIterator<T> b = m.column_cbegin(j), n = m.column_cend(j); r[5] += (j ? "," : "") + walk(b, n, lim); }
		}
		e.raw("rows", "[" + r[0] + "]").raw("crows", "[" + r[1] + "]").raw("cbrows", "[" + r[2] + "]");
		e.raw("cols", "[" + r[3] + "]").raw("ccols", "[" + r[4] + "]").raw("cbcols", "[" + r[5] + "]").out();
	}
	static SparseMatrixIterator<T> find(M& m, Index i, Index j, int how) {
		if (how == 1) { auto it = m.row_begin(i); while (it != m.row_end(i) && it.column() != j) ++it; return it; }
		if (how == 2) { auto it = m.column_begin(j); while (it != m.column_end(j) && it.row() != i) ++it; return it; }
		auto it = m.begin(); size_t n = 0;
		while (it != m.end() && (it.row() != i || it.column() != j) && n++ <= m.size()) ++it;
		return it;
	}
	static void sweep(int o, M& m, Rng& g, const std::vector<int>* dec = nullptr) {
		std::string vis = "["; size_t n = 0; const size_t lim = m.size() + 2;
		for (auto it = m.begin(); it != m.end();) {
			if (n > lim) break;
			int d = dec ? (n < dec->size() ? (*dec)[n] : 0) : g.below(5);
			if (n) vis += ",";
			std::string x = ent(it); x.resize(x.size() - 1);
			T nv = (T)0;
			if (d >= 3) nv = val(g, true);
			vis += x + "," + js(d) + "," + js(num(nv)) + "]";
			++n;
			switch (d) {
			case 0: ++it; break;
			case 1: it = m.erase(it); break;
			case 2: it = m.set(it, (T)0); break;
			case 3: it = m.set(it, nv); ++it; break;
			default: *it = nv; it++; break;
			}
		}
		Ev("sweep").f("o", o).raw("vis", vis + "]").out();
	}

	static void build(M& m, const NM& pre, Rng& g) {       // fills in random order, with detours
		std::vector<std::pair<int, int> > c;
		for (size_t i = 0; i < pre.size(); ++i) for (size_t j = 0; j < pre[i].size(); ++j) if (pre[i][j].a || pre[i][j].b) c.push_back(std::make_pair((int)i, (int)j));
		for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[g.below((int)k)]);
		for (auto& p : c) { auto n = pre[p.first][p.second]; m.set(p.first, p.second, toT<T>(n)); }
	}
	static std::string initEv(M& m, size_t R, size_t C, const NM& pre, int o) {
		(void)m; std::vector<std::vector<Num> > rows = pre; (void)R; (void)C;
		Ev("init").f("o", o).f("rows", rows).out(); return "";
	}

	// ---- behaviours generated from the model: pre-state, one operation, observation
	static void replay(const std::string& file, Rng& g, bool c02, int shard, int shards) {
		std::ifstream f(file); std::string line; int n = 0;
		while (std::getline(f, line)) {
			if (n++ % shards != shard) continue;
			// op R C i j [3 a b d] [R [C [3 a b d] ...] ...]
			Cmd c(line); std::string op = c.word(); size_t R = c.i(), C = c.i(); int i = c.i(), j = c.i(); Num w = c.num();
			NM pre(c.i());
			for (auto& r : pre) { r.resize(c.i()); for (auto& x : r) x = c.num(); }
			M m(R, C, g.coin() ? 0 : R * C);
			build(m, pre, g);
			Ev("reset").out();
			Ev("init").f("o", 1).f("rows", pre).out();
			if (op == "set") { m.set(i, j, toT<T>(w)); Ev("set").f("o", 1).f("i", i).f("j", j).f("v", w).out(); }
			else { auto it = find(m, i, j, g.below(3)); auto r = m.erase(it); Ev("erase").f("o", 1).f("i", i).f("j", j).raw("ret", ret(r)).out(); }
			if (c02) { peek(1, m); iter(1, m); } else obs(1, m);
		}
	}

	// ---- random histories over several objects
	static void history(Rng& g, size_t R, size_t C, int ops, const std::string& mode) {
		Ev("reset").out();
		std::vector<M*> reg(5, (M*)nullptr);
		reg[1] = new M(R, C); Ev("new").f("o", 1).f("r", R).f("c", C).out();
		const bool big = R * C > 30;
		for (int t = 0; t < ops; ++t) {
			int o = g.in(1, 4); while (!reg[o]) o = g.in(1, 4);
			M& m = *reg[o]; const int r = (int)m.rows(), c = (int)m.columns();
			int i = g.below(r), j = g.below(c);
			int what = g.below(mode == "C02" ? 18 : 23); if (mode == "C02" && what >= 15) what += 5;
			if (what < 6) { T v = val(g, !g.coin(1, 4)); m.set(i, j, v); Ev("set").f("o", o).f("i", i).f("j", j).f("v", num(v)).out(); }
			else if (what == 6) { T v = val(g, !g.coin(1, 4)); int k = i * c + j; m.linear_set(k, v); Ev("lset").f("o", o).f("k", k).f("v", num(v)).out(); }
			else if (what < 9) {
				if (m.empty()) continue;
				int n = g.below((int)m.filled_count()); auto it = m.begin(); while (n--) ++it;
				int how = g.below(3); it = find(m, it.row(), it.column(), how);
				unsigned long a = it.row(), b = it.column();
				auto rr = m.erase(it); Ev("erase").f("o", o).f("i", a).f("j", b).raw("ret", ret(rr)).out();
			}
			else if (what < 11) {
				if (m.empty()) { auto rr = g.coin() ? m.set(m.end(), (T)1) : m.erase(m.end()); Ev("endop").f("o", o).raw("ret", ret(rr)).out(); continue; }
				int n = g.below((int)m.filled_count()); auto it = m.begin(); while (n--) ++it;
				it = find(m, it.row(), it.column(), g.below(3));
				unsigned long a = it.row(), b = it.column(); T v = val(g, g.coin());
				auto rr = m.set(it, v); Ev("setit").f("o", o).f("i", a).f("j", b).f("v", num(v)).raw("ret", ret(rr)).out();
			}
			else if (what == 11) {
				if (m.empty()) continue;
				int n = g.below((int)m.filled_count()); auto it = m.begin(); while (n--) ++it;
				unsigned long a = it.row(), b = it.column(); T v = val(g, true);
				int how = g.below(3);
				if (how == 0) *it = v; else if (how == 1) { auto rt = m.row_begin(a); while (rt.column() != b) ++rt; *rt = v; } else { auto ct = m.column_begin(b); while (ct.row() != a) ++ct; *ct = v; }
				Ev("itw").f("o", o).f("i", a).f("j", b).f("v", num(v)).out();
			}
			else if (what < 15) sweep(o, m, g);
			else if (what == 15) {          // copy construct / assign
				int d = g.in(1, 4);
				if (reg[d] && g.coin()) *reg[d] = *reg[o]; else if (d != o) { delete reg[d]; reg[d] = new M(*reg[o]); } else { M& self = *reg[o]; M& alias = self; self = alias; }
				Ev("copy").f("d", d).f("s", o).out();
			}
			else if (what == 16) {
				int d = g.in(1, 4); if (d == o) continue;
				if (reg[d] && g.coin()) { *reg[d] = std::move(*reg[o]); } else { delete reg[d]; reg[d] = new M(std::move(*reg[o])); }
				delete reg[o]; reg[o] = nullptr;
				Ev("move").f("d", d).f("s", o).out();
			}
			else if (what == 17) { int d = g.in(1, 4); if (!reg[d]) continue; reg[o]->swap(*reg[d]); Ev("swap").f("a", o).f("b", d).out(); }
			else if (what == 18) {
				int d = g.in(1, 4); size_t rr = g.in(1, (int)R + 1), cc = g.in(1, (int)C + 1);
				if (d == o && !reg[d]) continue;
				delete reg[d]; reg[d] = new M(rr, cc, g.below(5)); Ev("new").f("o", d).f("r", rr).f("c", cc).out();
			}
			else if (what == 20) {          // in-place arithmetic, then the history goes on with the same object
				T f = g.coin(1, 3) ? (T)0 : g.coin() ? (T)-1 : (T)2; m *= f; Ev("scale").f("a", o).f("d", o).f("v", numU(f)).out();
			}
			else if (what == 21) {
				int d = g.in(1, 4); if (!reg[d] || (m.filled_count() > 40)) continue; M& b = *reg[d]; int q = g.below(linearOnly() ? 2 : 3); static const char* k[3] = {"add", "sub", "mul"};
				std::string x = guarded([&] { if (q == 0) m += b; else if (q == 1) m -= b; else m *= b; });
				Ev("bin").f("k", k[q]).f("a", o).f("b", d).f("d", o).f("exc", x).out();
			}
			else if (what == 22) {
				int d = g.in(1, 4); const int q = g.below(4); M t = q == 0 ? m.transpose() : q == 1 ? m.adjugate() : q == 2 ? m.conjugate() : -m;
				if (reg[d] && g.coin()) *reg[d] = t; else { delete reg[d]; reg[d] = new M(std::move(t)); }
				static const char* k[4] = {"transpose", "adjugate", "conjugate", "neg"}; if (q == 3) Ev("neg").f("a", o).f("d", d).out(); else Ev("map").f("k", k[q]).f("a", o).f("d", d).out();
			}
			else {
				int d = g.in(1, 4);
				T a = val(g, false), b = val(g, false), x = val(g, false), e = val(g, false), z = val(g, false);
				delete reg[d];
				if (g.coin()) { reg[d] = new M{{a}, {b, x, e}, {(T)0, z}}; Ev("init").f("o", d).raw("rows", "[[" + js(num(a)) + "],[" + js(num(b)) + "," + js(num(x)) + "," + js(num(e)) + "],[[0,0,1]," + js(num(z)) + "]]").out(); }
				else { reg[d] = new M{{a, (T)0, b, x}, {}, {e, z}}; Ev("init").f("o", d).raw("rows", "[[" + js(num(a)) + ",[0,0,1]," + js(num(b)) + "," + js(num(x)) + "],[],[" + js(num(e)) + "," + js(num(z)) + "]]").out(); }
			}
			for (int q = 1; q <= 4; ++q) if (reg[q] && what > 19) {          // keep the numbers small
				M& z = *reg[q]; for (Index a = 0; a < z.rows(); ++a) for (Index b = 0; b < z.columns(); ++b) if (!(std::abs(z.at(a, b)) / SC() < (WIDE() ? 5e8 : sizeof(typename Mk<T>::real) == 4 ? 300 : 3000))) { T v = val(g, true); z.set(a, b, v); Ev("set").f("o", q).f("i", (unsigned long)a).f("j", (unsigned long)b).f("v", num(v)).out(); }
			}
			for (int q = 1; q <= 4; ++q) if (reg[q]) {
				if (mode == "C02") { if (q == o && (!big || t % 4 == 0)) iter(q, *reg[q]); }
				else if (q == o ? (!big || t % 3 == 0) : t % 7 == 0) obs(q, *reg[q]);
			}
		}
		for (int q = 1; q <= 4; ++q) if (reg[q]) { if (mode == "C02") iter(q, *reg[q]); else obs(q, *reg[q]); delete reg[q]; }
	}

	// ---- C02: every erase/keep decision of a sweep over one pattern
	static void sweeps(Rng& g, size_t R, size_t C, unsigned pattern) {
		NM pre(R, std::vector<Num>(C)); int n = 0;
		for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { bool on = pattern >> (i * C + j) & 1; pre[i][j] = Num{on ? ++n : 0, 0, 1}; }
		for (int d = 0; d < (1 << n); ++d) {
			M m(R, C); build(m, pre, g);
			Ev("reset").out(); Ev("init").f("o", 1).f("rows", pre).out();
			std::vector<int> dec; for (int k = 0; k < n; ++k) dec.push_back(d >> k & 1);
			sweep(1, m, g, &dec);
			peek(1, m);
			if (d % 4 == 0) iter(1, m);
		}
	}

	// ---- C03
	static void opsOn(Rng& g, const NM& pa, const NM& pb, int only = -1) {
		M a(pa.size(), pa[0].size()), b(pb.size(), pb[0].size());
		build(a, pa, g); build(b, pb, g);
		Ev("reset").out();
		Ev("init").f("o", 1).f("rows", pa).out(); Ev("init").f("o", 2).f("rows", pb).out();
		const char* k[3] = {"add", "sub", "mul"};
		const bool same = a.rows() == b.rows() && a.columns() == b.columns();
		for (int q = 0; q < 3; ++q) {
			if (only >= 0 && q != only) continue;
			if (q == 2 && linearOnly()) continue;
			{ M d(1, 1); std::string x = guarded([&] { if (q == 0) d = a + b; else if (q == 1) d = a - b; else d = a * b; });
			  Ev("bin").f("k", k[q]).f("a", 1).f("b", 2).f("d", 3).f("exc", x).out();
			  if (same) { peek(3, d); peek(2, b); } else { peek(1, a); peek(2, b); } }
			{ M d = a; Ev("copy").f("d", 3).f("s", 1).out();
			  std::string x = guarded([&] { if (q == 0) d += b; else if (q == 1) d -= b; else d *= b; });
			  Ev("bin").f("k", k[q]).f("a", 3).f("b", 2).f("d", 3).f("exc", x).out(); peek(3, d); peek(2, b); peek(1, a);
			  iterPeek(3, d); }
			{ M d = a; Ev("copy").f("d", 3).f("s", 1).out();      // aliased
			  std::string x = guarded([&] { M& e = d; if (q == 0) d += e; else if (q == 1) d -= e; else d *= e; });
			  Ev("bin").f("k", k[q]).f("a", 3).f("b", 3).f("d", 3).f("exc", x).out(); peek(3, d); iterPeek(3, d); }
			{ M d(1, 1); std::string x = guarded([&] { if (q == 0) d = a + a; else if (q == 1) d = a - a; else d = a * a; });
			  Ev("bin").f("k", k[q]).f("a", 1).f("b", 1).f("d", 3).f("exc", x).out(); peek(3, d); }
		}
		Ev("cmp").f("a", 1).f("b", 2).f("eq", a == b).f("ne", a != b).out();
		Ev("cmp").f("a", 2).f("b", 1).f("eq", b == a).f("ne", b != a).out();
		Ev("cmp").f("a", 1).f("b", 1).f("eq", a == a).f("ne", a != a).out();
		{ M c(a.rows(), a.columns()); build(c, pa, g); Ev("copy").f("d", 3).f("s", 1).out(); Ev("cmp").f("a", 1).f("b", 3).f("eq", a == c).f("ne", a != c).out();
		  // equal pattern, one value different; same value elsewhere
		  if (!c.empty()) { auto it = c.begin(); int n = g.below((int)c.filled_count()); while (n--) ++it; T v = *it; int i = (int)it.row(), j = (int)it.column(); v += toT<T>(Num{1, 0, 1}); if (v == (T)0) v = toT<T>(Num{9, 0, 1}); c.set(i, j, v);
		    Ev("set").f("o", 3).f("i", i).f("j", j).f("v", num(v)).out(); Ev("cmp").f("a", 3).f("b", 1).f("eq", c == a).f("ne", c != a).out(); } }
		T f = g.coin(1, 5) ? (T)0 : toU<T>(Num{g.in(1, 4), Mk<T>::cplx ? g.in(-2, 2) : 0, 1});
		if (!a.empty() && !linearOnly()) { M d = a; auto it = d.begin(); for (int q = g.below(d.filled_count()); q > 0; --q) ++it; T& s = *it; Num fs = num(s); d *= s; Ev("scale").f("a", 1).f("d", 3).f("v", fs).out(); peek(3, d); }
		{ M d = a * f; Ev("scale").f("a", 1).f("d", 3).f("v", numU(f)).out(); peek(3, d); iterPeek(3, d); }
		{ M d = f * a; Ev("scale").f("a", 1).f("d", 3).f("v", numU(f)).out(); peek(3, d); }
		{ M d = a; d *= f; Ev("scale").f("a", 1).f("d", 3).f("v", numU(f)).out(); peek(3, d); d.set(0, 0, toT<T>(Num{5, 0, 1})); Ev("set").f("o", 3).f("i", 0).f("j", 0).f("v", Num{5, 0, 1}).out(); peek(3, d); }
		{ M d = -a; Ev("neg").f("a", 1).f("d", 3).out(); peek(3, d); }
		peek(1, a); peek(2, b);
	}
	static void iterPeek(int o, const M& m) {      // content as iterated must agree with content as read
		NM v(m.rows(), std::vector<Num>(m.columns(), Num{0, 0, 1})); size_t n = 0;
		for (auto it = m.begin(); it != m.end() && n <= m.size(); ++it, ++n) if (it.row() < m.rows() && it.column() < m.columns()) { const auto& c = it; v[it.row()][it.column()] = num(*c); }
		Ev("peek").f("o", o).f("r", m.rows()).f("c", m.columns()).f("at", v).f("fc", n).out();
	}
	static NM rnd(Rng& g, size_t R, size_t C, int num_, int den) {
		NM v(R, std::vector<Num>(C, Num{0, 0, 1}));
		for (auto& r : v) for (auto& x : r) if (g.coin(num_, den)) x = num(val(g, true));
		return v;
	}
};

static NM pat(size_t R, size_t C, unsigned p, bool ones) {
	NM v(R, std::vector<Num>(C, Num{0, 0, 1})); int n = 1;
	for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (p >> (i * C + j) & 1) v[i][j] = Num{ones ? 1 : ++n, 0, 1};
	return v;
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard);
	const int K = o.thorough ? 12 : 1;
	static const size_t dims[][2] = {{1, 1}, {1, 5}, {5, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 3}, {3, 4}, {5, 5}, {6, 4}, {9, 7}, {4, 11}};
	if (o.mode == "C01" || o.mode == "C02") {
		if (!o.in.empty()) S<double>::replay(o.in, g, o.mode == "C02", o.shard, o.shards);
		int n = 0;
		for (int rep = 0; rep < 2 * K; ++rep)
			for (auto& d : dims) for (int ty = 0; ty < 4; ++ty) {
				if (n++ % o.shards != o.shard) continue;
				Mode mode(rep % 2 ? 1 + g.below(3) : 0);
				int ops = d[0] * d[1] > 30 ? 40 : 50;
				switch (ty) {
				case 0: S<double>::history(g, d[0], d[1], ops, o.mode); break;
				case 1: S<std::complex<double> >::history(g, d[0], d[1], ops, o.mode); break;
				case 2: S<float>::history(g, d[0], d[1], ops, o.mode); break;
				case 3: S<std::complex<float> >::history(g, d[0], d[1], ops / 2, o.mode); break;
				}
			}
		if (o.mode == "C02") {
			// all patterns of 3x2 and 2x3 with all erase decisions; 4x2 sampled
			for (unsigned p = 0; p < 64; ++p) if ((int)p % o.shards == o.shard) { S<double>::sweeps(g, 3, 2, p); if (o.thorough) S<double>::sweeps(g, 2, 3, p); }
			for (int q = 0; q < (o.thorough ? 80 : 4); ++q) S<double>::sweeps(g, 5, 2, g.below(1024) & 0x2DB);
		}
	} else {
		// every pair of 2x2 patterns (thorough: also all 2x3 pairs), cancellation included because values repeat
		int n = 0;
		for (unsigned p = 0; p < 16; ++p) for (unsigned q = 0; q < 16; ++q) if (n++ % o.shards == o.shard) { S<double>::opsOn(g, pat(2, 2, p, true), pat(2, 2, q, true)); }
		const int reps = o.thorough ? 4000 : 480;
		for (int r = 0; r < reps; ++r) if (n++ % o.shards == o.shard) {
			size_t R = g.in(1, 5), C = g.in(1, 5), R2 = R, C2 = C;
			if (g.coin(1, 4)) { int k = g.below(4); if (k == 0) R2 = g.in(1, 5); else if (k == 1) C2 = g.in(1, 5); else if (k == 2) { R2 = C; C2 = R; } else { R2 = g.in(1, 5); C2 = g.in(1, 5); } }
			int d1 = g.in(0, 4), d2 = g.in(0, 4);
			if (r % 16 == 3) { R = g.in(6, 9); C = g.in(1, 8); R2 = R; C2 = C; d1 = g.in(1, 2); d2 = g.in(0, 3); }
			Mode mode(g.coin(2, 5) ? 1 + g.below(3) : 0);
			switch (r % 4) {
			case 0: S<double>::opsOn(g, S<double>::rnd(g, R, C, d1, 4), S<double>::rnd(g, R2, C2, d2, 4)); break;
			case 1: { typedef S<std::complex<double> > Q; Q::opsOn(g, Q::rnd(g, R, C, d1, 4), Q::rnd(g, R2, C2, d2, 4)); break; }
			case 2: S<float>::opsOn(g, S<float>::rnd(g, R, C, d1, 4), S<float>::rnd(g, R2, C2, d2, 4)); break;
			case 3: { auto pt = [&](size_t a, size_t b) { NM v(a, NV(b, Num{0, 0, 1})); for (auto& x : v) for (auto& y : x) y.a = g.below(2); return v; }; NM u = pt(R, C), w = pt(R2, C2); S<double>::opsOn(g, u, w); break; }
			}
		}
	}
	fclose(g_out);
	return 0;
}
