// Sparse matrices with many rows, columns or entries (C01 contents, C02 iteration and erase, C03 element-wise algebra, C05 products).
#include "mat.h"
#include <set>
TRACE_MAIN_GLOBALS

template<class T> struct B {
	typedef SparseMatrix<T> M;
	static const M& K(const M& m) { return m; }
	Rng& g; size_t R, C, base;       // columns are recorded relative to base
	M* reg[5];
	std::vector<ll> rs, cs;           // rows and columns that are used
	B(Rng& g_, size_t r, size_t c, size_t b) : g(g_), R(r), C(c), base(b) { for (auto& x : reg) x = 0;
		static const ll mark[] = {0, 1, 2, 127, 128, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 69999, 99999, 131071, 131072};
		for (ll m : mark) { if (m < (ll)R) rs.push_back(m); if (m < (ll)C) cs.push_back(m); }
		for (int k = 0; k < 6; ++k) { rs.push_back(g.below((int)R)); cs.push_back(g.below((int)std::min<size_t>(C, 2000000000))); }
		rs.push_back(R - 1); cs.push_back(C - 1); }
	~B() { for (auto& x : reg) delete x; }
	ll row() { return rs[g.below((int)rs.size())]; }
	ll col() { return g.coin(1, 3) ? g.below((int)std::min<size_t>(C, 400)) : cs[g.below((int)cs.size())]; }
	Num val(bool nz = true) { return rnum<T>(g, 4, nz); }
	ll rel(size_t j) { return j < base || j - base > 2100000000ull ? -7 : (ll)(j - base); }
	template<class It> std::string ent(const It& it) { const It& c = it; return "[" + js(it.row()) + "," + js(rel(it.column())) + "," + js(num(*c)) + "]"; }
	template<class It> std::string ret(const It& it) { return it.isValid() ? ent(it) : std::string("[]"); }
	template<class It> std::string walk(It it, It end, size_t lim, bool post) {
		std::string s = "["; size_t n = 0;
		for (; it != end;) { if (n) s += ","; if (n > lim || !it.isValid()) { s += "[-1,-1,[0,0,1]]"; break; } s += ent(it); ++n; if (post) it++; else ++it; }
		return s + "]";
	}
	void fresh(int o) { delete reg[o]; reg[o] = new M(R, C + base, g.coin() ? 0 : 10); Ev("new").f("o", o).f("r", R).f("c", C).out(); }
	void fill(int o, int n, bool oneRow) {
		std::map<std::pair<ll, ll>, Num> m; ll fr = row();
		for (int k = 0; k < n; ++k) { ll i = oneRow ? fr : row(), j = oneRow ? g.below((int)std::min<size_t>(C, 100000)) : col(); m[std::make_pair(i, j)] = val(); }
		std::vector<std::pair<std::pair<ll, ll>, Num> > v(m.begin(), m.end()); for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.below((int)k)]);
		std::string s = "{"; for (auto& x : v) { reg[o]->set(x.first.first, x.first.second + base, toT<T>(x.second)); if (s.size() > 1) s += ","; s += "\"" + js(x.first.first) + "," + js(x.first.second) + "\":[" + js(x.first.first) + "," + js(x.first.second) + "," + js(x.second) + "]"; }
		Ev("fill").f("o", o).raw("es", s + "}").out();
	}
	// n entries spread over all rows, written in random order
	void spread(int o, int n) {
		std::set<std::pair<ll, ll> > m; while ((int)m.size() < n) m.insert(std::make_pair((ll)g.below((int)R), (ll)g.below((int)C)));
		std::vector<std::pair<ll, ll> > v(m.begin(), m.end()); if (g.coin(1, 3)) std::reverse(v.begin(), v.end()); else for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.below((int)k)]);
		std::string s = "{"; for (auto& p : v) { Num x = val(); reg[o]->set(p.first, p.second + base, toT<T>(x)); if (s.size() > 1) s += ","; s += "\"" + js(p.first) + "," + js(p.second) + "\":[" + js(p.first) + "," + js(p.second) + "," + js(x) + "]"; }
		Ev("fill").f("o", o).raw("es", s + "}").out();
	}
	std::pair<ll, ll> filled(M& m) { int n = g.below((int)m.filled_count()); auto it = m.begin(); while (n--) ++it; return std::make_pair((ll)it.row(), rel(it.column())); }
	std::pair<ll, ll> some(M& m) { if (!m.empty() && g.coin()) { auto p = filled(m); if (g.coin(1, 3)) { p.second += g.in(-1, 1); if (p.second < 0 || p.second >= (ll)C) p.second = 0; } if (g.coin(1, 4)) { p.first += g.in(-1, 1); if (p.first < 0 || p.first >= (ll)R) p.first = 0; } return p; } return std::make_pair(row(), col()); }
	void at(int o) { M& m = *reg[o]; const M& c = m; std::string s = "[";
		for (int k = 0; k < 14; ++k) { auto p = some(m); T v = (T)77; bool h2 = c.has(p.first, p.second + base, v), h = c.has(p.first, p.second + base); if (k) s += ",";
			s += "[" + js(p.first) + "," + js(p.second) + "," + js(num(c.at(p.first, p.second + base))) + "," + js(num(v)) + "," + js(num(c.linear_at((size_t)p.first * (C + base) + p.second + base))) + "," + js(h) + "," + js(h2) + "]"; }
		Ev("at").f("o", o).raw("es", s + "]").out(); }
	void counts(int o) { const M& m = *reg[o]; std::vector<std::vector<ll> > r, c;
		for (int k = 0; k < 6; ++k) { auto p = some(*reg[o]); r.push_back(std::vector<ll>{p.first, (ll)m.row_filled_count(p.first)}); c.push_back(std::vector<ll>{p.second, (ll)m.column_filled_count(p.second + base)}); }
		Ev("counts").f("o", o).f("r", m.rows()).f("c", rel(m.columns())).f("fc", m.filled_count()).f("empty", m.empty()).f("rows", r).f("cols", c).out(); }
	void iter(int o) { M& m = *reg[o]; const size_t lim = 5000;
		{ bool cs = g.coin(); typename M::iterator b = cs ? K(m).begin() : m.begin(), e = cs ? K(m).end() : m.end(); Ev("iter").f("o", o).raw("s", walk(b, e, lim, false)).raw("post", walk(b, e, lim, true)).out(); }
		for (int k = 0; k < 2; ++k) { ll i = some(m).first; bool cs = g.coin(); typename M::row_iterator b = cs ? K(m).row_begin(i) : m.row_begin(i), e = cs ? K(m).row_end(i) : m.row_end(i); Ev("row").f("o", o).f("i", i).raw("s", walk(b, e, lim, false)).raw("post", walk(b, e, lim, true)).out(); }
		for (int k = 0; k < 2; ++k) { ll j = some(m).second; bool cs = g.coin(); typename M::column_iterator b = cs ? K(m).column_begin(j + base) : m.column_begin(j + base), e = cs ? K(m).column_end(j + base) : m.column_end(j + base); Ev("col").f("o", o).f("j", j).raw("s", walk(b, e, lim, false)).raw("post", walk(b, e, lim, true)).out(); } }
	void write(int o) { M& m = *reg[o];
		if (m.empty() || g.coin()) { auto p = some(m); Num v = val(!g.coin(1, 3)); if (g.coin(3, 4)) m.set(p.first, p.second + base, toT<T>(v)); else m.linear_set((size_t)p.first * (C + base) + p.second + base, toT<T>(v)); Ev("set").f("o", o).f("i", p.first).f("j", p.second).f("v", v).out(); return; }
		m.at(0, base); auto p = filled(m); auto it = m.begin(); while ((ll)it.row() != p.first || rel(it.column()) != p.second) ++it;
		if (g.coin(1, 3)) { auto r = m.erase(it); Ev("setit").f("o", o).f("i", p.first).f("j", p.second).raw("v", "[0,0,1]").raw("ret", ret(r)).out(); }
		else if (g.coin()) { Num v = val(g.coin()); auto r = m.set(it, toT<T>(v)); Ev("setit").f("o", o).f("i", p.first).f("j", p.second).f("v", v).raw("ret", ret(r)).out(); }
		else { Num v = val(); *it = toT<T>(v); Ev("set").f("o", o).f("i", p.first).f("j", p.second).f("v", v).out(); } }
	void sweep(int o) { M& m = *reg[o]; std::string vis = "["; size_t n = 0, lim = m.filled_count() + 3;
		for (auto it = m.begin(); it != m.end() && n < lim;) { int d = g.below(5); if (n++) vis += ","; std::string x = ent(it); x.resize(x.size() - 1); Num nv = d >= 3 ? val() : Num{0, 0, 1}; vis += x + "," + js(d) + "," + js(nv) + "]";
			switch (d) { case 0: ++it; break; case 1: it = m.erase(it); break; case 2: it = m.set(it, (T)0); break; case 3: it = m.set(it, toT<T>(nv)); ++it; break; default: *it = toT<T>(nv); it++; } }
		Ev("sweep").f("o", o).raw("vis", vis + "]").out(); }
	void copies() { int o = g.in(1, 3); while (!reg[o]) o = g.in(1, 3); int d = g.in(1, 3); if (d == o) return;
		switch (g.below(3)) {
		case 0: if (reg[d] && g.coin()) *reg[d] = *reg[o]; else { delete reg[d]; reg[d] = new M(*reg[o]); } Ev("copy").f("d", d).f("s", o).out(); break;
		case 1: if (reg[d] && g.coin()) *reg[d] = std::move(*reg[o]); else { delete reg[d]; reg[d] = new M(std::move(*reg[o])); } delete reg[o]; reg[o] = 0; Ev("move").f("d", d).f("s", o).out(); break;
		default: if (!reg[d]) return; reg[d]->swap(*reg[o]); Ev("swap").f("a", o).f("b", d).out(); } }
	void algebra() { const M &a = *reg[1], &b = *reg[2]; static const char* nm[] = {"add", "sub", "mul"};
		for (int k = 0; k < 3; ++k) { M d(1, 1); std::string e = guarded([&] { if (k == 0) d = a + b; else if (k == 1) d = a - b; else d = a * b; }); Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 3).f("exc", e).out(); if (e == "ok") { delete reg[3]; reg[3] = new M(d); show(3); } show(2); }
		for (int k = 0; k < 3; ++k) { M d = a; std::string e = guarded([&] { if (k == 0) d += b; else if (k == 1) d -= b; else d *= b; }); Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 3).f("exc", e).out(); if (e == "ok") { delete reg[3]; reg[3] = new M(d); show(3); } }
		{ Num f{g.in(-2, 2), 0, 1}; M d = g.coin() ? a * toT<T>(f) : toT<T>(f) * a; Ev("scale").f("a", 1).f("d", 3).f("v", f).out(); delete reg[3]; reg[3] = new M(d); show(3); }
		{ M d = -a; Ev("neg").f("a", 1).f("d", 3).out(); delete reg[3]; reg[3] = new M(d); show(3); }
		cmp(1, 2); cmp(2, 1); { delete reg[3]; reg[3] = new M(a); Ev("copy").f("d", 3).f("s", 1).out(); cmp(1, 3); auto p = some(*reg[3]); Num v = val(); reg[3]->set(p.first, p.second + base, toT<T>(v)); Ev("set").f("o", 3).f("i", p.first).f("j", p.second).f("v", v).out(); cmp(1, 3); cmp(3, 1); } }
	void cmp(int a, int b) { Ev("cmp").f("a", a).f("b", b).f("eq", *reg[a] == *reg[b]).f("ne", *reg[a] != *reg[b]).out(); }
	// two entries, often the last ones, exchange their values
	void exchange() { delete reg[3]; reg[3] = new M(*reg[1]); Ev("copy").f("d", 3).f("s", 1).out(); M& m = *reg[3]; if (m.filled_count() < 4) return;
		std::vector<std::pair<std::pair<ll, ll>, T> > v; for (auto it = m.begin(); it != m.end(); ++it) v.push_back(std::make_pair(std::make_pair((ll)it.row(), rel(it.column())), *it));
		size_t x = g.coin() ? v.size() - 1 - g.below(3) : g.below((int)v.size()), y = x; for (int t = 0; t < 50 && v[y].second == v[x].second; ++t) y = x < 12 || g.coin(1, 3) ? g.below((int)v.size()) : x - 1 - g.below(10);
		const size_t at[] = {x, y}; for (int k = 0; k < 2; ++k) { auto p = v[at[k]].first; T w = v[at[1 - k]].second; m.set(p.first, p.second + base, w); Ev("set").f("o", 3).f("i", p.first).f("j", p.second).f("v", num(w)).out(); }
		cmp(1, 3); cmp(3, 1); }
	void show(int o) { M& m = *reg[o]; bool cs = g.coin(); typename M::iterator b = cs ? K(m).begin() : m.begin(), e = cs ? K(m).end() : m.end(); std::string s = walk(b, e, 5000, false); Ev("iter").f("o", o).raw("s", s).raw("post", s).out(); at(o); counts(o); }
	void products(int o) { const M& m = *reg[o];
		for (int k = 0; k < 2; ++k) { M t = k ? m.adjugate() : m.transpose(); M& u = t; std::string s = "["; size_t n = 0; for (auto it = u.begin(); it != u.end() && n < 5000; ++it, ++n) { const auto& c = it; s += (n ? ",[" : "[") + js(it.row()) + "," + js(it.column()) + "," + js(num(*c)) + "]"; }
			Ev("trans").f("o", o).f("h", k == 1).f("r", t.rows()).f("c", t.columns()).f("fc", t.filled_count()).raw("s", s + "]").out(); }
		for (int k = 0; k < 2; ++k) { DynamicVector<T> x(k ? R : C); x.fill((T)0); std::string s = "{"; std::set<ll> used; for (int q = 0; q < 25; ++q) { auto p = some(*reg[o]); ll i = k ? p.first : p.second; if (!used.insert(i).second) continue; Num v = val(); x.set(i, toT<T>(v)); s += std::string(s.size() > 1 ? "," : "") + "\"" + js(i) + "\":" + js(v); }
			DynamicVector<T> y = k ? m.mul_left(x) : m.mul(x); std::string r = "{"; for (Index i = 0; i < y.size(); ++i) if (y.at(i) != (T)0) r += std::string(r.size() > 1 ? "," : "") + "\"" + js(i) + "\":" + js(num(y.at(i)));
			Ev("mulv").f("o", o).f("side", k ? "l" : "r").raw("x", s + "}").raw("y", r + "}").f("n", y.size()).out(); } }
	void lines(int o) { M& m = *reg[o]; std::set<ll> r, c; for (auto it = m.begin(); it != m.end(); ++it) { r.insert(it.row()); c.insert(rel(it.column())); }
		for (ll i : r) { bool cs = g.coin(); typename M::row_iterator b = cs ? K(m).row_begin(i) : m.row_begin(i), e = cs ? K(m).row_end(i) : m.row_end(i); Ev("row").f("o", o).f("i", i).raw("s", walk(b, e, 5000, false)).raw("post", walk(b, e, 5000, true)).out(); }
		for (ll j : c) { bool cs = g.coin(); typename M::column_iterator b = cs ? K(m).column_begin(j + base) : m.column_begin(j + base), e = cs ? K(m).column_end(j + base) : m.column_end(j + base); Ev("col").f("o", o).f("j", j).raw("s", walk(b, e, 5000, false)).raw("post", walk(b, e, 5000, true)).out(); } }
	// shape 0: some rows, one of them long; 1: many entries in all rows; 2: few entries
	void run(const std::string& mode, int ops, int shape = 0) {
		Ev("reset").out(); fresh(1); fresh(2);
		if (shape == 0) { fill(1, 60, false); fill(1, 120, true); fill(2, 60, false); }
		else if (shape == 1) { spread(1, g.in(520, 720)); spread(2, g.in(250, 270)); counts(1); at(1); if (mode == "C01" || mode == "C02") { iter(1); if (mode == "C02") iter(2); } }
		else { spread(1, g.in(1, 8)); spread(2, g.in(1, 14)); lines(1); lines(2); }
		if (g.coin()) { fresh(3); }
		if (mode == "C01" || mode == "C02") for (int t = 0; t < ops; ++t) {
			int o = g.in(1, 3); while (!reg[o]) o = g.in(1, 3);
			if (mode == "C01") { if (g.coin(1, 6)) copies(); else { write(o); at(o); if (t % 3 == 0) counts(o); } }
			else { if (g.coin(1, 6)) sweep(o); else write(o); if (shape == 2) lines(o); if (t % 2) iter(o); } }
		else if (mode == "C03") { for (int t = 0; t < ops / 4; ++t) { algebra(); exchange(); write(1); write(2); if (g.coin()) sweep(1); if (!shape && reg[1]->filled_count() < 40) fill(1, 60, g.coin()); } }
		else for (int t = 0; t < ops / 4; ++t) { products(g.in(1, 2)); write(1); write(2); }
	}
};
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 501);
	int n = 0; const bool vecs = o.mode == "C05";
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 8 : 1); ++k) {
		MINE B<double>(g, 3, 70000, 0).run(o.mode, 24);
		MINE B<double>(g, 70000, 3, 0).run(o.mode, 16);
		MINE B<double>(g, 300, 290, 0).run(o.mode, 24);
		MINE B<float>(g, 66000, 140000, 0).run(o.mode, 12);
		if (!vecs) { MINE B<double>(g, 2, 2000000000, 0).run(o.mode, 20); MINE B<double>(g, 300, 70000, 4294967296ull + 3).run(o.mode, 20); }
		MINE B<std::complex<double> >(g, 260, 66000, 0).run(o.mode, 20);
		MINE B<double>(g, 1, 1000, 0).run(o.mode, 20);
		MINE B<double>(g, 60 + g.below(300), 20 + g.below(300), 0).run(o.mode, o.mode == "C03" ? 6 : 12, 1);
		MINE B<float>(g, 30 + g.below(10), 30 + g.below(10), 0).run(o.mode, o.mode == "C03" ? 6 : 12, 1);
		MINE { B<double> b(g, 300 + g.below(300), 2 + g.below(400), 0); b.run(o.mode, 16, 2); }
		MINE { B<double> b(g, 2 + g.below(300), 300 + g.below(400), 0); b.run(o.mode, 16, 2); }
		if (vecs) { MINE B<double>(g, 1000, 1, 0).run(o.mode, 20); MINE B<double>(g, 66000, 66000, 0).run(o.mode, 8); }
	}
	fclose(g_out);
	return 0;
}
