// Dense and fixed matrices and vectors with many entries (C04 - C08).  All values are whole numbers.
#include "mat.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixConverter.h"
#include <memory>
TRACE_MAIN_GLOBALS
enum { Bad = 2000000001 };
template<class T> ll iv(T x) { double d = (double)x; if (!(std::fabs(d) < 2e9) || d != std::floor(d)) return Bad; return (ll)d; }
ll rv(double d) { double r = std::round(d); if (!(std::fabs(d) < 2e9) || std::fabs(d - r) > 1e-9 * std::max(1.0, std::fabs(d))) return Bad; return (ll)r; }
ll rvf(double d) { double r = std::round(d); if (!(std::fabs(d) < 2e9) || std::fabs(d - r) > 1e-5 * std::max(1.0, std::fabs(d))) return Bad; return (ll)r; }
typedef std::vector<ll> F;
template<class M> F fl(const M& m) { F f; f.reserve(m.size()); for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j) f.push_back(iv(m.at(i, j))); return f; }
template<class V> F flv(const V& v) { F f; for (Index i = 0; i < v.size(); ++i) f.push_back(iv(v.at(i))); return f; }
F rnd(Rng& g, size_t n, int lim, int holes = 0) { F f(n); for (auto& x : f) x = holes && !g.coin(1, holes + 1) ? 0 : g.in(-lim, lim); return f; }
template<class M> void fillM(M& m, const F& f) { size_t k = 0; for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j, ++k) m.set(i, j, (typename M::value_type)f[k]); }
template<class V> void fillV(V& v, const F& f) { for (size_t k = 0; k < f.size(); ++k) v.set(k, (typename V::value_type)f[k]); }
static size_t spot(Rng& g, size_t n) { static const size_t mark[] = {0, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537}; for (int t = 0; t < 3; ++t) { size_t m = mark[g.below(16)]; if (m < n && g.coin()) return m; } return g.coin(1, 4) ? n - 1 : (size_t)g.below((int)n); }
void mat(int o, size_t r, size_t c, const F& f) { Ev("mat").f("o", o).f("r", r).f("c", c).f("f", f).out(); }

// ---- C04
template<class M> void show(int o, M& m) {
	Ev e("show"); F la, si, sj, sv, ri, rj, rv_, ci, cj, cv; const size_t lim = m.size() + 3;
	for (size_t k = 0; k < m.size(); ++k) la.push_back(iv(m.linear_at(k)));
	for (auto it = m.begin(); it != m.end() && sv.size() < lim; ++it) { const auto& x = it; si.push_back(x.row()); sj.push_back(x.column()); sv.push_back(iv(*x)); }
	for (Index i = 0; i < m.rows(); ++i) for (auto it = m.row_begin(i); it != m.row_end(i) && rv_.size() < lim; it++) { const auto& x = it; ri.push_back(x.row()); rj.push_back(x.column()); rv_.push_back(iv(*x)); }
	for (Index j = 0; j < m.columns(); ++j) for (auto it = m.column_begin(j); it != m.column_end(j) && cv.size() < lim; ++it) { const auto& x = it; ci.push_back(x.row()); cj.push_back(x.column()); cv.push_back(iv(*x)); }
	e.f("o", o).f("r", m.rows()).f("c", m.columns()).f("size", m.size()).f("at", fl(m)).f("lat", la).f("si", si).f("sj", sj).f("sv", sv).f("ri", ri).f("rj", rj).f("rv", rv_).f("ci", ci).f("cj", cj).f("cv", cv).out();
}
template<class M> void readM(int o, const M& m) { Ev("read").f("o", o).f("r", m.rows()).f("c", m.columns()).f("at", fl(m)).out(); }
template<class M> void c04(Rng& g, size_t R, size_t C) {
	typedef typename M::value_type T; Ev("reset").out();
	std::unique_ptr<M> a(new M(MakeM<M>::make(R, C))), b(new M(MakeM<M>::make(R, C)));
	F f = rnd(g, R * C, 9), h = rnd(g, R * C, 9); fillM(*a, f); fillM(*b, h); mat(1, R, C, f); mat(2, R, C, h);
	auto touch = [&](int o, M& m) { for (int k = 0; k < 6; ++k) { size_t p = spot(g, R * C), i = p / C, j = p % C; ll v = g.in(-9, 9);
		if (k % 3 == 0) m.set(i, j, (T)v); else if (k % 3 == 1) m.linear_set(p, (T)v); else { auto it = m.row_begin(i); size_t q = std::min<size_t>(j, 300); for (size_t t = 0; t < q; ++t) ++it; j = it.column(); *it = (T)v; }
		Ev("set").f("o", o).f("i", i).f("j", j).f("v", v).out(); } };
	auto cmp = [&](int x, M& p, int y, M& q) { Ev("cmp").f("a", x).f("b", y).f("eq", p == q).f("ne", p != q).out(); };
	show(1, *a); touch(1, *a); show(1, *a);
	{ std::unique_ptr<M> c(new M(*a)); Ev("copy").f("d", 3).f("s", 1).out(); cmp(1, *a, 3, *c); size_t p = spot(g, R * C); ll v = f[p] + 100; c->linear_set(p, (T)v); Ev("set").f("o", 3).f("i", p / C).f("j", p % C).f("v", v).out(); cmp(3, *c, 1, *a); readM(1, *a); readM(3, *c);
		p = R * C - 1; *c = *a; Ev("copy").f("d", 3).f("s", 1).out(); cmp(1, *a, 3, *c); c->linear_set(p, (T)77); Ev("set").f("o", 3).f("i", R - 1).f("j", C - 1).f("v", 77).out(); cmp(1, *a, 3, *c); readM(3, *c); }
	static const char* nm[] = {"add", "sub", "mul"};
	for (int k = 0; k < 3; ++k) { std::unique_ptr<M> d(new M(*a)); std::string e = guarded([&] { if (k == 0) *d = *a + *b; else if (k == 1) *d = *a - *b; else *d = *a * *b; }); Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 3).f("exc", e).f("want", "").out(); readM(3, *d); }
	for (int k = 0; k < 3; ++k) { std::unique_ptr<M> d(new M(*a)); std::string e = guarded([&] { if (k == 0) *d += *b; else if (k == 1) *d -= *b; else *d *= *b; }); Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 3).f("exc", e).f("want", "").out(); readM(3, *d); }
	{ std::unique_ptr<M> d(new M(-*a)); Ev("neg").f("a", 1).f("d", 3).out(); readM(3, *d); *d *= (T)-3; Ev("scal").f("k", "mul").f("side", "r").f("a", 3).f("d", 3).f("v", -3).out(); readM(3, *d); *d = (T)2 * *a; Ev("scal").f("k", "mul").f("side", "l").f("a", 1).f("d", 3).f("v", 2).out(); show(3, *d); *d = *a * (T)3; Ev("scal").f("k", "mul").f("side", "r").f("a", 1).f("d", 3).f("v", 3).out(); readM(3, *d); }
	a->swap(*b); Ev("swap").f("a", 1).f("b", 2).out(); readM(1, *a); show(2, *b);
	{ M d(std::move(*a)); Ev("move").f("d", 3).f("s", 1).out(); readM(3, d); *b = std::move(d); Ev("move").f("d", 2).f("s", 3).out(); readM(2, *b); }
}
// ---- C07
template<class V> void showV(int o, const V& v) { F la, br, it; for (Index i = 0; i < v.size(); ++i) { la.push_back(iv(v.linear_at(i))); br.push_back(iv(v[i])); } for (auto x : v) it.push_back(iv(x)); Ev("showv").f("o", o).f("size", v.size()).f("at", flv(v)).f("lat", la).f("br", br).f("it", it).out(); }
template<class V> void readV(int o, const V& v) { Ev("read").f("o", o).f("r", 1).f("c", v.size()).f("at", flv(v)).out(); }
template<class V> struct Mv { static V make(size_t) { return V(); } };
template<class T> struct Mv<DynamicVector<T> > { static DynamicVector<T> make(size_t n) { return DynamicVector<T>(n); } };
template<class T> void dynV(Rng& g, DynamicVector<T>& a) {
	const size_t n = a.size(); static const char* nm[] = {"left", "right", "mid"};
	for (int k = 0; k < 3; ++k) for (int q = 0; q < 2; ++q) { size_t i = spot(g, n), j = i + 1 + g.below((int)(n - i)); F r = flv(k == 0 ? a.left(i) : k == 1 ? a.right(i) : a.mid(i, j)); Ev("slice").f("o", 1).f("k", nm[k]).f("i", i).f("j", j).f("r", r).out(); }
	{ DynamicVector<T> c = a; Ev("copy").f("d", 4).f("s", 1).out(); size_t m = n / 2 + 1; c.resize(m); Ev("resize").f("o", 4).f("n", m).out(); readV(4, c); c.resize(n + 9); Ev("resize").f("o", 4).f("n", n + 9).out(); showV(4, c);
		std::string e = guarded([&] { c += a; }); Ev("bin").f("k", "add").f("a", 4).f("b", 1).f("d", 4).f("exc", e).f("want", "VectorSizeMismatch").out(); readV(4, c); c.fill((T)-7); Ev("fillv").f("o", 4).f("v", -7).out(); readV(4, c); }
}
template<class V> void dynV(Rng&, V&) {}
template<class V> void c07(Rng& g, size_t n) {
	typedef typename V::value_type T; Ev("reset").out(); const bool flt = sizeof(T) == 4;
	V a = Mv<V>::make(n), b = a, c = a; F f = rnd(g, n, 5), h = rnd(g, n, 5), s(n); for (auto& x : s) x = g.coin() ? 1 : -1;
	fillV(a, f); fillV(b, h); fillV(c, s); mat(1, 1, n, f); mat(2, 1, n, h); mat(3, 1, n, s); showV(1, a);
	for (int k = 0; k < 8; ++k) { size_t i = spot(g, n); ll v = g.in(-5, 5); if (k % 3 == 0) a.set(i, (T)v); else if (k % 3 == 1) a[i] = (T)v; else a.linear_set(i, (T)v); Ev("set").f("o", 1).f("i", 0).f("j", i).f("v", v).out(); }
	readV(1, a);
	static const char* nm[] = {"add", "sub", "mul"};
	for (int k = 0; k < 3; ++k) { V d = k == 0 ? a + b : k == 1 ? a - b : a * b; Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 4).f("exc", "ok").f("want", "").out(); readV(4, d); }
	for (int k = 0; k < 3; ++k) { V d = a; if (k == 0) d += b; else if (k == 1) d -= b; else d *= b; Ev("bin").f("k", nm[k]).f("a", 1).f("b", 2).f("d", 4).f("exc", "ok").f("want", "").out(); readV(4, d); }
	for (int k = 0; k < 9; ++k) { T x = (T)g.in(-4, 4); V d = a; switch (k) { case 0: d += x; break; case 1: d -= x; break; case 2: d *= x; break; case 3: d = a + x; break; case 4: d = a - x; break; case 5: d = a * x; break; case 6: d = x + a; break; case 7: d = x - a; break; default: d = x * a; }
		Ev("scal").f("k", nm[k % 3]).f("side", k >= 6 ? "l" : "r").f("a", 1).f("d", 4).f("v", iv(x)).out(); readV(4, d); }
	{ V d = a / c; Ev("div").f("a", 1).f("b", 3).f("d", 4).out(); readV(4, d); d = a; d /= c; Ev("div").f("a", 1).f("b", 3).f("d", 4).out(); readV(4, d); d = c; d.do_reciprocal(); Ev("copy").f("d", 4).f("s", 3).out(); readV(4, d); d = a / (T)-1; Ev("neg").f("a", 1).f("d", 4).out(); readV(4, d); d = -a; readV(4, d); d = (T)-1 / c; Ev("neg").f("a", 3).f("d", 4).out(); readV(4, d); }
	{ const double m = a.mag(); if (!flt) Ev("dot").f("a", 1).f("b", 2).f("r", iv(a.dot(b))).f("sq", iv(a.magSqr())).f("m2", rv(m * m)).out(); else if (n <= 1100) Ev("dot").f("a", 1).f("b", 2).f("r", iv(a.dot(b))).f("sq", iv(a.magSqr())).f("m2", rvf(m * m)).out(); }
	{ V d = a; Ev("copy").f("d", 4).f("s", 1).out(); auto cmp = [&] { Ev("cmp").f("a", 1).f("b", 4).f("eq", a == d).f("ne", a != d).out(); }; cmp(); size_t i = spot(g, n); d[i] += (T)1; Ev("set").f("o", 4).f("i", 0).f("j", i).f("v", iv(d.at(i))).out(); cmp(); d = a; Ev("copy").f("d", 4).f("s", 1).out(); d[n - 1] += (T)1; Ev("set").f("o", 4).f("i", 0).f("j", n - 1).f("v", iv(d.at(n - 1))).out(); cmp();
		d[spot(g, n)] = (T)55; for (size_t q = 0; q < n; ++q) if (d.at(q) == (T)55) { Ev("set").f("o", 4).f("i", 0).f("j", q).f("v", 55).out(); for (int k = 0; k < 4; ++k) { size_t s0 = k == 0 ? 0 : k == 1 ? q : k == 2 ? q + 1 : q / 2, e0 = k == 0 ? q : k == 3 ? q + 1 : n; Ev("has").f("o", 4).f("i", s0).f("j", e0).f("v", 55).f("r", d.has(s0, e0, (T)55)).out(); } break; } }
	a.swap(b); Ev("swap").f("a", 1).f("b", 2).out(); readV(1, a); showV(2, b);
	dynV(g, a);
}
// ---- C06
template<class X> void putAgg(int o, X& m, size_t n, bool hole, ll nan, ll inf, ll zero, int empty, bool flt) {
	Ev e("agg"); e.f("o", o).f("hole", hole).f("sum", iv(m.sum())).f("total", flt ? rvf((double)m.avg() * (double)n) : rv((double)m.avg() * (double)n)).f("max", iv(m.max())).f("min", iv(m.min())).f("nan", nan != 0).f("inf", inf != 0).f("zero", zero != 0);
	if (empty >= 0) e.f("empty", empty == 1); e.out();
}
template<class M> void c06m(Rng& g, size_t R, size_t C, int how) {
	typedef typename M::value_type T; const bool flt = sizeof(T) == 4; Ev("reset").out(); M m = MakeM<M>::make(R, C); const size_t n = R * C;
	F f = how == 0 ? rnd(g, n, flt ? 3 : 9) : how == 1 ? rnd(g, n, 4, 20) : F(n, how == 2 ? -3 : 2); if (how == 2) f[spot(g, n)] = -1 - g.below(2) * 8; if (how == 3) f[spot(g, n)] = g.coin() ? 0 : 7; if (how == 4) f.assign(n, 0); if (how == 5) { f.assign(n, 0); f[n - 1] = g.coin() ? 4 : -4; }
	fillM(m, f); mat(1, R, C, f); putAgg(1, m, n, false, m.has_nan(), m.has_inf(), m.has_zero(), m.empty(), flt);
	for (int s = 0; s < 2; ++s) { size_t p = s ? n - 1 : spot(g, n); T x = s ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN(); M c = m; c.set(p / C, p % C, g.coin() ? x : -x); Ev("aggs").f("o", 1).f("at", p).f("put", s ? "inf" : "nan").f("nan", c.has_nan()).f("inf", c.has_inf()).f("zero", c.has_zero()).out(); }
}
template<class T> void c06sparse(Rng& g, size_t R, size_t C, int cnt) {      // few entries, all of them listed
	Ev("reset").out(); SparseMatrix<T> m(R, C); F f; std::map<std::pair<size_t, size_t>, ll> z; int sg = g.in(0, 2);
	for (int k = 0; k < cnt; ++k) z[std::make_pair(spot(g, R), spot(g, C))] = sg == 0 ? -g.in(1, 9) : sg == 1 ? g.in(1, 9) : (g.coin() ? 1 : -1) * g.in(1, 9);
	for (auto& p : z) { m.set(p.first.first, p.first.second, (T)p.second); f.push_back(p.second); }
	mat(1, 1, f.size(), f); const double n = (double)R * (double)C;
	Ev("agg").f("o", 1).f("hole", true).f("sum", iv(m.sum())).f("total", rv((double)m.avg() * n)).f("max", iv(m.max())).f("min", iv(m.min())).f("nan", m.has_nan()).f("inf", m.has_inf()).f("zero", m.has_zero()).f("empty", m.empty()).out();
	m.set(R - 1, C - 1, std::numeric_limits<T>::quiet_NaN()); Ev("aggs").f("o", 1).f("at", -1).f("put", "nan").f("nan", m.has_nan()).f("inf", m.has_inf()).f("zero", !m.has_zero()).out();
}
template<class V> void c06v(Rng& g, size_t n, int how) {
	typedef typename V::value_type T; const bool flt = sizeof(T) == 4; Ev("reset").out(); V v = Mv<V>::make(n);
	F f = how == 0 ? rnd(g, n, flt ? 3 : 9) : how == 1 ? rnd(g, n, 4, 20) : F(n, how == 2 ? -3 : 2); if (how == 2) f[spot(g, n)] = -1 - g.below(2) * 8; if (how >= 3) f[spot(g, n)] = g.coin() ? 0 : 7;
	fillV(v, f); mat(1, 1, n, f); putAgg(1, v, n, false, v.hasNaN() != 0, v.hasInf(), v.hasZero(), -1, flt);
	for (int s = 0; s < 2; ++s) { size_t p = s ? n - 1 : spot(g, n); T x = s ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN(); V c = v; c.set(p, g.coin() ? x : -x); Ev("aggs").f("o", 1).f("at", p).f("put", s ? "inf" : "nan").f("nan", c.hasNaN() != 0).f("inf", (bool)c.hasInf()).f("zero", c.hasZero()).out(); }
}
// ---- C05
template<class M> void c05(Rng& g, size_t R, size_t C, size_t D, bool square) {
	typedef typename M::value_type T; Ev("reset").out(); F f = rnd(g, R * C, 5, 1), h = rnd(g, C * D, 5, 1); M a = MakeM<M>::make(R, C), b = MakeM<M>::make(C, D); fillM(a, f); fillM(b, h); mat(1, R, C, f); mat(2, C, D, h);
	{ M t = a.transpose(), ad = a.adjugate(); M c = a.conjugate(); Ev("trans").f("o", 1).f("r", t.rows()).f("c", t.columns()).f("f", fl(t)).f("a", fl(ad)).f("conj", fl(c)).f("tr", iv(a.trace())).out(); }
	auto out = [&](int x, int y, const std::string& e, size_t r, size_t c, const F& q) { Ev("mul").f("a", x).f("b", y).f("exc", e).f("r", r).f("c", c).f("f", q).out(); };
	M r = MakeM<M>::make(1, 1); std::string e = guarded([&] { r = a.mul(b); }); out(1, 2, e, r.rows(), r.columns(), fl(r)); e = guarded([&] { r = a.mul(a); }); if (!square) out(1, 1, e, r.rows(), r.columns(), fl(r));
	F x = rnd(g, C, 5), y = rnd(g, R, 5); DynamicVector<T> u(C), v(R), s; fillV(u, x); fillV(v, y); mat(3, C, 1, x); mat(4, 1, R, y);
	e = guarded([&] { s = a.mul(u); }); out(1, 3, e, s.size(), 1, flv(s)); e = guarded([&] { s = a.mul_left(v); }); out(4, 1, e, 1, s.size(), flv(s));
	readM(1, a); readM(2, b);
}
// ---- C08
template<template<typename> class M, class T> void c08(Rng& g, size_t R, size_t C) {
	typedef M<T> X; Ev("reset").out(); F f = rnd(g, R * C, 9, 1); X a = MakeM<X>::make(R, C); fillM(a, f); mat(1, R, C, f);
	{ X e = Construct::eye<M, T>(R, C); F one(R, 1); Ev("eye").f("r", e.rows()).f("c", e.columns()).f("d", one).f("f", fl(e)).out(); }
	if (R <= 300) { F v = rnd(g, R, 9); DynamicVector<T> d(R); fillV(d, v); X e = Construct::diag<M, T>(d); Ev("eye").f("r", e.rows()).f("c", e.columns()).f("d", v).f("f", fl(e)).out(); }
	{ auto d = Construct::diag<M, T>(a); Ev("diagof").f("o", 1).f("f", flv(d)).out(); }
	for (int k = 0; k < 4; ++k) { int o = k == 0 ? 0 : k == 1 ? -(int)spot(g, R) : k == 2 ? (int)spot(g, C) : g.in(-3, 3); X lo = Construct::tril<M, T>(a, o), up = Construct::triu<M, T>(a, o); Ev("tri").f("o", 1).f("off", o).f("r", lo.rows()).f("c", up.columns()).f("l", fl(lo)).f("u", fl(up)).out(); }
}
template<class T> void conv(Rng& g, size_t R, size_t C, int holes) { Ev("reset").out(); F f = rnd(g, R * C, 9, holes); DenseMatrix<T> d(R, C); fillM(d, f); mat(1, R, C, f); SparseMatrix<T> s = Convert::toSparseMatrix(d); DenseMatrix<T> b = Convert::toDenseMatrix(s); Ev("conv").f("o", 1).f("r", s.rows()).f("c", b.columns()).f("s", fl(s)).f("d", fl(b)).f("n", s.filled_count()).out(); }
template<class M> void hilb(size_t n, const M& h) { F q; for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) q.push_back(rv(1.0 / h.at(i, j))); Ev("hilb").f("n", n).f("q", q).out(); }
template<class M> void pred(Rng& g, size_t n, int how) {
	Ev("reset").out(); F f(n * n, 0); auto at = [&](size_t i, size_t j) -> ll& { return f[i * n + j]; };
	if (how == 0 || how == 1) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { ll v = g.coin() ? g.in(-4, 4) : 0; at(i, j) = v; at(j, i) = how ? -v : v; if (i == j && how) at(i, i) = 0; }
	else if (how == 2) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[g.below((int)k)]); for (size_t i = 0; i < n; ++i) at(i, p[i]) = g.coin() ? 1 : -1; }
	else { for (size_t i = 0; i < n; ++i) { at(i, i) = i % 2; if (i % 2 == 0) for (int t = 0; t < 3; ++t) { size_t j = g.below((int)n); if (j % 2) at(i, j) = g.in(-2, 2); } } }      // [0 B; 0 I]
	for (int k = 0; k < 2; ++k) {
		M m = MakeM<M>::make(n, n); fillM(m, f); mat(1, n, n, f);
		Ev("pred").f("o", 1).f("sym", Check::matrixIsSymmetric(m)).f("her", Check::matrixIsHermitian(m)).f("ssym", Check::matrixIsSkewSymmetric(m)).f("sher", Check::matrixIsSkewHermitian(m)).f("orth", Check::matrixIsOrthogonal(m)).f("unit", Check::matrixIsUnitary(m)).f("proj", Check::matrixIsProjection(m)).out();
		if (g.coin()) at(n - 1, g.below((int)n - 1)) += 1; else if (g.coin()) at(g.below((int)n - 1), n - 1) -= 1; else { size_t i = g.below((int)n), j = g.below((int)n); at(i, j) += i == j ? 2 : 1; }
	}
}
// ---- C29: squares
template<class M> void c29(Rng& g, size_t R, size_t C, int how) {
	typedef typename M::value_type T; Ev("reset").out(); M m = MakeM<M>::make(R, C); F f(R * C); for (auto& x : f) x = how == 0 ? g.in(-9, 9) : how == 1 ? (g.coin() ? 5 : -5) : g.in(2, 4); for (size_t i = 0; i < R; ++i) { f[i * C + spot(g, C)] = how == 1 ? 7 : -9; if (how) f[i * C + spot(g, C)] = g.coin() ? -1 : 1; }
	fillM(m, f); mat(1, R, C, f); const T mx = Operations::max_norm2(m), mn = Operations::min_norm2(m), cd = Operations::cond(m); auto q = [](T x) { return sizeof(T) == 4 ? rvf((double)x) : rv((double)x); };
	Ev("norm").f("o", 1).f("sp", std::string(MakeM<M>::kind()) == "sparse").f("max", q(mx * mx)).f("min", q(mn * mn)).f("cm", mn > 0 ? q(cd * mn * cd * mn) : -1).out(); readM(1, m);
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 901);
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 6 : 1); ++k) {
		if (o.mode == "C04") { MINE c04<DenseMatrix<double> >(g, 290, 260); MINE c04<DenseMatrix<double> >(g, 1, 66000); MINE c04<DenseMatrix<double> >(g, 66000, 1); MINE c04<DenseMatrix<float> >(g, 30, 40); MINE c04<FixedMatrix<double, 260, 3> >(g, 260, 3); MINE c04<FixedMatrix<double, 2, 300> >(g, 2, 300); MINE c04<DenseMatrix<double> >(g, 17, 33); MINE c04<DenseMatrix<double> >(g, 64, 64); MINE c04<DenseMatrix<float> >(g, 300, 230); }
		if (o.mode == "C05") for (int q = 0; q < 2; ++q) { MINE c05<DenseMatrix<double> >(g, 70, 300, 20, false); MINE c05<DenseMatrix<double> >(g, 300, 20, 33, false); MINE c05<SparseMatrix<double> >(g, 40, 130, 20, false); MINE c05<DenseMatrix<float> >(g, 33, 34, 35, false); MINE c05<DenseMatrix<double> >(g, 64, 64, 64, true); MINE c05<SparseMatrix<double> >(g, 33, 33, 17, true); if (q == 0) { MINE c05<DenseMatrix<double> >(g, 1, 66000, 1, false); MINE c05<DenseMatrix<double> >(g, 66000, 1, 2, false); } else { MINE c05<DenseMatrix<double> >(g, 17, 18, 260, false); MINE c05<DenseMatrix<double> >(g, 260, 280, 1, false); } }
		if (o.mode == "C06") for (int h = 0; h <= 5; ++h) { MINE c06m<DenseMatrix<double> >(g, h % 2 ? 300 : 1, h % 2 ? 221 : 66000, h); MINE c06m<SparseMatrix<double> >(g, h % 2 ? 40 : 30, h % 2 ? 30 : 1000, h); MINE c06m<DenseMatrix<float> >(g, 30, 40, h); MINE c06m<FixedMatrix<double, 20, 20> >(g, 20, 20, h); MINE c06sparse<double>(g, h % 2 ? 66000 : 300, h % 2 ? 300 : 70000, 40); MINE c06sparse<double>(g, h % 2 ? 60000 : 40000, 70000, 30); if (h < 4) { MINE c06v<DynamicVector<double> >(g, 66000, h); MINE c06v<DynamicVector<float> >(g, 1000, h); MINE c06v<DynamicVector<double> >(g, 100 + 70 * h, h); MINE c06v<FixedVector<double, 300> >(g, 300, h); } }
		if (o.mode == "C07") { MINE c07<DynamicVector<double> >(g, 66000); MINE c07<DynamicVector<double> >(g, 300); MINE c07<DynamicVector<double> >(g, 131075); MINE c07<DynamicVector<float> >(g, 1000); MINE c07<FixedVector<double, 270> >(g, 270); MINE c07<DynamicVector<double> >(g, 33); MINE c07<DynamicVector<double> >(g, 64); MINE c07<FixedVector<double, 32> >(g, 32); MINE c07<DynamicVector<float> >(g, 66000); }
		if (o.mode == "C29") for (int h = 0; h < 3; ++h) { MINE c29<DenseMatrix<double> >(g, 290, 220, h); MINE c29<DenseMatrix<double> >(g, h % 2 ? 1 : 2, 33000, h); MINE c29<DenseMatrix<double> >(g, 66000, h + 1, h); MINE c29<SparseMatrix<double> >(g, 40, 60 + 70 * h, h); MINE c29<DenseMatrix<float> >(g, 20, 33, h); MINE c29<FixedMatrix<double, 20, 20> >(g, 20, 20, h); MINE c29<DenseMatrix<double> >(g, 17 * (h + 1), 64, h); }
		if (o.mode == "C08") { MINE c08<DenseMatrix, double>(g, 290, 250); MINE c08<SparseMatrix, double>(g, 60, 90); MINE c08<DenseMatrix, double>(g, 2, 33000); MINE c08<DenseMatrix, float>(g, 33, 20); MINE c08<SparseMatrix, double>(g, 20, 300); MINE c08<SparseMatrix, double>(g, 1, 700); MINE conv<double>(g, 300, 260, 3); MINE conv<double>(g, 2, 66000, 60); MINE conv<float>(g, 40, 70, 2); MINE conv<double>(g, 66000, 1, 60);
			MINE { Ev("reset").out(); for (size_t d : {17, 33, 70}) { hilb(d, Construct::hilbert<DenseMatrix, double>(d)); hilb(d, Construct::hilbert<SparseMatrix, double>(d)); } }
			for (int h = 0; h < 4; ++h) { MINE pred<DenseMatrix<double> >(g, h % 2 ? 60 : 33, h); MINE pred<SparseMatrix<double> >(g, h % 2 ? 20 : 40, h); MINE pred<DenseMatrix<float> >(g, 17, h); MINE pred<DenseMatrix<double> >(g, h % 2 ? 16 : 100, h); } }
	}
	fclose(g_out);
	return 0;
}
