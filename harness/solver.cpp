// Stationary iterations (C13) and conjugate gradients (C14).
#include <fstream>
#include "mat.h"
#include "Iterative.h"
#include "CG.h"
#ifdef NS_ALLOW_CHECKS
enum { CKSEED = 400 };
#else
enum { CKSEED = 0 };
#endif
TRACE_MAIN_GLOBALS
typedef std::complex<double> cd; typedef std::complex<float> cf;

// ---------------------------------------------------------------- exact rationals, used only to choose operands whose iterates stay small
typedef __int128 LL;
static LL g128(LL a, LL b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { LL t = a % b; a = b; b = t; } return a; }
struct Q { // (a + b i) / d
	LL a, b, d; bool big;
	Q(LL x = 0) : a(x), b(0), d(1), big(false) {}
	Q(const Num& n) : a(n.a), b(n.b), d(n.d), big(false) {}
	Q norm() const { Q r = *this; LL g = g128(g128(a, b), d); if (g > 1) { r.a /= g; r.b /= g; r.d /= g; } if (r.d < 0) { r.a = -r.a; r.b = -r.b; r.d = -r.d; }
		const LL lim = 1000000000; auto A = [](LL x) { return x < 0 ? -x : x; }; if (A(r.a) > lim || A(r.b) > lim || r.d > lim) { r.big = true; r.a = r.b = 1; r.d = 1; } return r; }
};
static Q mk(LL a, LL b, LL d, bool big) { Q r; r.a = a; r.b = b; r.d = d; r.big = big; return r.norm(); }
static Q operator+(Q x, Q y) { return mk(x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, x.d * y.d, false).big || x.big || y.big ? [&] { Q r; r.big = true; return r; }() : mk(x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, x.d * y.d, false); }
static Q operator-(Q x) { x.a = -x.a; x.b = -x.b; return x; }
static Q operator-(Q x, Q y) { return x + (-y); }
static Q operator*(Q x, Q y) { Q r = mk(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a, x.d * y.d, false); r.big = r.big || x.big || y.big; return r; }
static Q operator/(Q x, Q y) { LL n = y.a * y.a + y.b * y.b; if (n == 0) { Q r; r.big = true; return r; } Q r = mk((x.a * y.a + x.b * y.b) * y.d, (x.b * y.a - x.a * y.b) * y.d, x.d * n, false); r.big = r.big || x.big || y.big; return r; }
static Q sq(Q x) { Q c = x; c.b = -c.b; return x * c; }
typedef std::vector<Q> QV; typedef std::vector<QV> QM;
static QM qm(const NM& m) { QM r; for (auto& x : m) r.push_back(QV(x.begin(), x.end())); return r; }
static QV qv(const NV& v) { return QV(v.begin(), v.end()); }
static bool within(const QV& v, LL num, LL den) { for (auto& x : v) { if (x.big || x.d > den) return false; LL a = x.a < 0 ? -x.a : x.a, b = x.b < 0 ? -x.b : x.b; if (a > num || b > num) return false; } return true; }
static double dbl(Q x) { return (double)x.a / (double)x.d; }

static QV sweep(const QM& A, const QV& b, const QV& x, bool sor, Q w) {
	QV y = x; const size_t n = A.size();
	for (size_t i = 0; i < n; ++i) { Q t = b[i]; for (size_t j = 0; j < n; ++j) if (j != i) t = t - A[i][j] * (sor && j < i ? y[j] : x[j]); t = t / A[i][i]; y[i] = sor ? (Q(1) - w) * x[i] + w * t : t; }
	return y;
}
static double rd(const Num& n) { return (double)n.a / n.d; }
// The matrix, the unknowns and the preconditioner may be multiplied by powers of two: exactly the same iteration then takes place.
static double SA = 1, SX = 1, SCC = 1;
template<class T> void pickScales(Rng& g) { const bool flt = sizeof(typename Mk<T>::real) == 4; SA = SX = SCC = 1; if (g.coin()) return;
	double* s[] = {&SA, &SX, &SCC}; for (double* p : s) if (g.coin()) *p = std::ldexp(1.0, flt ? g.in(-6, 10) : g.in(-24, 30)); }
template<class M> M ofA(const NM& a) { Scale s(SA); return of<M>(a); }
template<class M> M ofC(const NM& a) { Scale s(SCC); return of<M>(a); }
template<class M> NM contA(const M& a) { Scale s(SA); return cont(a); }
template<class M> NM contC(const M& a) { Scale s(SCC); return cont(a); }
template<class V> void putB(V& v, const NV& b) { Scale s(SA * SX); putv(v, b); }
template<class V> void putX(V& v, const NV& b) { Scale s(SX); putv(v, b); }
template<class V> NV contB(const V& v) { Scale s(SA * SX); return contv(v); }
template<class V> NV contX(const V& v) { Scale s(SX); return contv(v); }

template<class M, class V> void stationary(const char* kind, bool sor, const NM& a, const NV& b, const NV& x0, Num w, int maxIter, Num eps, V vb, V vx, bool noStat) {
	M A = ofA<M>(a); putB(vb, b); putX(vx, x0);
	size_t st = 77777; V r = vx;
	std::string e = guarded([&] { if (sor) r = Iterative::serial::sor(A, vb, vx, rd(w), maxIter, rd(eps) * SX, noStat ? nullptr : &st); else r = Iterative::serial::jacobi(A, vb, vx, maxIter, rd(eps) * SX, noStat ? nullptr : &st); });
	Ev ev("it"); ev.f("k", kind).f("sor", sor).f("a", a).f("b", b).f("x0", x0).f("w", w).f("max", maxIter).f("eps", eps).f("exc", e).f("aa", contA(A)).f("ab", contB(vb)).f("ax", contX(vx));
	if (e == "ok") { ev.f("x", contX(r)); if (!noStat) ev.f("n", st); }
	ev.out();
}
template<class M, class V> void jacOnly(const char* kind, const NM& a, const NV& b, const NV& x0, int maxIter, Num eps, V vb, V vx) {
	M A = ofA<M>(a); putB(vb, b); putX(vx, x0); size_t st = 77777; V r = vx;
	std::string e = guarded([&] { r = Iterative::serial::jacobi(A, vb, vx, maxIter, rd(eps) * SX, &st); });
	Ev ev("it"); ev.f("k", kind).f("sor", false).f("a", a).f("b", b).f("x0", x0).f("w", Num{1, 0, 1}).f("max", maxIter).f("eps", eps).f("exc", e).f("aa", contA(A)).f("ab", contB(vb)).f("ax", contX(vx));
	if (e == "ok") ev.f("x", contX(r)).f("n", st);
	ev.out();
}
template<class T> void c13(Rng& g, int n, int reps, int kinds) {
	static const int ds[] = {1, -1, 2, -2, 4, 1, 2};
	static const Num ws[] = {{1, 0, 1}, {1, 0, 2}, {3, 0, 2}, {2, 0, 1}, {5, 0, 4}, {1, 0, 1}, {0, 0, 1}};
	static const Num es[] = {{0, 0, 1}, {1, 0, 1}, {1, 0, 2}, {1, 0, 4}, {2, 0, 1}, {5, 0, 1}, {1, 0, 8}, {13, 0, 1}};
	const bool flt = sizeof(typename Mk<T>::real) == 4;
	Ev("reset").out();
	for (int r = 0, tries = 0; r < reps && tries < reps * 200; ++tries) {
		int fill = g.in(0, 3);
		NM a = rmat<T>(g, n, n, 2, fill, 4);
		for (int i = 0; i < n; ++i) { a[i][i] = Num{ds[g.below(7)], 0, 1}; if (Mk<T>::cplx && g.coin(1, 3)) a[i][i] = Num{0, g.coin() ? 1 : -2, 1}; }
		if (g.coin(1, 4)) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) a[i][j] = Num{0, 0, 1};        // converges in finitely many sweeps
		NV b = rvec<T>(g, n, 4), x0 = rvec<T>(g, n, 3);
		if (g.coin(1, 4)) for (auto& x : x0) x = Num{0, 0, 1};
		if (g.coin(1, 8)) { QM A = qm(a); for (int i = 0; i < n; ++i) { Q s = 0; for (int j = 0; j < n; ++j) s = s + A[i][j] * Q(x0[j]); b[i] = Num{(ll)s.a, (ll)s.b, (ll)s.d}; } }      // starts at the solution
		bool sor = g.coin(); Num w = ws[g.below(7)], eps = es[g.below(8)]; int mx = g.coin(1, 12) ? 0 : g.in(1, 6);
		if (flt && mx) { mx = g.in(1, 3); }
		bool zd = mx && g.coin(1, 10);
		if (zd) { int i = g.below(n); a[i][i] = Num{0, 0, 1}; if (g.coin(1, 4)) b[i] = Num{0, 0, 1}; }
		else { // small exact iterates
			QM A = qm(a); QV x = qv(x0), qb = qv(b); bool ok = true; int k = 0;
			for (; k < mx && ok; ++k) { QV y = sweep(A, qb, x, sor, Q(w)); Q d = 0; for (int i = 0; i < n; ++i) d = d + sq(y[i] - x[i]); x = y; ok = within(x, flt ? 300 : 3000, flt ? 16 : 256) && within(QV(1, d), 8000000, 65536); if (ok && dbl(d) <= rd(eps) * rd(eps)) break; }
			if (!ok) continue;
		}
		++r;
		pickScales<T>(g);
		const int kind = g.below(kinds);
		const bool ns = g.coin(1, 10);
		typedef DynamicVector<T> DV;
		if (kind == 0) stationary<SparseMatrix<T>, DV>("sparse", sor, a, b, x0, w, mx, eps, DV(n), DV(n), ns);
		else if (kind == 1) stationary<DenseMatrix<T>, DV>("dense", sor, a, b, x0, w, mx, eps, DV(n), DV(n), ns);
		else if (n == 2) stationary<FixedMatrix<T, 2, 2>, FixedVector<T, 2> >("fixed", sor, a, b, x0, w, mx, eps, FixedVector<T, 2>(), FixedVector<T, 2>(), ns);
		else if (n == 3) stationary<FixedMatrix<T, 3, 3>, FixedVector<T, 3> >("fixed", sor, a, b, x0, w, mx, eps, FixedVector<T, 3>(), FixedVector<T, 3>(), ns);
	}
}
template<class T> void c13jac(Rng& g, int n, int reps) {
	Ev("reset").out();
	static const Num es[] = {{0, 0, 1}, {1, 0, 1}, {1, 0, 2}, {2, 0, 1}, {3, 0, 1}};
	for (int r = 0, tries = 0; r < reps && tries < 100 * reps; ++tries) {
		NM a = rmat<T>(g, n, n, 2, 2, 4); for (int i = 0; i < n; ++i) a[i][i] = Num{g.coin() ? 1 : -2, 0, 1};
		NV b = rvec<T>(g, n, 4), x0 = rvec<T>(g, n, 3); int mx = g.in(0, 3); Num eps = es[g.below(5)];
		QM A = qm(a); QV x = qv(x0), qb = qv(b); bool ok = true;
		for (int k = 0; k < mx && ok; ++k) { x = sweep(A, qb, x, false, 1); ok = within(x, 300, 16); }
		if (!ok) continue; ++r;
		typedef DynamicVector<T> DV; pickScales<T>(g);
		if (g.coin()) jacOnly<SparseMatrix<T>, DV>("sparse", a, b, x0, mx, eps, DV(n), DV(n)); else jacOnly<DenseMatrix<T>, DV>("dense", a, b, x0, mx, eps, DV(n), DV(n));
	}
}
template<class T> void c13bad(Rng& g, int reps) {
	Ev("reset").out();
	typedef DynamicVector<T> DV; SA = SX = SCC = 1;
	for (int k = 0; k < reps; ++k) {
		int r = g.in(1, 3), c = g.coin() ? r : g.in(1, 3), v = g.coin() ? r : g.in(1, 4), x = g.coin() ? r : g.in(1, 4);
		NM a = rmat<T>(g, r, c, 2); for (int i = 0; i < std::min(r, c); ++i) a[i][i] = Num{1, 0, 1};
		if (r == c && v == r && x == r) v++;
		NV b = rvec<T>(g, v, 3), x0 = rvec<T>(g, x, 3);
		if (g.coin()) stationary<SparseMatrix<T>, DV>("sparse", g.coin(), a, b, x0, Num{1, 0, 1}, 2, Num{1, 0, 1}, DV(v), DV(x), false);
		else stationary<DenseMatrix<T>, DV>("dense", g.coin(), a, b, x0, Num{1, 0, 1}, 2, Num{1, 0, 1}, DV(v), DV(x), false);
	}
}

// ---------------------------------------------------------------- C14
static Num den5(double x) { return rat(x / SX, 60000, 2e-11); }
static Num den5(float x) { return rat(x / SX, 60, 3e-5); }
template<class V> NV contq(const V& v) { NV r; for (Index i = 0; i < v.size(); ++i) r.push_back(den5(v.at(i))); return r; }
static QV matv(const QM& A, const QV& v) { QV r(A.size()); for (size_t i = 0; i < A.size(); ++i) { Q s = 0; for (size_t j = 0; j < v.size(); ++j) s = s + A[i][j] * v[j]; r[i] = s; } return r; }
static Q qdot(const QV& a, const QV& b) { Q s = 0; for (size_t i = 0; i < a.size(); ++i) s = s + a[i] * b[i]; return s; }
static bool primitiveSmall(QV v, LL lim) { LL l = 1; for (auto& x : v) { if (x.big) return false; l = l / g128(l, x.d) * x.d; if (l > 100000) return false; } LL g = 0; for (auto& x : v) g = g128(g, x.a * (l / x.d)); if (g == 0) return true; for (auto& x : v) { LL y = x.a * (l / x.d) / g; if (y > lim || y < -lim) return false; } return true; }
// chooses systems whose exact iterates are small rationals and whose unconverged residuals are clearly not zero
static bool goodSystem(const NM& a, const NM& c, const NV& b, const NV& x0, bool pre, bool flt) {
	QM A = qm(a), C = qm(c); QV x = qv(x0), r = qv(b), t = matv(A, x); const size_t n = a.size();
	for (size_t i = 0; i < n; ++i) r[i] = r[i] - t[i];
	QV z = pre ? matv(C, r) : r, p = z, kr = z; Q l = qdot(r, z);
	const LL lim = n <= 3 ? 300 : 60;
	for (size_t k = 0; k <= n; ++k) {
		Q rr = qdot(r, r); if (rr.big) return false; if (rr.a == 0) return true;
		if (dbl(rr) < 1e-5) return false;
		if (!within(x, flt ? 400 : 9000, flt ? 30 : 6000) || !within(r, 60000, 6000) || !primitiveSmall(kr, lim)) return false;
		t = matv(A, p); Q pt = qdot(p, t); if (pt.a == 0 || pt.big) return false;
		Q al = l / pt; for (size_t i = 0; i < n; ++i) { x[i] = x[i] + al * p[i]; r[i] = r[i] - al * t[i]; }
		z = pre ? matv(C, r) : r; Q l2 = qdot(r, z); Q be = l2 / l; for (size_t i = 0; i < n; ++i) p[i] = z[i] + be * p[i]; l = l2;
		kr = matv(A, kr); if (pre) kr = matv(C, kr);
	}
	return false;
}
template<class M, class V> void cgRun(Rng& g, const char* kind, bool pre, const NM& a, const NM& c, const NV& b, const NV& x0, V vb, V vx) {
	typedef typename M::value_type T;
	const int n = a.size();
	static const Num es[] = {{1, 0, 1}, {1, 0, 2}, {1, 0, 4}, {2, 0, 1}, {3, 0, 1}, {6, 0, 1}, {1, 0, 8}};
	const double tiny = sizeof(T) == 4 ? 2e-3 : 1e-6;
	M A = ofA<M>(a), C = ofC<M>(c); putB(vb, b); putX(vx, x0);
	auto call = [&](int mx, double eps, size_t* st, V& r) { return guarded([&] { if (pre) r = CG::serial::pcg(A, vb, C, vx, mx, eps * SA * SX, st); else r = CG::serial::cg(A, vb, vx, mx, eps * SA * SX, st); }); };
	std::vector<NV> xs; std::vector<unsigned long> ns; std::vector<std::string> ex;
	for (int k = 0; k <= n + 2; ++k) { size_t st = 77777; V r = vx; ex.push_back(call(k, tiny, &st, r)); xs.push_back(contq(r)); ns.push_back(st); }
	std::string runs = "[";
	for (int q = 0; q < 3; ++q) { Num e = es[g.below(7)]; int mx = g.in(0, n + 1); size_t st = 77777; V r = vx; std::string x = call(mx, rd(e), &st, r);
		runs += std::string(q ? "," : "") + "{\"max\":" + js(mx) + ",\"eps\":" + js(e) + ",\"exc\":" + js(x) + ",\"n\":" + js(st) + ",\"x\":" + js(contq(r)) + "}"; }
	{ V r = vx; std::string x = call(n + 1, tiny, nullptr, r); if (x != "ok") ex.push_back(x); else if (js(contq(r)) != js(xs.back())) ex.push_back("differs without counter"); }
	Ev("cg").f("k", kind).f("pre", pre).f("a", a).f("b", b).f("c", c).f("x0", x0).f("xs", xs).f("ns", ns).f("exc", ex).raw("runs", runs + "]").f("aa", contA(A)).f("ac", contC(C)).f("ab", contB(vb)).f("ax", contX(vx)).out();
}
static NM spd(Rng& g, int n, int kind) {
	NM a(n, NV(n, Num{0, 0, 1}));
	if (kind == 0) { // few eigenvalues: Q D Q^T with Q a signed permutation or a Householder-like reflection
		if (n == 4 && g.coin()) { int s[4][4] = {{1,1,1,1},{1,-1,1,-1},{1,1,-1,-1},{1,-1,-1,1}}; int d[4]; for (int& x : d) x = 4 * (1 << g.below(2)); if (g.coin(1, 4)) d[g.below(4)] = 16;
			for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { ll t = 0; for (int k = 0; k < 4; ++k) t += s[i][k] * d[k] * s[j][k]; a[i][j] = Num{t / 4, 0, 1}; ll q = gcdll(t, 4); a[i][j] = Num{t / q, 0, 4 / q}; if (t == 0) a[i][j] = Num{0, 0, 1}; }
			return a; }
		for (int i = 0; i < n; ++i) a[i][i] = Num{1 << g.below(3), 0, 1};
		if (n >= 2 && g.coin()) { int i = g.below(n - 1); ll u = g.in(2, 3); a[i][i] = a[i + 1][i + 1] = Num{u, 0, 1}; a[i][i + 1] = a[i + 1][i] = Num{g.coin() ? 1 : -1, 0, 1}; }
		return a;
	}
	// B B^T with small B, or diagonally dominant
	if (kind == 1) { int B[4][4]; for (auto& r : B) for (int& x : r) x = g.in(-1, 1); for (int i = 0; i < n; ++i) B[i][i] = g.in(1, 2);
		for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) B[j][i] = 0;
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ll t = 0; for (int k = 0; k < n; ++k) t += B[i][k] * B[j][k]; a[i][j] = Num{t, 0, 1}; } return a; }
	for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = Num{g.in(-1, 1), 0, 1};
	for (int i = 0; i < n; ++i) { ll s = 1; for (int j = 0; j < n; ++j) if (j != i) s += std::llabs(a[i][j].a); a[i][i] = Num{s + g.below(2), 0, 1}; }
	return a;
}
template<class T> void c14(Rng& g, int n, int reps) {
	const bool flt = sizeof(T) == 4;
	Ev("reset").out();
	for (int r = 0, tries = 0; r < reps && tries < reps * 300; ++tries) {
		NM a = spd(g, n, g.below(3)), c(n, NV(n, Num{0, 0, 1}));
		bool pre = g.coin();
		switch (g.below(3)) { case 0: for (int i = 0; i < n; ++i) { c[i][i] = Num{1, 0, a[i][i].a}; if (a[i][i].d != 1) c[i][i] = Num{1, 0, 1}; } break; case 1: c = spd(g, n, 0); break; default: for (int i = 0; i < n; ++i) c[i][i] = Num{1, 0, 1}; }
		NV b = rvec<T>(g, n, 3), x0 = rvec<T>(g, n, 2);
		if (g.coin(1, 3)) for (auto& x : x0) x = Num{0, 0, 1};
		if (g.coin(1, 8)) { QV t = matv(qm(a), qv(x0)); for (int i = 0; i < n; ++i) b[i] = Num{(ll)t[i].a, 0, (ll)t[i].d}; }
		if (g.coin(1, 12)) { for (auto& x : b) x = Num{0, 0, 1}; for (auto& x : x0) x = Num{0, 0, 1}; }
		if (!goodSystem(a, c, b, x0, pre, flt)) continue;
		++r; pickScales<T>(g);
		typedef DynamicVector<T> DV;
		int kind = g.below(n == 2 || n == 3 ? 3 : 2);
		if (kind == 0) cgRun<SparseMatrix<T>, DV>(g, "sparse", pre, a, c, b, x0, DV(n), DV(n));
		else if (kind == 1) cgRun<DenseMatrix<T>, DV>(g, "dense", pre, a, c, b, x0, DV(n), DV(n));
		else if (n == 2) cgRun<FixedMatrix<T, 2, 2>, FixedVector<T, 2> >(g, "fixed", pre, a, c, b, x0, FixedVector<T, 2>(), FixedVector<T, 2>());
		else cgRun<FixedMatrix<T, 3, 3>, FixedVector<T, 3> >(g, "fixed", pre, a, c, b, x0, FixedVector<T, 3>(), FixedVector<T, 3>());
	}
}
template<class T> void c14bad(Rng& g, int reps) {
	typedef SparseMatrix<T> S; typedef DenseMatrix<T> D; typedef DynamicVector<T> DV;
	Ev("reset").out();
	for (int k = 0; k < reps; ++k) {
		int d[6]; int n = g.in(1, 3); for (int& x : d) x = g.coin(3, 4) ? n : g.in(1, 3);
		bool all = true; for (int x : d) all = all && x == d[0]; if (all) { d[g.below(6)]++; }
		bool pre = g.coin();
		std::string e = "";
		if (g.coin()) { S A(d[0], d[1]), C(d[2], d[3]); DV b(d[4]), x(d[5]); for (int i = 0; i < std::min(d[0], d[1]); ++i) A.set(i, i, 2); for (int i = 0; i < std::min(d[2], d[3]); ++i) C.set(i, i, 1); b.fill(1); e = guarded([&] { if (pre) CG::serial::pcg(A, b, C, x, 5, 1e-3, nullptr); else CG::serial::cg(A, b, x, 5, 1e-3, nullptr); }); }
		else { D A(d[0], d[1]), C(d[2], d[3]); DV b(d[4]), x(d[5]); for (int i = 0; i < std::min(d[0], d[1]); ++i) A.set(i, i, 2); for (int i = 0; i < std::min(d[2], d[3]); ++i) C.set(i, i, 1); b.fill(1); e = guarded([&] { if (pre) CG::serial::pcg(A, b, C, x, 5, 1e-3, nullptr); else CG::serial::cg(A, b, x, 5, 1e-3, nullptr); }); }
		Ev("cgbad").f("pre", pre).f("d", std::vector<int>(d, d + 6)).f("exc", e).out();
	}
}
#ifdef NS_ALLOW_CHECKS
template<class M, class V> void asym(Rng& g, const char* kind, int n, V b, V x) {
	typedef typename M::value_type T; NM a = spd(g, n, 2), c = spd(g, n, 0); int i = g.below(n), j = (i + 1 + g.below(n - 1)) % n; ll q = a[i][j].d; a[i][j].a += g.coin() ? q : -q; pickScales<T>(g);
	M A = ofA<M>(a), C = ofC<M>(c); b.fill((T)1); x.fill((T)0); const bool pre = g.coin();
	std::string e = guarded([&] { if (pre) CG::serial::pcg(A, b, C, x, g.in(0, 3), 1e-3, nullptr); else CG::serial::cg(A, b, x, g.in(0, 3), 1e-3, nullptr); });
	Ev("cgasym").f("k", kind).f("pre", pre).f("a", a).f("exc", e).out();
}
#endif
template<class M> void precond(Rng& g, int reps, bool dyn) {
	typedef typename M::value_type T; Ev("reset").out();
	for (int k = 0; k < reps; ++k) {
		int n = dyn ? g.in(1, 4) : 3, r = dyn && g.coin(1, 6) ? g.in(1, 4) : n, c1 = dyn && g.coin(1, 6) ? g.in(1, 4) : n, c2 = dyn && g.coin(1, 6) ? g.in(1, 4) : n;
		NM a = rmat<T>(g, n, r, 3); static const int ds[] = {1, -2, 4, 3, -1, 0}; for (int i = 0; i < std::min(n, r); ++i) a[i][i] = Num{ds[g.below(g.coin(1, 3) ? 6 : 5)], 0, 1};
		pickScales<T>(g); M A = ofA<M>(a), C = MakeM<M>::make(c1, c2); if (g.coin()) for (size_t i = 0; i < C.rows(); ++i) for (size_t j = 0; j < C.columns(); ++j) if (g.coin()) C.set(i, j, Mk<T>::make(g.in(-3, 3), 0));
		const NM before(C.rows(), NV(C.columns(), Num{0, 0, 1}));
		std::string e = guarded([&] { CG::serial::jacobi(A, C); });
		Ev ev("pre"); ev.f("k", MakeM<M>::kind()).f("a", a).f("cs", before).f("exc", e).f("aa", contA(A)); if (e == "ok") { Scale i(1 / SA); ev.f("c", cont(C)); } ev.out();
	}
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + CKSEED + 131);
	const int K = o.thorough ? 12 : 1;
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < K; ++k) {
		if (o.mode == "C13") {
			for (int s = 1; s <= 5; ++s) for (int q = 0; q < 3; ++q) { MINE c13<double>(g, s, 70, s == 2 || s == 3 ? 3 : 2); MINE c13<cd>(g, std::min(s, 4), 25, s == 2 || s == 3 ? 3 : 2); }
			for (int s = 1; s <= 4; ++s) { MINE c13<float>(g, s, 30, 2); MINE c13jac<cf>(g, s, 20); }
			MINE c13bad<double>(g, 30); MINE c13bad<cd>(g, 20);
		}
		if (o.mode == "C14") {
			for (int s = 1; s <= 4; ++s) for (int q = 0; q < 4; ++q) { MINE c14<double>(g, s, s == 4 ? 20 : 40); MINE c14<double>(g, s, s == 4 ? 20 : 40); }
			for (int s = 1; s <= 3; ++s) { MINE c14<float>(g, s, 15); }
#ifdef NS_ALLOW_CHECKS
			MINE { Ev("reset").out(); typedef DynamicVector<double> DV; typedef DynamicVector<float> FV; for (int q = 0; q < 20; ++q) { int s = g.in(2, 4); asym<SparseMatrix<double>, DV>(g, "sparse", s, DV(s), DV(s)); asym<DenseMatrix<double>, DV>(g, "dense", s, DV(s), DV(s)); asym<SparseMatrix<float>, FV>(g, "sparse", s, FV(s), FV(s)); asym<FixedMatrix<double, 2, 2>, FixedVector<double, 2> >(g, "fixed", 2, FixedVector<double, 2>(), FixedVector<double, 2>()); asym<FixedMatrix<double, 3, 3>, FixedVector<double, 3> >(g, "fixed", 3, FixedVector<double, 3>(), FixedVector<double, 3>()); } }
#endif
			MINE c14bad<double>(g, 40); MINE c14bad<float>(g, 20);
			MINE precond<SparseMatrix<double> >(g, 30, true); MINE precond<DenseMatrix<double> >(g, 30, true); MINE precond<FixedMatrix<double, 3, 3> >(g, 20, false); MINE precond<SparseMatrix<cd> >(g, 20, true); MINE precond<DenseMatrix<float> >(g, 20, true);
		}
	}
	fclose(g_out);
	return 0;
}
