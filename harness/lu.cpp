// Triangular factorisations, determinant, solving and inverting (C09 - C12).  One operation per event, operands in the event.
#include "mat.h"
#include <fstream>
#include "LU.h"
#include "matrix/MatrixOperations.h"
#ifdef NS_ALLOW_CHECKS
enum { CKSEED = 400 };
#else
enum { CKSEED = 0 };
#endif
TRACE_MAIN_GLOBALS

// ---------------------------------------------------------------- exact test data
static Num I0(ll a, ll b = 0) { return Num{a, b, 1}; }
static Num red(Num x) { ll g = gcdll(gcdll(x.a, x.b), x.d); if (g > 1) { x.a /= g; x.b /= g; x.d /= g; } return x; }
static Num add(Num x, Num y) { return red(Num{x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, x.d * y.d}); }
static Num mul(Num x, Num y) { return red(Num{x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a, x.d * y.d}); }
static bool zero(Num x) { return x.a == 0 && x.b == 0; }
static NM zeros(size_t r, size_t c) { return NM(r, NV(c, I0(0))); }
static NM mmul(const NM& A, const NM& B) {
	NM C = zeros(A.size(), B[0].size());
	for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < B[0].size(); ++j) for (size_t k = 0; k < B.size(); ++k) C[i][j] = add(C[i][j], mul(A[i][k], B[k][j]));
	return C;
}
static NM adj(const NM& A) { NM B = zeros(A[0].size(), A.size()); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A[0].size(); ++j) { B[j][i] = A[i][j]; B[j][i].b = -B[j][i].b; } return B; }
static std::vector<int> rperm(Rng& g, int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]); return p; }
// dyadic number of absolute value < 1 (strict) or <= 1
template<class T> Num dyad(Rng& g, bool strict) {
	int m = strict ? 3 : 4;
	Num x{g.in(-m, m), 0, 4};
	if (Mk<T>::cplx && g.coin()) { x = Num{g.in(-2, 2), g.in(-2, 2), 4}; }
	return red(x);
}
template<class T> NM lowerM(Rng& g, int n, bool unit, bool integer, int fill = 3) {
	NM L = zeros(n, n);
	const bool big = n > 5;        // many rows: few small entries, so that exact results stay small
	if (big && integer) fill = 1;
	for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) if (g.coin(fill, 4)) L[i][j] = integer ? rnum<T>(g, big ? 1 : 2) : dyad<T>(g, true);
		L[i][i] = unit ? I0(1) : I0(g.coin(big ? 3 : 1, big ? 4 : 2) ? 1 : 2) ; if (!unit && g.coin()) L[i][i].a = -L[i][i].a; }
	return L;
}
template<class T> NM upperM(Rng& g, int n, int fill = 3) {
	static const int ds[] = {1, -1, 2, -2, 4, 1};
	NM U = zeros(n, n);
	const bool big = n > 5 && fill < 4;
	if (big) fill = 1;
	for (int i = 0; i < n; ++i) { for (int j = i + 1; j < n; ++j) if (g.coin(fill, 4)) U[i][j] = rnum<T>(g, big ? 1 : 3); U[i][i] = I0(big && g.coin(3, 4) ? ds[g.below(2)] : ds[g.below(6)]); if (Mk<T>::cplx && g.coin(1, 4)) U[i][i] = I0(0, g.coin() ? 1 : -2); }
	return U;
}
static NM permRows(const NM& A, const std::vector<int>& p) { NM B = A; for (size_t i = 0; i < A.size(); ++i) B[p[i]] = A[i]; return B; }

// values multiplied by a power of four: every step of the factorisations commutes with that, unless it compares with an absolute size
template<class T> double pick(Rng& g) { const bool flt = sizeof(typename Mk<T>::real) == 4; const int k = g.below(5); return k < 2 ? 1 : std::ldexp(1.0, flt ? (k == 2 ? -6 : k == 3 ? 6 : 12) : (k == 2 ? -20 : k == 3 ? 30 : -12)); }
template<class M> M ofU(const NM& c) { Scale one(1); return of<M>(c); }
template<class M> NM contU(const M& m) { Scale one(1); return cont(m); }
// rows and columns multiplied by powers of two of their own: changes no rounding either, provided the operation commutes with it
typedef std::vector<int> VE;
template<class T> VE exps(Rng& g, size_t n, int lo, int hi) { const bool flt = sizeof(typename Mk<T>::real) == 4; VE e(n, 0); if (g.coin(2, 3)) return e; for (int& x : e) x = g.in(lo, hi) * (flt ? 1 : 2); return e; }
template<class T> T times2(const T& x, int e) { typedef typename Mk<T>::real R; return x * (R)std::ldexp(1.0, e); }
template<class M> M graded(M m, const VE& r, int sr, const VE& c, int sc) {
	typedef typename M::value_type T;
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.columns(); ++j) { const int e = (i < r.size() ? sr * r[i] : 0) + (j < c.size() ? sc * c[j] : 0); const T v = m.at(i, j); if (e && v != (T)0) m.set(i, j, times2(v, e)); }
	return m;
}
template<class V> V gradedV(V v, const VE& r, int s) { for (size_t i = 0; i < v.size() && i < r.size(); ++i) v.set(i, times2(typename V::value_type(v.at(i)), s * r[i])); return v; }
// ---------------------------------------------------------------- previous contents of outputs
template<class M> M outM(Rng& g, size_t n, int how, bool wrong = false) {
	typedef typename M::value_type T;
	size_t r = n, c = n;
	if (wrong) { if (g.coin()) r += g.in(1, 2); else c += 1; if (n > 1 && g.coin(1, 3)) { r = n - 1; c = n - 1; } }
	M m = MakeM<M>::make(r, c);
	if (how == 1) for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m.set(i, j, Mk<T>::make(g.in(-3, 3), Mk<T>::cplx ? g.in(-1, 1) : 0));
	if (how == 2) for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (g.coin(1, 3)) m.set(i, j, Mk<T>::make(7, 0));
	return m;
}
template<class M> struct Fx { enum : bool { v = false }; };
template<class T, Dimension A, Dimension B> struct Fx<FixedMatrix<T, A, B> > { enum : bool { v = true }; };
template<class M> struct Sp { enum : bool { v = false }; };
template<class T> struct Sp<SparseMatrix<T> > { enum : bool { v = true }; };

// ---------------------------------------------------------------- C09
template<class M> void lu(Rng& g, const NM& c, int how, bool wrong) {
	const size_t n = c.size();
	const VE gc = exps<typename M::value_type>(g, n, -5, 0);
	M A = graded(of<M>(c), gc, 0, gc, 1);
	M L = outM<M>(g, n, how, wrong && g.coin()), U = outM<M>(g, n, how), P = outM<M>(g, n, how, wrong && g.coin());
	const bool okOut = Sp<M>::v || (L.rows() == n && L.columns() == n && P.rows() == n && P.columns() == n);
	size_t pc = 0; bool withCount = g.coin(3, 4);
	std::string e = guarded([&] { if (withCount) LU::serial::doolittle(A, L, U, P, &pc); else LU::serial::doolittle(A, L, U, P); });
	Ev ev("lu"); ev.f("k", MakeM<M>::kind()).f("a", c).f("out", okOut).f("exc", e).f("after", cont(graded(A, gc, 0, gc, -1)));
	if (e == "ok") {
		ev.f("l", contU(L)).f("u", cont(graded(U, gc, 0, gc, -1))).f("p", contU(P));
		if (withCount) ev.f("n", pc);
		// strict zeros, and the rounding-free bound |l_ij| <= 1
		bool up = true, one = true; typedef typename Mk<typename M::value_type>::real R;
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (j < i && U.at(i, j) != (typename M::value_type)0) up = false; if (std::abs(L.at(i, j)) > (R)1 + 8 * std::numeric_limits<R>::epsilon()) one = false; }
		ev.f("up", up).f("one", one);
	}
	ev.out();
}
template<class M> void luNonSquare(Rng& g) {
	int r = g.in(1, 4), c = g.in(1, 4); if (r == c) c++;
	NM a = rmat<typename M::value_type>(g, r, c, 3);
	M A = of<M>(a); M L = MakeM<M>::make(r, g.coin() ? r : c), U = MakeM<M>::make(r, r), P = MakeM<M>::make(r, r);
	std::string e = guarded([&] { LU::serial::doolittle(A, L, U, P); });
	Ev("lu").f("k", MakeM<M>::kind()).f("a", a).f("out", true).f("exc", e).f("after", cont(A)).out();
}
template<class T> NM luMat(Rng& g, int n, bool flt) {
	int kind = g.below(flt ? 3 : 5);
	if (kind == 3 || kind == 4) { // small integers
		int m = n > 4 ? 4 : n; (void)m;
		return rmat<T>(g, n, n, n <= 2 ? 4 : n == 3 ? 3 : 1, 3, 4);
	}
	NM L = lowerM<T>(g, n, true, false, 1 + g.below(3)), U = upperM<T>(g, n, 1 + g.below(3));
	if (kind == 1 && g.coin(1, 3)) U[n - 1][n - 1] = I0(0);
	if (kind == 2 && g.coin(1, 2)) { int k = g.below(n); U[k][k] = I0(0); }
	return permRows(mmul(L, U), rperm(g, n));
}
template<class M> void c09(Rng& g, int n, int reps, bool wrongOk) {
	typedef typename M::value_type T; const bool flt = sizeof(typename Mk<T>::real) == 4;
	Ev("reset").out();
	for (int k = 0; k < reps; ++k) { Scale sc(pick<T>(g)); lu<M>(g, luMat<T>(g, n, flt), g.below(3), wrongOk && g.coin(1, 6)); }
	if (wrongOk) luNonSquare<M>(g);
}
// exhaustive: every matrix of order n over the given values, split over shards
template<class M> void c09all(Rng& g, int n, const std::vector<int>& vals, const Opt& o, ll stride) {
	ll total = 1; for (int i = 0; i < n * n; ++i) total *= vals.size();
	Ev("reset").out();
	ll off = (ll)(o.seed % (uint64_t)stride);
	for (ll q = off + o.shard * stride; q < total; q += o.shards * stride) {
		NM a = zeros(n, n); ll z = q; for (int i = 0; i < n * n; ++i) { a[i / n][i % n] = I0(vals[z % vals.size()]); z /= vals.size(); }
		lu<M>(g, a, g.below(3), false);
		if ((q / stride / o.shards) % 200 == 199) Ev("reset").out();
	}
}

// single precision results are integral by construction of the operands: a wider tolerance is enough to recognize them
template<class T> Num numR(const T& x) { return num(x); }
inline Num numR(const float& x) { return rat(x / SC(), 1, 2e-3); }
inline Num numR(const std::complex<float>& z) { Num a = numR(z.real()), b = numR(z.imag()); if (a.d == 0) return a; if (b.d == 0) return Num{0, 1, 0}; return Num{a.a, b.a, 1}; }
template<class M> NM contR(const M& m) { NM v(m.rows(), NV(m.columns())); for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j) v[i][j] = numR(m.at(i, j)); return v; }
template<class V> NV contvR(const V& x) { NV v; for (Index i = 0; i < x.size(); ++i) v.push_back(numR(x.at(i))); return v; }
// ---------------------------------------------------------------- C10
// exact: every step of the elimination is free of rounding
template<class T> NM invMat(Rng& g, int n, bool flt, bool singular, bool& exact) {
	exact = false;
	if (singular && g.coin(2, 3)) { exact = true; NM L = lowerM<T>(g, n, true, false, 2), U = upperM<T>(g, n, 2); U[g.below(n)][n - 1] = I0(0); int k = g.below(n); U[k][k] = I0(0); return permRows(mmul(L, U), rperm(g, n)); }
	if (!flt && n <= (Mk<T>::cplx ? 2 : 3) && g.coin()) return rmat<T>(g, n, n, n == 3 ? 2 : 4, 3, 4);
	NM L = lowerM<T>(g, n, true, true, 2), U = upperM<T>(g, n, 2);
	if (flt) for (int i = 0; i < n; ++i) { if (std::abs(U[i][i].a) > 1) U[i][i].a = -1; if (std::abs(U[i][i].b) > 1) U[i][i].b = -1; }   // det = +-1, +-i: the inverse is integral
	if (singular) { int k = g.below(n); U[k][k] = I0(0); }
	return permRows(mmul(L, U), rperm(g, n));
}
template<class T> Num detNum(const T& d, size_t n) { Scale sn(std::pow(SC(), (double)n)); return numR(d); }
template<class M> NM contI(const M& m) { Scale inv(1 / SC()); return contR(m); }
template<class M> void detinv(Rng& g, const NM& c, bool exact) {
	typedef typename M::value_type T; const VE gc = exps<T>(g, c.size() == c[0].size() ? c.size() : 0, -4, 0); int sum = 0; for (int x : gc) sum += x;
	const M A = graded(of<M>(c), gc, 0, gc, 1);
	T d = 0; std::string e = guarded([&] { d = Operations::determinant(A); });
	Ev("det").f("k", MakeM<M>::kind()).f("a", c).f("exc", e).f("d", detNum(times2(d, -sum), c.size())).f("after", cont(graded(A, gc, 0, gc, -1))).out();
	if (c.size() != c[0].size()) return;
	M B = A; e = guarded([&] { B = Operations::inverse(A); });
	Ev ev("inv"); ev.f("k", MakeM<M>::kind()).f("exact", exact).f("a", c).f("exc", e).f("after", cont(graded(A, gc, 0, gc, -1)));
	if (e == "ok") ev.f("r", contI(graded(B, gc, 1, gc, 0)));
	ev.out();
}
template<class M, class V> void solve(Rng& g, const NM& l, const NM& u, const NV& x, V v0) {
	typedef typename M::value_type T;
	const size_t n = l.size(); const VE gd = exps<T>(g, n == l[0].size() && n == u.size() && n == u[0].size() && n == v0.size() ? n : 0, -5, 5);
	const M L = graded(ofU<M>(l), gd, 1, gd, -1), U = graded(of<M>(u), gd, 1, gd, -1);
	NV b(n, I0(0));
	if (u[0].size() == x.size() && l[0].size() == u.size()) { NM xm(x.size(), NV(1)); for (size_t i = 0; i < x.size(); ++i) xm[i][0] = x[i]; NM bm = mmul(l, mmul(u, xm)); for (size_t i = 0; i < n; ++i) b[i] = bm[i][0]; }
	b.resize(v0.size(), I0(1)); putv(v0, b); v0 = gradedV(v0, gd, 1);
	V r = v0; std::string e = guarded([&] { r = LU::serial::solve_lu(L, U, v0); });
	Ev ev("solve"); ev.f("k", MakeM<M>::kind()).f("l", l).f("u", u).f("b", b).f("exc", e).f("after", contv(gradedV(v0, gd, -1))).f("al", contU(graded(L, gd, -1, gd, 1))).f("au", cont(graded(U, gd, -1, gd, 1)));
	if (e == "ok") { Scale one(1); ev.f("x", contvR(gradedV(r, gd, -1))); }
	ev.out();
}
template<class M> void c10(Rng& g, int n, int reps, bool dyn) {
	typedef typename M::value_type T; const bool flt = sizeof(typename Mk<T>::real) == 4;
	Ev("reset").out();
	for (int k = 0; k < reps; ++k) {
		Scale sc(pick<T>(g));
		bool exact; NM a = invMat<T>(g, n, flt, g.coin(1, 4), exact);
		detinv<M>(g, a, exact);
		NM l = lowerM<T>(g, n, g.coin(), g.coin(), 2), u = upperM<T>(g, n, 2);
		if (g.coin(1, 6)) (g.coin() ? l : u)[g.below(n)][0] = I0(0);
		if (g.coin(1, 5)) { int i = g.below(n); (g.coin() ? l : u)[i][i] = I0(0); }
		solve<M>(g, l, u, rvec<T>(g, n, 4), DynamicVector<T>(n));
	}
	if (dyn) {
		for (int k = 0; k < 4; ++k) { int r = g.in(1, 3), c = g.in(1, 3); detinv<M>(g, rmat<T>(g, r, r == c ? c + 1 : c, 3), true); }
		for (int k = 0; k < 6; ++k) {
			int a = g.in(1, 3), b = g.coin() ? a : g.in(1, 3), c = g.coin() ? a : g.in(1, 3), d = g.coin() ? a : g.in(1, 3), v = g.coin() ? a : g.in(1, 3);
			NM l = lowerM<T>(g, std::max(a, b), false, true), u = upperM<T>(g, std::max(c, d));
			l.resize(a); for (auto& r : l) r.resize(b); u.resize(c); for (auto& r : u) r.resize(d);
			solve<M>(g, l, u, rvec<T>(g, d, 3), DynamicVector<T>(v));
		}
	}
}
template<class T, Dimension n> void c10fv(Rng& g) { for (int k = 0; k < 4; ++k) { Scale sc(pick<T>(g)); solve<FixedMatrix<T, n, n> >(g, lowerM<T>(g, n, false, true), upperM<T>(g, n), rvec<T>(g, n, 4), FixedVector<T, n>()); } }

// ---------------------------------------------------------------- C11
template<class M> void chol(Rng& g, const NM& c, int how, bool wrong, bool exact) {
	typedef typename M::value_type T; typedef typename Mk<T>::real R;
	const size_t n = c.size();
	const VE gd = exps<T>(g, n == c[0].size() ? n : 0, -5, 5);
	M A = graded(of<M>(c), gd, 1, gd, 1), L = outM<M>(g, n, how, wrong);
	const bool okOut = L.rows() == n && L.columns() == n;
	std::string e = guarded([&] { LU::serial::cholesky(A, L); });
	Ev ev("chol"); ev.f("k", MakeM<M>::kind()).f("a", c).f("out", okOut).f("exact", exact).f("exc", e).f("after", cont(graded(A, gd, -1, gd, -1)));
	if (e == "ok") {
		L = graded(L, gd, -1, gd, 0);
		NM G = zeros(n, n); bool low = true, pos = true;     // L L^H, with enough precision to recognize it
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
			std::complex<long double> s = 0; for (size_t k = 0; k < n; ++k) s += std::complex<long double>(std::complex<R>(L.at(i, k))) * std::conj(std::complex<long double>(std::complex<R>(L.at(j, k))));
			G[i][j] = num(std::complex<R>((R)s.real(), (R)s.imag()));
			if (j > i && L.at(i, j) != (T)0) low = false;
			if (i == j && !(std::real(L.at(i, i)) > 0 && std::imag(L.at(i, i)) == 0)) pos = false;
		}
		ev.f("g", G).f("low", low).f("pos", pos);
	}
	ev.out();
}
template<class T> void c11data(Rng& g, int n, NM& a, bool& exact) {
	const bool flt = sizeof(typename Mk<T>::real) == 4;
	int kind = g.below(4);
	exact = true;
	NM L = lowerM<T>(g, n, false, true, 2);
	for (int i = 0; i < n; ++i) L[i][i].a = std::abs(L[i][i].a);
	if (kind == 1) { int k = g.below(n); L[k][k] = I0(0); if (g.coin()) for (int j = 0; j < k; ++j) L[k][j] = I0(0); }
	a = mmul(L, adj(L));
	if (kind == 2) { // indefinite: L D L^H with a negative entry in D
		NM D = zeros(n, n); for (int i = 0; i < n; ++i) D[i][i] = I0(g.coin(2, 3) ? 1 : -1); a = mmul(L, mmul(D, adj(L))); }
	if (kind == 3 && !flt) { exact = false; a = zeros(n, n);
		for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { a[i][j] = rnum<T>(g, 2); a[j][i] = a[i][j]; a[j][i].b = -a[j][i].b; } a[i][i] = I0(g.in(-1, 7)); } }
}
template<class M> void c11(Rng& g, int n, int reps, bool dyn) {
	typedef typename M::value_type T;
	Ev("reset").out();
	for (int k = 0; k < reps; ++k) { Scale sc(pick<T>(g)); NM a; bool ex; c11data<T>(g, n, a, ex); chol<M>(g, a, g.below(3), dyn && g.coin(1, 6), ex); }
#ifdef NS_ALLOW_CHECKS
	for (int k = 0; k < 2 && (n > 1 || Mk<T>::cplx); ++k) { // one entry off, anywhere
		Scale sc(pick<T>(g)); NM a; bool ex; c11data<T>(g, n, a, ex); int i = g.below(n), j = g.below(n); if (i == j) { if (Mk<T>::cplx) a[i][i].b = 1; else a[i][j = (i + 1) % n].a += g.coin() ? 1 : -1; } else if (Mk<T>::cplx && g.coin()) a[i][j].b += 1; else a[i][j].a += g.coin() ? 1 : -1;
		chol<M>(g, a, g.below(3), false, true); }
#endif
	if (dyn) for (int k = 0; k < 3; ++k) { int r = g.in(1, 4), c = g.in(1, 4); if (r == c) c++; chol<M>(g, rmat<T>(g, r, c, 3), 0, g.coin(), true); }
}

// ---------------------------------------------------------------- C12
template<class T> void ilu(Rng& g, int n) {
	typedef SparseMatrix<T> M;
	Scale sc(pick<T>(g));
	const bool flt = sizeof(typename Mk<T>::real) == 4;
	std::vector<std::vector<bool> > S(n, std::vector<bool>(n));
	int f = g.in(1, 3);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S[i][j] = i == j ? g.coin(9, 10) : g.coin(f, 4);
	NM a = zeros(n, n);
	if (!flt && g.coin(1, 3) && n <= 4) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (S[i][j]) a[i][j] = rnum<T>(g, 2, i != j || g.coin(3, 4)); }
	else {
		// factors chosen first: A is their product on the pattern
		bool good = false;
		for (int tries = 0; tries < 60 && !good; ++tries) {
			NM L = lowerM<T>(g, n, true, false, 4), U = upperM<T>(g, n, 4);
			for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!S[i][j]) { if (j < i) L[i][j] = I0(0); else U[i][j] = I0(0); }
			a = mmul(L, U);
			good = true;
			for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!S[i][j]) a[i][j] = I0(0); else if (zero(a[i][j])) good = false; }
			if (tries % 20 == 19) S[g.below(n)][g.below(n)] = false;
		}
		if (!good) return;
	}
	const VE gd = exps<T>(g, n, -15, 15);
	M A = graded(of<M>(a), gd, 1, gd, -1), L = outM<M>(g, n, g.below(3), g.coin(1, 6)), U = outM<M>(g, n, g.below(3), g.coin(1, 6));
	std::string e = guarded([&] { LU::serial::ilu0(A, L, U); });
	Ev ev("ilu"); ev.f("a", a).f("exc", e).f("after", cont(graded(A, gd, -1, gd, 1)));
	if (e == "ok") ev.f("l", contU(graded(L, gd, -1, gd, 1))).f("u", cont(graded(U, gd, -1, gd, 1))).f("ln", L.filled_count()).f("un", U.filled_count());
	ev.out();
}
template<class T> void iluNonSquare(Rng& g) {
	int r = g.in(1, 4), c = g.in(1, 4); if (r == c) c++;
	NM a = rmat<T>(g, r, c, 3); SparseMatrix<T> A = of<SparseMatrix<T> >(a), L(r, r), U(r, r);
	std::string e = guarded([&] { LU::serial::ilu0(A, L, U); });
	Ev("ilu").f("a", a).f("exc", e).f("after", cont(A)).out();
}
template<class M> void ainv(Rng& g, const NM& l, const NM& u, M iL, M iU) {
	const size_t n = l.size(); const VE gd = exps<typename M::value_type>(g, n == l[0].size() && n == u.size() && n == u[0].size() ? n : 0, -10, 10);
	const M L = graded(ofU<M>(l), gd, 1, gd, -1), U = graded(of<M>(u), gd, 1, gd, -1);
	const NM sl = zeros(iL.rows(), iL.columns()), su = zeros(iU.rows(), iU.columns());
	std::string e = guarded([&] { LU::serial::ainv_lu(L, U, iL, iU); });
	Ev ev("ainv"); ev.f("k", MakeM<M>::kind()).f("l", l).f("u", u).f("ils", sl).f("ius", su).f("exc", e).f("al", contU(graded(L, gd, -1, gd, 1))).f("au", cont(graded(U, gd, -1, gd, 1)));
	if (e == "ok") { { Scale one(1); ev.f("il", contR(graded(iL, gd, -1, gd, 1))); } ev.f("iu", contI(graded(iU, gd, -1, gd, 1))); }
	ev.out();
}
template<class M> void invLUP(const NM& l, const NM& u, const NM& p) {
	M L = ofU<M>(l), U = of<M>(u), P = ofU<M>(p), R = L;
	std::string e = guarded([&] { R = Operations::inverse(L, U, P); });
	Ev ev("invlup"); ev.f("k", MakeM<M>::kind()).f("l", l).f("u", u).f("p", p).f("exc", e).f("al", contU(L)).f("au", cont(U)).f("ap", contU(P));
	if (e == "ok") ev.f("r", contI(R));
	ev.out();
}
template<class M> void invLU(Rng& g, const NM& l, const NM& u, std::true_type) {
	const size_t n = l.size(); const VE gd = exps<typename M::value_type>(g, n == l[0].size() && n == u.size() && n == u[0].size() ? n : 0, -10, 10);
	const M L = graded(ofU<M>(l), gd, 1, gd, -1), U = graded(of<M>(u), gd, 1, gd, -1); M R = L;
	std::string e = guarded([&] { R = Operations::inverse(L, U); });
	Ev ev("invlu"); ev.f("k", MakeM<M>::kind()).f("l", l).f("u", u).f("exc", e).f("al", contU(graded(L, gd, -1, gd, 1))).f("au", cont(graded(U, gd, -1, gd, 1)));
	if (e == "ok") ev.f("r", contI(graded(R, gd, -1, gd, 1)));
	ev.out();
}
template<class M> void invLU(Rng&, const NM&, const NM&, std::false_type) {}
static NM permM(Rng& g, int n) { std::vector<int> p = rperm(g, n); NM m = zeros(n, n); for (int i = 0; i < n; ++i) m[i][p[i]] = I0(1); return m; }
template<class M> void c12(Rng& g, int n, int reps, bool dyn) {
	typedef typename M::value_type T;
	Ev("reset").out();
	for (int k = 0; k < reps; ++k) {
		Scale sc(pick<T>(g));
		NM l = lowerM<T>(g, n, true, true, 1 + g.below(3)), u = upperM<T>(g, n, 1 + g.below(3));
		const bool flt = sizeof(typename Mk<T>::real) == 4;
		if (flt) for (int i = 0; i < n; ++i) { if (std::abs(u[i][i].a) > 1) u[i][i].a = -1; if (std::abs(u[i][i].b) > 1) u[i][i].b = -1; }
		if (g.coin(1, 5)) { int i = g.below(n); u[i][i] = I0(0); }
		ainv<M>(g, l, u, outM<M>(g, n, g.below(3)), outM<M>(g, n, g.below(3)));
		invLU<M>(g, l, u, std::integral_constant<bool, !Fx<M>::v>());
		NM l2 = flt || g.coin() ? l : lowerM<T>(g, n, false, true, 2);
		if (g.coin(1, 6)) { int i = g.below(n); l2[i][i] = I0(0); }
		invLUP<M>(l2, u, permM(g, n));
	}
	if (dyn) for (int k = 0; k < 10; ++k) {
		int d[10]; int n0 = g.in(1, 3); for (int& x : d) x = g.coin(4, 5) ? n0 : g.in(1, 3);
		auto cut = [&](NM m, int r, int c) { m.resize(r); for (auto& x : m) x.resize(c); return m; };
		NM l = cut(lowerM<T>(g, 3, true, true), d[0], d[1]); NM uu = upperM<T>(g, 3); if (sizeof(typename Mk<T>::real) == 4) for (int i = 0; i < 3; ++i) uu[i][i] = I0(i % 2 ? -1 : 1);
		NM u = cut(uu, d[2], d[3]), p = cut(permM(g, 3), d[8], d[9]);
		if (d[8] == d[9]) p = permM(g, d[8]);
		ainv<M>(g, l, u, MakeM<M>::make(d[4], d[5]), MakeM<M>::make(d[6], d[7]));
		invLU<M>(g, l, u, std::integral_constant<bool, !Fx<M>::v>());
		invLUP<M>(l, u, p);
	}
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + CKSEED + 77);
	const int K = o.thorough ? 10 : 1;
	int n = 0;
	typedef std::complex<double> cd; typedef std::complex<float> cf;
#define MINE if (n++ % o.shards == o.shard)
#define DYN(F, T, N, R) MINE F<SparseMatrix<T> >(g, N, R, true); MINE F<DenseMatrix<T> >(g, N, R, true);
#define FIX(F, T, N, R) { const int NN = N; MINE F<FixedMatrix<T, NN, NN> >(g, NN, R, false); }
#define ALL(F, R) \
	for (int s = 1; s <= 5; ++s) { DYN(F, double, s, R) DYN(F, cd, std::min(s, 4), R / 2) DYN(F, float, s, R / 3) DYN(F, cf, std::min(s, 3), R / 4) } \
	FIX(F, double, 1, R) FIX(F, double, 2, R) FIX(F, double, 3, R) FIX(F, double, 4, R) FIX(F, double, 5, R) FIX(F, cd, 3, R) FIX(F, float, 3, R) FIX(F, cf, 2, R)
	if (o.mode == "C09") {
		c09all<SparseMatrix<double> >(g, 2, {-2, -1, 0, 1, 2}, o, 1);
		c09all<DenseMatrix<double> >(g, 2, {-2, -1, 0, 1, 3}, o, 1);
		c09all<FixedMatrix<double, 2, 2> >(g, 2, {-2, -1, 0, 1, 3}, o, 3);
		c09all<DenseMatrix<double> >(g, 3, {-1, 0, 2}, o, o.thorough ? 1 : 13);
		c09all<SparseMatrix<double> >(g, 3, {-1, 0, 1}, o, o.thorough ? 1 : 17);
		if (!o.in.empty()) { // matrices whose factorisation the model has walked through
			std::ifstream f(o.in); std::string line; int q = 0; Ev("reset").out();
			while (std::getline(f, line)) { if (q++ % o.shards != o.shard) continue;
				Cmd c(line); c.word(); int m = c.i(); NM a; for (int i = 0; i < m; ++i) { NV row; for (int x : c.ints()) row.push_back(I0(x)); a.push_back(row); }
				const int h = g.below(3); switch (q / o.shards % 4) { case 0: lu<SparseMatrix<double> >(g, a, h, false); break; case 1: lu<DenseMatrix<float> >(g, a, h, false); break;
					case 2: lu<SparseMatrix<cd> >(g, a, h, false); break; default: if (m == 2) lu<FixedMatrix<double, 2, 2> >(g, a, h, false); else lu<FixedMatrix<double, 3, 3> >(g, a, h, false); }
				if (q / o.shards % 300 == 299) Ev("reset").out(); } }
		for (int k = 0; k < K; ++k) { ALL(c09, 24) for (int s = 6; s <= 8; ++s) { DYN(c09, double, s, 8) } }
	}
	if (o.mode == "C10") for (int k = 0; k < K; ++k) { ALL(c10, 24) for (int s = 6; s <= 9; ++s) { DYN(c10, double, s, 6) DYN(c10, cd, s - 1, 2) } FIX(c10, double, 7, 6) DYN(c10, float, 6, 4) MINE { Ev("reset").out(); c10fv<double, 2>(g); c10fv<double, 3>(g); c10fv<cd, 3>(g); c10fv<float, 2>(g); } }
	if (o.mode == "C11") for (int k = 0; k < K; ++k) { ALL(c11, 36) for (int s = 6; s <= 8; ++s) { DYN(c11, double, s, 8) DYN(c11, cd, s - 1, 4) DYN(c11, float, s, 3) } FIX(c11, double, 7, 8) FIX(c11, cd, 6, 4) }
	if (o.mode == "C12") for (int k = 0; k < K; ++k) {
		ALL(c12, 18) for (int s = 6; s <= 9; ++s) { DYN(c12, double, s, 6) DYN(c12, cd, s - 1, 3) } FIX(c12, double, 7, 6)
		for (int s = 1; s <= 9; ++s) { MINE { Ev("reset").out(); for (int q = 0; q < 40; ++q) ilu<double>(g, s); iluNonSquare<double>(g); }
			MINE { Ev("reset").out(); for (int q = 0; q < 12; ++q) ilu<cd>(g, std::min(s, 4)); iluNonSquare<cd>(g); }
			MINE { Ev("reset").out(); for (int q = 0; q < 12; ++q) ilu<float>(g, std::min(s, 4)); } }
	}
	fclose(g_out);
	return 0;
}
