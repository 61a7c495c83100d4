// Finite difference computations put together from the library's parts (C31): the heat equation in space and time as one system
// or step by step, and the Poisson equation, with matrices built in various ways and any of the solvers.
#include "mat.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
TRACE_MAIN_GLOBALS

// the multiple of 1/s nearby
static Num mult(double x, ll s, double tol) { double y = x * s; if (std::isnan(y)) return Num{0, 0, 0}; double r = std::round(y); if (!(std::fabs(r) < 2e9) || std::fabs(y - r) > std::min(0.2, tol * s * std::max(1.0, std::fabs(x)))) return Num{0, 1, 0}; ll g = gcdll((ll)r, s); if (g == 0) g = 1; return Num{(ll)r / g, 0, s / g}; }
template<class T> struct Eps { static double t() { return 1e-9; } static double sol() { return 1e-5; } static double it() { return 1e-9; } };
template<> struct Eps<float> { static double t() { return 1e-4; } static double sol() { return 2e-2; } static double it() { return 3e-4; } };
typedef std::vector<int> VI;
static ll poly(const VI& u, ll x, ll y) { return u[0] + u[1] * x + u[2] * y + u[3] * x * x + u[4] * x * y + u[5] * y * y + u[6] * x * x * x + u[7] * x * x * y + u[8] * x * y * y + u[9] * y * y * y; }
static ll lap(const VI& u, ll x, ll y) { return 2 * u[3] + 2 * u[5] + 6 * u[6] * x + 2 * u[7] * y + 2 * u[8] * x + 6 * u[9] * y; }

template<class T, template<class> class MM> struct Fd {
	typedef MM<T> M; typedef DynamicVector<T> V;
	Rng& g; int xc, yc, nt, hx, hy, ht, x0, y0, k; VI p, q; T fx, fy, ft;
	explicit Fd(Rng& g_, int size, bool time) : g(g_), p(10, 0), q(10, 0) {
		const bool fl = sizeof(T) == 4; const int lim = fl || size > 8 ? 1 : 2;
		xc = g.in(3, size); yc = g.in(3, size); nt = time ? g.in(1, 3) : 0; hx = g.in(1, fl ? 1 : std::max(1, 14 / (xc - 1))); hy = g.in(1, fl ? 1 : std::max(1, 14 / (yc - 1))); ht = g.in(1, 4); x0 = g.in(-4, 0); y0 = g.in(-4, 0); k = g.in(1, 4);
		for (int i = 0; i < (fl ? 6 : 10); ++i) { p[i] = g.coin() ? g.in(-lim, lim) : 0; if (nt) q[i] = g.coin(1, 3) ? g.in(-1, 1) : 0; }
		fx = (T)k / (T)(hx * hx); fy = (T)k / (T)(hy * hy); ft = nt ? (T)1 / (T)ht : (T)0;
		Ev("reset").out(); Ev("fd").f("xc", xc).f("yc", yc).f("nt", nt).f("hx", hx).f("hy", hy).f("ht", ht).f("x0", x0).f("y0", y0).f("k", k).f("p", p).f("q", q).out();
	}
	int n() const { return (nt + 1) * xc * yc; } int in() const { return (xc - 2) * (yc - 2); }
	int at(int t, int i, int j) const { return t * xc * yc + j * xc + i; } int iat(int i, int j) const { return (j - 1) * (xc - 2) + i - 1; }
	bool given(int t, int i, int j) const { return (nt && !t) || !i || !j || i == xc - 1 || j == yc - 1; }
	ll u(int t, int i, int j) const { return poly(p, x0 + i * hx, y0 + j * hy) + t * ht * poly(q, x0 + i * hx, y0 + j * hy); }
	ll f(int t, int i, int j) const { const ll x = x0 + i * hx, y = y0 + j * hy; return (nt ? poly(q, x, y) : 0) - k * (lap(p, x, y) + t * ht * lap(q, x, y)); }
	VI shuffled(int m) { VI o(m); for (int i = 0; i < m; ++i) o[i] = i; if (g.coin(2, 3)) for (int i = m - 1; i > 0; --i) std::swap(o[i], o[g.below(i + 1)]); else if (g.coin()) std::reverse(o.begin(), o.end()); return o; }
	std::string rows(const M& A) const { const ll s = (ll)hx * hx * hy * hy * ht; std::string r = "["; for (size_t i = 0; i < A.rows(); ++i) { r += i ? ",[" : "["; bool first = true; for (auto it = A.row_begin(i); it != A.row_end(i); ++it) { Num v = mult((double)*it, s, Eps<T>::t()); if (v.d && !v.a) continue; r += (first ? "[" : ",[") + js((int)it.column() + 1) + "," + js(v) + "]"; first = false; } r += "]"; } return r + "]"; }
	// the whole system, entry by entry in some order; entries may be written more than once
	void whole(M& A, V& b) {
		A = M(n(), n()); b = V(n()); const bool twice = g.coin();
		if (twice) for (int m = 0; m < n(); ++m) { const int r = g.below(n()); A.set(m, r, (T)g.in(-3, 3)); A.set(r, m, (T)g.in(-3, 3)); }
		if (twice) for (int m = 0; m < n(); ++m) { VI c; for (auto it = A.row_begin(m); it != A.row_end(m); ++it) c.push_back(it.column()); for (int j : c) A.set(m, j, (T)0); }
		for (int m : shuffled(n())) { const int t = m / (xc * yc), i = m % xc, j = m % (xc * yc) / xc;
			if (given(t, i, j)) { A.set(m, m, (T)1); b.set(m, (T)u(t, i, j)); continue; }
			std::vector<std::pair<int, T> > e = {{m, ft + 2 * fx + 2 * fy}, {at(t, i - 1, j), -fx}, {at(t, i + 1, j), -fx}, {at(t, i, j - 1), -fy}, {at(t, i, j + 1), -fy}}; if (nt) e.push_back({at(t - 1, i, j), -ft});
			for (int z : shuffled((int)e.size())) A.set(m, e[z].first, e[z].second); b.set(m, (T)f(t, i, j)); }
		NV r; for (int m = 0; m < n(); ++m) r.push_back(mult((double)b[m], 1, Eps<T>::t()));
		Ev("whole").f("k", MakeM<M>::kind()).raw("a", rows(A)).f("b", r).out();
	}
	// the inner system
	M direct() { M A(in(), in()); for (int m : shuffled(in())) { const int i = 1 + m % (xc - 2), j = 1 + m / (xc - 2); std::vector<std::pair<int, T> > e = {{m, ft + 2 * fx + 2 * fy}}; if (i > 1) e.push_back({m - 1, -fx}); if (i < xc - 2) e.push_back({m + 1, -fx}); if (j > 1) e.push_back({m - (xc - 2), -fy}); if (j < yc - 2) e.push_back({m + (xc - 2), -fy}); for (int z : shuffled((int)e.size())) A.set(m, e[z].first, e[z].second); } return A; }
	M inner(int how) {
		const int N = in(), w = xc - 2, h = yc - 2; M E = Construct::eye<MM, T>(N, N);
		switch (how) {
		case 1: { // differences along the edges of the grid
			M X((w + 1) * h, N), Y(w * (h + 1), N); for (int j = 0; j < h; ++j) for (int i = 0; i <= w; ++i) { if (i > 0) X.set(j * (w + 1) + i, j * w + i - 1, (T)-1); if (i < w) X.set(j * (w + 1) + i, j * w + i, (T)1); }
			for (int j = 0; j <= h; ++j) for (int i = 0; i < w; ++i) { if (j > 0) Y.set(j * w + i, (j - 1) * w + i, (T)-1); if (j < h) Y.set(j * w + i, j * w + i, (T)1); }
			return E * ft + X.transpose().mul(X) * fx + Y.transpose().mul(Y) * fy; }
		case 2: { const M A = direct(); const int c = g.in(-2, 2); return g.coin() ? Construct::tril<MM, T>(A, c) + Construct::triu<MM, T>(A, c + 1) : Construct::triu<MM, T>(A, c) + Construct::tril<MM, T>(A, c - 1); }
		case 3: { // the neighbours subtracted from the diagonal
			M X(N, N), Y(N, N); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { if (i + 1 < w) { X.set(j * w + i, j * w + i + 1, (T)1); X.set(j * w + i + 1, j * w + i, (T)1); } if (j + 1 < h) { Y.set(j * w + i, (j + 1) * w + i, (T)1); Y.set((j + 1) * w + i, j * w + i, (T)1); } }
			M A = (ft + 2 * fx + 2 * fy) * E; A -= X * fx; A -= fy * Y; return A; }
		case 4: { const M A = direct(), U = Construct::triu<MM, T>(A, 1); V d = Construct::diag<MM, T>(A); M D = Construct::diag<MM, T>(d); D += U; D += U.transpose(); return D; }
		case 5: { M A = direct(); A *= (T)2; M B = A.transpose(); return (T)0.25 * (A + B); }
		default: return direct();
		}
	}
	void out(const char* e, int t, const char* how, const std::string& x, const V& v) { NV r; if (x == "ok") for (size_t i = 0; i < v.size(); ++i) r.push_back(mult((double)v[i], 1, Eps<T>::sol())); Ev(e).f("t", t).f("how", how).f("k", MakeM<M>::kind()).f("exc", x).f("x", r).out(); }
	void solve(const M& A, const V& b) {
		V z(n()); for (int i = 0; i < n(); ++i) z[i] = (T)g.in(-2, 2);
		auto run = [&](const char* how, std::function<V()> s) { V y(1); std::string e = guarded([&] { y = s(); }); out("solve", 0, how, e, y); };
		if (sizeof(T) > 4) { if (n() < 200) run("sor", [&] { return Iterative::serial::sor(A, b, z, g.coin() ? 1.0 : 1.25, (size_t)20000, 1e-7); });
			if (n() < 100) run("jacobi", [&] { return Iterative::serial::jacobi(A, b, z, (size_t)20000, 1e-7); }); }
		if (n() <= 110) run("lu", [&] { M L(n(), n()), U(n(), n()), P(n(), n()); LU::serial::doolittle(A, L, U, P); return LU::serial::solve_lu(L, U, P.mul(b)); });
		if (n() <= 50) run("inverse", [&] { return Operations::inverse(A).mul(b); });
	}
	void use(const M& A, const V& b) {
		V x(n()), w(n()); for (int m = 0; m < n(); ++m) { x[m] = (T)u(m / (xc * yc), m % xc, m % (xc * yc) / xc); w[m] = (T)((m + 1) % 7); }
		const V r = A.mul(x) - b, r2 = A.transpose().mul_left(x) - b, d = Construct::diag<MM, T>(A); NV a1, a2, dd; const ll s = (ll)hx * hx * hy * hy * ht;
		double big = 1; for (int m = 0; m < n(); ++m) big = std::max(big, std::fabs((double)x[m]));
		for (int m = 0; m < n(); ++m) { a1.push_back(mult(r[m] / big, 1, 1e-4)); a2.push_back(mult(r2[m] / big, 1, 1e-4)); dd.push_back(mult(d[m], s, Eps<T>::t())); }
		Ev("use").f("r", a1).f("r2", a2).f("diag", dd).f("sum", mult(x.sum(), 1, 1e-4)).f("dot", mult(x.dot(w), 1, 1e-4)).out();
	}
	template<class F> void reorder(const SparseMatrix<T>& a, const V& r, F run) {
		for (int o = 0; o < 2; ++o) run(o ? "rcm" : "cm", [&] { auto pm = o ? r_cuthill_mckee(a) : cuthill_mckee(a); auto B = permutate(a, pm); auto s = permutate(r, inverse_permutation(pm)); V z(r.size()); for (size_t i = 0; i < z.size(); ++i) z[i] = (T)0; V y = CG::serial::cg(B, s, z, (size_t)(10 * z.size() + 50), Eps<T>::it()); return permutate(y, pm); });
		run("ilu", [&] { const int N = in(); V z(N); for (int i = 0; i < N; ++i) z[i] = (T)0; SparseMatrix<T> L(N, N), U(N, N), iL(N, N), iU(N, N); LU::serial::ilu0(a, L, U); LU::serial::ainv_lu(L, U, iL, iU); return CG::serial::pcg(a, r, iU.mul(iL), z, (size_t)(2 * N + 50), Eps<T>::it()); });
	}
	template<class F> void reorder(const DenseMatrix<T>&, const V&, F) {}
	// one time step after the other, each solver going on from the values of the one that came last
	void steps(const M& A) {
		const int N = in(), w = xc - 2; V v(N); for (int m = 0; m < N; ++m) v[m] = nt ? (T)u(0, 1 + m % w, 1 + m / w) : (T)0;
		for (int t = nt ? 1 : 0; t <= nt; ++t) {
			V b = v * ft; for (int m = 0; m < N; ++m) { const int i = 1 + m % w, j = 1 + m / w; T s = (T)f(t, i, j); if (i == 1) s += fx * (T)u(t, 0, j); if (i == w) s += fx * (T)u(t, xc - 1, j); if (j == 1) s += fy * (T)u(t, i, 0); if (j == yc - 2) s += fy * (T)u(t, i, yc - 1); b[m] += s; }
			const V old = v; V z = old; if (g.coin()) for (int i = 0; i < N; ++i) z[i] = (T)g.in(-2, 2);
			auto run = [&](const char* how, std::function<V()> s) { V y(1); std::string e = guarded([&] { y = s(); }); out("step", t, how, e, y); if (e == "ok" && (int)y.size() == N && g.coin()) v = y; };
			run("cg", [&] { return CG::serial::cg(A, b, z, (size_t)(10 * N + 50), Eps<T>::it()); });
			run("pcg", [&] { M C(N, N); CG::serial::jacobi(A, C); return CG::serial::pcg(A, b, C, z, (size_t)(10 * N + 50), Eps<T>::it()); });
			if (N <= 60) run("chol", [&] { M L(N, N); LU::serial::cholesky(A, L); return LU::serial::solve_lu(L, L.transpose(), b); });
			if (N <= 60) run("lu", [&] { M L(N, N), U(N, N), P(N, N); LU::serial::doolittle(A, L, U, P); return LU::serial::solve_lu(L, U, P.mul(b)); });
			if (N <= 40) run("inverse", [&] { return Operations::inverse(A).mul(b); });
			if (sizeof(T) > 4) run("sor", [&] { return Iterative::serial::sor(A, b, z, g.coin() ? 0.75 : 1.5, (size_t)20000, 1e-7); });
			reorder(A, b, run);
			if (v == old && nt) v = CG::serial::cg(A, b, z, (size_t)(10 * N + 50), Eps<T>::it());
		}
	}
	static SparseMatrix<T> other(const DenseMatrix<T>& a) { return Convert::toSparseMatrix(a); }
	static DenseMatrix<T> other(const SparseMatrix<T>& a) { return Convert::toDenseMatrix(a); }
	static void back(SparseMatrix<T>& a, const DenseMatrix<T>& b) { a = Convert::toSparseMatrix(b); }
	static void back(DenseMatrix<T>& a, const SparseMatrix<T>& b) { a = Convert::toDenseMatrix(b); }
	void go() {
		M A(1, 1); V b(1); whole(A, b); if (g.coin(1, 3)) back(A, other(A)); use(A, b); solve(A, b);
		for (int how = 0; how < 6; ++how) { M I = inner(how); if (g.coin(1, 4)) back(I, other(I)); Ev("inner").f("how", how).f("k", MakeM<M>::kind()).raw("a", rows(I)).out(); if (how % 3 == (int)(g.next() % 3)) steps(I); }
	}
};
template<class T, template<class> class M> void any(Rng& g, int size) { Fd<T, M> f(g, size, g.coin(2, 3)); f.go(); }
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 3101);
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int r = 0; r < (o.thorough ? 500 : 64); ++r) {
		MINE any<double, SparseMatrix>(g, g.in(3, 8));
		if (r % 2) MINE any<double, DenseMatrix>(g, g.in(3, 6));
		if (r % 3 == 0) MINE any<float, SparseMatrix>(g, g.in(3, 6));
		if (r % 6 == 1) MINE any<float, DenseMatrix>(g, g.in(3, 5));
		if (r % 8 == 0) MINE any<double, SparseMatrix>(g, 14);
	}
	fclose(g_out);
	return 0;
}
