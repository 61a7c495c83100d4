// Triangular factorisations, determinant, solving and inverting on larger systems (C09 - C12).  Matrices are logged as rows of
// <<column, value>>; the operands are made from factors that are logged too.
#include "mat.h"
#include <climits>
#include "LU.h"
#include "matrix/MatrixOperations.h"
TRACE_MAIN_GLOBALS
typedef std::complex<double> cd; typedef std::complex<float> cf;
typedef std::vector<std::map<int, Num> > SM;                    // rows without zeros
static Num I0(ll a, ll b = 0, ll d = 1) { ll g = gcdll(gcdll(a, b), d); return Num{a / g, b / g, d / g}; }
static Num add(Num x, Num y) { return I0(x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, x.d * y.d); }
static Num mul(Num x, Num y) { return I0(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a, x.d * y.d); }
static bool zero(Num x) { return x.a == 0 && x.b == 0; }
static void put(SM& m, int i, int j, Num v) { if (zero(v)) m[i].erase(j); else m[i][j] = v; }
static Num get(const SM& m, int i, int j) { auto p = m[i].find(j); return p == m[i].end() ? I0(0) : p->second; }
static SM mmul(const SM& A, const SM& B) { SM C(A.size()); for (size_t i = 0; i < A.size(); ++i) for (auto& e : A[i]) for (auto& f : B[e.first]) put(C, i, f.first, add(get(C, i, f.first), mul(e.second, f.second))); return C; }
static SM adj(const SM& A) { SM B(A.size()); for (size_t i = 0; i < A.size(); ++i) for (auto& e : A[i]) { Num v = e.second; v.b = -v.b; B[e.first][(int)i] = v; } return B; }
static std::string js(const SM& m) { std::string r = "["; for (size_t i = 0; i < m.size(); ++i) { r += i ? ",[" : "["; bool f = true; for (auto& e : m[i]) { r += (f ? "[" : ",[") + js(e.first) + "," + js(e.second) + "]"; f = false; } r += "]"; } return r + "]"; }
static std::vector<int> rperm(Rng& g, int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (g.coin(7, 8)) for (int k = n; k > 1; --k) std::swap(p[k - 1], p[g.below(k)]); return p; }
// results: whole numbers over a power of two
static ll dy(double x, double t) { double y = x * 16384; if (!(std::fabs(y) < 2e9)) return LLONG_MIN; double r = std::round(y); return std::fabs(y - r) <= t * std::max(1.0, std::fabs(x)) * 16384 ? (ll)r : LLONG_MIN; }
static Num dyn(double a, double b, double t) { ll x = dy(a, t), y = dy(b, t); return x == LLONG_MIN || y == LLONG_MIN ? Num{0, 1, 0} : I0(x, y, 16384); }
static Num D(double x) { return dyn(x, 0, 1e-9); }
static Num D(float x) { return dyn(x, 0, 1e-5); }
static Num D(cd x) { return dyn(x.real(), x.imag(), 1e-9); }
static Num D(cf x) { return dyn(x.real(), x.imag(), 1e-5); }
template<class M> std::string res(const M& m) { SM r(m.rows()); for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j) { Num v = D(m.at(i, j)); if (v.d == 0 || !zero(v)) r[i][j] = v; } return js(r); }
template<class V> NV resv(const V& x) { NV v; for (Index i = 0; i < x.size(); ++i) v.push_back(D(x.at(i))); return v; }
template<class M> M make(Rng& g, const SM& c) {
	const int n = c.size(); M m = MakeM<M>::make(n, n); const bool rev = g.coin();
	for (int q = 0; q < n; ++q) { int i = rev ? n - 1 - q : q; if (rev) for (auto e = c[i].rbegin(); e != c[i].rend(); ++e) m.set(i, e->first, toT<typename M::value_type>(e->second)); else for (auto& e : c[i]) m.set(i, e.first, toT<typename M::value_type>(e.second)); }
	return m;
}
// an output matrix with something in it
template<class M> M outM(Rng& g, int n) { M m = MakeM<M>::make(n, n); int how = g.below(3); if (how) for (int q = 0; q < (how == 1 ? 3 * n : n); ++q) m.set(g.below(n), g.below(n), (typename M::value_type)7); return m; }
template<class T> Num unit(Rng& g) { if (Mk<T>::cplx && g.coin(1, 3)) return I0(0, g.coin() ? 1 : -1); return I0(g.coin() ? 1 : -1); }
// strictly lower resp. upper entries only between different blocks, so that chains of entries are at most `depth` long
template<class T> SM lower(Rng& g, int n, int per, bool half, int depth = 2, int longest = 1000) {
	SM L(n); auto cl = [&](int i) { return (i * 7 + i / 5) % (depth + 1); };
	for (int i = 0; i < n; ++i) { for (int q = 0; q < per && i; ++q) { int j = g.coin() ? g.below(i) : i - 1 - g.below(std::min(i, 6)); if (cl(j) < cl(i)) { Num v = unit<T>(g); put(L, i, j, half ? I0(v.a, v.b, 2) : v); } } L[i][i] = I0(1); }
	if (n >= 60 && g.coin()) for (int j = 0; j + 1 < n; ++j) { Num v = unit<T>(g); L[n - 1][j] = half ? I0(v.a, v.b, 2) : v; }      // one long row
	if (n >= 60 && n <= longest && g.coin()) { const int c = 1 + g.below(5); for (int i = c + 1; i < n; ++i) if (g.coin(5, 6)) { Num v = unit<T>(g); L[i][c] = half ? I0(v.a, v.b, 2) : v; } }     // one long column
	return L;
}
template<class T> SM upper(Rng& g, int n, int per, int depth = 2) {
	SM U(n); auto cl = [&](int i) { return (i * 5 + i / 3) % (depth + 1); };
	for (int i = 0; i < n; ++i) { for (int q = 0; q < per && i + 1 < n; ++q) { int j = g.coin() ? g.in(i + 1, n - 1) : i + 1 + g.below(std::min(n - 1 - i, 6)); if (cl(i) < cl(j)) put(U, i, j, unit<T>(g)); } U[i][i] = unit<T>(g); }
	if (n >= 60 && g.coin()) for (int j = 1; j < n; ++j) U[0][j] = unit<T>(g);
	for (int q = 0; q < 8; ++q) { int i = g.below(n); U[i][i] = I0(g.coin() ? 2 : -2); }
	return U;
}
static int spot(Rng& g, int n) { int k = g.below(4); return k == 0 ? n - 1 : k == 1 ? n - 2 : k == 2 ? n / 2 + g.below((n + 1) / 2) : g.below(n); }
// P0 A = L0 U0, row i of which is row p[i] of A
template<class M> void system(Rng& g, int n, bool singular, SM& a) {
	typedef typename M::value_type T;
	SM L = lower<T>(g, n, 2, true), U = upper<T>(g, n, 2); auto p = rperm(g, n);
	if (singular) { U[spot(g, n)].clear(); int k = spot(g, n); U[k].erase(k); }
	SM B = mmul(L, U); a.assign(n, std::map<int, Num>()); for (int i = 0; i < n; ++i) a[p[i]] = B[i];
	Ev("reset").out(); Ev("fmat").f("k", MakeM<M>::kind()).raw("a", js(a)).f("p", p).raw("l", js(L)).raw("u", js(U)).out();
}
template<class M> void c09(Rng& g, int n) {
	typedef typename M::value_type T; SM a; system<M>(g, n, g.coin(1, 4), a);
	const M A0 = make<M>(g, a); M A = A0;
	for (int q = 0; q < 2; ++q) {
		M L = outM<M>(g, n), U = outM<M>(g, n), P = outM<M>(g, n); size_t pc = 77;
		std::string e = guarded([&] { if (q) LU::serial::doolittle(A, L, U, P); else LU::serial::doolittle(A, L, U, P, &pc); });
		Ev ev("lu"); ev.f("exc", e).f("same", A == A0);
		if (e == "ok") { ev.raw("l", res(L)).raw("u", res(U)).raw("p", res(P)); bool up = true; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (U.at(i, j) != (T)0) up = false; ev.f("up", up).f("n", pc % 2).f("counted", q == 0); }
		ev.out();
	}
}
template<class M> void c10(Rng& g, int n) {
	typedef typename M::value_type T; SM a; system<M>(g, n, g.coin(1, 4), a);
	const M A0 = make<M>(g, a); M A = A0; T d = (T)7; std::string e = guarded([&] { d = Operations::determinant(A); });
	Ev("det").f("exc", e).f("d", D(d)).f("same", A == A0).out();
	M R = A; e = guarded([&] { R = Operations::inverse(A); });
	{ Ev ev("inv"); ev.f("exc", e).f("same", A == A0); if (e == "ok") ev.raw("r", res(R)); ev.out(); }
	for (int q = 0; q < 2; ++q) { // any triangular matrices
		SM l = lower<T>(g, n, 3, g.coin(), 3), u = upper<T>(g, n, 3, 3); if (q) for (int i = 0; i < n; ++i) if (g.coin(1, 4)) l[i][i] = I0(g.coin() ? 2 : -1);
		if (g.coin(1, 6)) { int i = spot(g, n); (g.coin() ? l : u)[i].erase(i); }
		SM lu = mmul(l, u); NV b(n, I0(0)); for (int i = 0; i < n; ++i) for (auto& x : lu[i]) b[i] = add(b[i], mul(x.second, I0((x.first * 5 + 1) % 7 - 3)));
		const M L0 = make<M>(g, l), U0 = make<M>(g, u); M L = L0, U = U0; DynamicVector<T> v = ofv<T>(b), x = v; const DynamicVector<T> v0 = v;
		e = guarded([&] { x = LU::serial::solve_lu(L, U, v); });
		Ev ev("solve"); ev.raw("l", js(l)).raw("u", js(u)).f("b", b).f("exc", e).f("same", L == L0 && U == U0 && v == v0); if (e == "ok") ev.f("x", resv(x)); ev.out();
	}
}
template<class M> void c11(Rng& g, int n) {
	typedef typename M::value_type T;
	SM L = lower<T>(g, n, 3, g.coin(1, 3), 1000, 101); NV d(n, I0(1)); for (int q = 0; q < n / 3; ++q) d[g.below(n)] = I0(4);
	const int kind = g.below(3); if (kind == 1) d[spot(g, n)] = I0(g.coin() ? -1 : 0); if (kind == 2 && g.coin()) d[spot(g, n)] = I0(1, 0, 4);
	SM W = L; for (int i = 0; i < n; ++i) for (auto& e : W[i]) e.second = mul(e.second, d[e.first]);
	SM a = mmul(W, adj(L)); for (auto& r : a) for (auto& e : r) if (e.second.d > 4096) return;
	Ev("reset").out(); Ev("fsym").f("k", MakeM<M>::kind()).raw("a", js(a)).raw("l", js(L)).f("d", d).out();
	const M A0 = make<M>(g, a); M A = A0, C = outM<M>(g, n); std::string e = guarded([&] { LU::serial::cholesky(A, C); });
	Ev ev("chol"); ev.f("exc", e).f("same", A == A0); if (e == "ok") { bool low = true; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (C.at(i, j) != (T)0) low = false; ev.raw("l", res(C)).f("low", low); } ev.out();
}
template<class T> void ilu(Rng& g, int n, int per, int zeroAt) {
	typedef SparseMatrix<T> M; SM L(n), U(n), a(n);
	const bool arrow = n < 400 && g.coin(1, 3);      // a full first row and column
	for (int i = 0; i < n; ++i) for (int tries = 0; tries < 60; ++tries) {
		std::map<int, Num> s; s[i] = I0(1); if (arrow) { s[0] = I0(1); if (i == 0) for (int j = 1; j < n; ++j) s[j] = I0(1); } for (int q = 0; q < per; ++q) { int j = g.coin() ? g.below(n) : std::min(n - 1, std::max(0, i - 3 + g.below(7))); s[j] = I0(1); }
		if (i == zeroAt) s.erase(i);
		L[i].clear(); U[i].clear(); a[i].clear(); L[i][i] = I0(1); bool good = true;
		for (auto& e : s) { int j = e.first; Num v = unit<T>(g); if (j < i) L[i][j] = I0(v.a, v.b, 2); else U[i][j] = j == i && g.coin(1, 8) ? I0(2) : v; }
		for (auto& e : s) { Num t = I0(0); for (auto& f : L[i]) t = add(t, mul(f.second, get(U, f.first, e.first))); if (zero(t) || std::abs(t.a) > 1000 || std::abs(t.b) > 1000 || t.d > 16) good = false; a[i][e.first] = t; }
		if (good) break;
		if (tries > 40) { a[i].clear(); L[i].clear(); U[i].clear(); L[i][i] = a[i][i] = U[i][i] = I0(1); break; }
	}
	Ev("reset").out(); Ev("fpat").raw("a", js(a)).raw("l", js(L)).raw("u", js(U)).out();
	const M A0 = make<M>(g, a); M A = A0; for (int q = 0; q < 2; ++q) {
		M l = outM<M>(g, q ? n : 3), u = outM<M>(g, n); std::string e = guarded([&] { LU::serial::ilu0(A, l, u); });
		Ev ev("ilu"); ev.f("exc", e).f("same", A == A0); if (e == "ok") ev.raw("l", res(l)).raw("u", res(u)); ev.out(); }
}
template<class M> void invLU(const M& L, const M& U, const M& L0, const M& U0, std::true_type) { M R = L; std::string e = guarded([&] { R = Operations::inverse(L, U); }); Ev ev("invlu"); ev.f("exc", e).f("same", L == L0 && U == U0).f("p", std::vector<int>()); if (e == "ok") ev.raw("r", res(R)); ev.out(); }
template<class M> void invLU(const M&, const M&, const M&, const M&, std::false_type) {}
template<class M> struct Fx { enum : bool { v = false }; };
template<class T, Dimension A, Dimension B> struct Fx<FixedMatrix<T, A, B> > { enum : bool { v = true }; };
template<class M> void c12(Rng& g, int n) {
	typedef typename M::value_type T;
	SM l = lower<T>(g, n, 3, g.coin(), 2), u = upper<T>(g, n, 3, 2); if (g.coin(1, 6)) { int i = spot(g, n); u[i].erase(i); }
	auto p = rperm(g, n); SM pm(n); for (int i = 0; i < n; ++i) pm[i][p[i]] = I0(1);
	Ev("reset").out(); Ev("ftri").f("k", MakeM<M>::kind()).raw("l", js(l)).raw("u", js(u)).out();
	const M L0 = make<M>(g, l), U0 = make<M>(g, u), P0 = make<M>(g, pm); M L = L0, U = U0, P = P0, iL = outM<M>(g, n), iU = outM<M>(g, n), R = L0;
	std::string e = guarded([&] { LU::serial::ainv_lu(L, U, iL, iU); });
	{ Ev ev("ainv"); ev.f("exc", e).f("same", L == L0 && U == U0); if (e == "ok") ev.raw("il", res(iL)).raw("iu", res(iU)); ev.out(); }
	invLU<M>(L, U, L0, U0, std::integral_constant<bool, !Fx<M>::v>());
	e = guarded([&] { R = Operations::inverse(L, U, P); });
	{ Ev ev("invlu"); ev.f("exc", e).f("same", L == L0 && U == U0 && P == P0).f("p", p); if (e == "ok") ev.raw("r", res(R)); ev.out(); }
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 1701);
	int n = 0; typedef SparseMatrix<double> S; typedef DenseMatrix<double> De;
#define MINE if (n++ % o.shards == o.shard)
#define ONE(F, B, C) MINE F<S>(g, B); MINE F<De>(g, C); MINE F<De>(g, 130); \
		for (int s : {10, 11, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 50, 63, 64, 65, 66, 90, 100, 101}) { MINE F<S>(g, s); MINE F<De>(g, s); if (s % 4 == 0) { MINE F<SparseMatrix<float> >(g, s); MINE F<DenseMatrix<cd> >(g, s); } if (s % 3 == 0) { MINE F<DenseMatrix<float> >(g, s); MINE F<SparseMatrix<cd> >(g, s); } if (s < 30) { MINE F<SparseMatrix<cf> >(g, s); MINE F<S>(g, s); MINE F<De>(g, s); } } \
		MINE { F<FixedMatrix<double, 10, 10> >(g, 10); F<FixedMatrix<double, 17, 17> >(g, 17); } MINE { F<FixedMatrix<double, 33, 33> >(g, 33); F<FixedMatrix<float, 12, 12> >(g, 12); F<FixedMatrix<cd, 16, 16> >(g, 16); }
	for (int k = 0; k < (o.thorough ? 8 : 1); ++k) {
		if (o.mode == "C09") { ONE(c09, 258, 260) }
		if (o.mode == "C10") { ONE(c10, 220, 258) }
		if (o.mode == "C11") { ONE(c11, 260, 258) }
		if (o.mode == "C12") { ONE(c12, 130, 200)
			for (int s : {10, 12, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 127, 129, 200, 257, 300, 1000, 2000}) for (int per = 1; per <= 4; ++per) { MINE ilu<double>(g, s, per, -1); if (per == 2) { MINE ilu<double>(g, s, 3, spot(g, s)); MINE ilu<cd>(g, s, 2, -1); if (s < 40) { MINE ilu<float>(g, s, 2, -1); } } } }
	}
	fclose(g_out);
	return 0;
}
