// Pure matrix functions: C05 products and transposes, C06 aggregates, C08 constructors, predicates and conversion.
#include "mat.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConverter.h"
TRACE_MAIN_GLOBALS

// ------------------------------------------------------------------ C05
// In the scaled and wide modes only the matrix is scaled or wide; the vectors and right factors are ordinary small values.
struct Unit { bool w; Unit() : w(WIDE()) { WIDE() = false; } ~Unit() { WIDE() = w; } };
template<class M> M ofU(const NM& c) { Scale one(1); return of<M>(c); }
template<class T> DynamicVector<T> ofvU(const NV& c) { Scale one(1); return ofv<T>(c); }
inline bool large(const NM& a) { for (auto& r : a) for (auto& x : r) if (std::abs(x.a) > 100) return true; return false; }
template<class M> NM contU(const M& m) { Scale one(1); return cont(m); }
template<class M, class V> void mulv(const M& m, const NM& a, const NV& v, const V& x) {
	NV r; std::string e = guarded([&] { r = contv(m.mul(x)); });
	Ev("mulv").f("k", MakeM<M>::kind()).f("a", a).f("v", v).f("exc", e).f("r", r).f("after", cont(m)).out();
}
template<class M, class V> void vmul(const M& m, const NM& a, const NV& v, const V& x) {
	NV r; std::string e = guarded([&] { r = contv(m.mul_left(x)); });
	Ev("vmul").f("k", MakeM<M>::kind()).f("a", a).f("v", v).f("exc", e).f("r", r).f("after", cont(m)).out();
}
template<class M, class TR> void unary(const M& m, const NM& a) {
	TR t = m.transpose(); M c = m.conjugate(); TR d = m.adjugate();
	Ev("un").f("k", MakeM<M>::kind()).f("a", a).f("t", cont(t)).f("c", cont(c)).f("d", cont(d)).f("tr", num(m.trace())).f("after", cont(m)).out();
}
template<class M> void mulm(const NM& a, const NM& b) {
	M x = of<M>(a), y = ofU<M>(b); NM r;
	std::string e = guarded([&] { r = cont(x.mul(y)); });
	Ev("mul").f("k", MakeM<M>::kind()).f("a", a).f("b", b).f("exc", e).f("r", r).f("after", cont(x)).f("after2", contU(y)).out();
	if (a.size() == a[0].size() && SC() == 1 && !large(a)) { NM q = cont(x.mul(x)); Ev("mul").f("k", MakeM<M>::kind()).f("a", a).f("b", a).f("exc", "ok").f("r", q).f("after", cont(x)).f("after2", cont(x)).out(); }
}
template<class T> void c05(Rng& g, size_t R, size_t C, size_t D, int dens) {
	NM a = rmat<T>(g, R, C, 5, dens, 4); Unit one; NM b = rmat<T>(g, C, D, 5, g.in(0, 4), 4);
	if (g.coin(1, 3)) { int i = g.below((int)R); for (auto& x : a[i]) x = Num{0, 0, 1}; }
	if (g.coin(1, 3)) { int j = g.below((int)C); for (auto& r : a) r[j] = Num{0, 0, 1}; }
	NV v = rvec<T>(g, C, 5), w = rvec<T>(g, R, 5);
	if (g.coin(1, 5)) { NV o = rvec<T>(g, C + g.in(1, 2), 5); if (g.coin()) v = o; else if (C > 1) v = rvec<T>(g, C - 1, 5); }
	if (g.coin(1, 5)) { if (g.coin()) w = rvec<T>(g, R + g.in(1, 2), 5); else if (R > 1) w = rvec<T>(g, R - 1, 5); }
	if (g.coin(1, 5)) b = rmat<T>(g, C + 1, D, 5);
	else if (g.coin(1, 6) && C > 1) b = rmat<T>(g, C - 1, D, 5);
	Ev("reset").out();
	{ typedef DenseMatrix<T> M; M m = of<M>(a); unary<M, M>(m, a); mulv(m, a, v, ofvU<T>(v)); vmul(m, a, w, ofvU<T>(w)); mulm<M>(a, b); }
	{ typedef SparseMatrix<T> M; M m = of<M>(a); unary<M, M>(m, a); mulv(m, a, v, ofvU<T>(v)); vmul(m, a, w, ofvU<T>(w)); mulm<M>(a, b); }
}
template<class T, Dimension R, Dimension C, Dimension D> void c05f(Rng& g) {
	NM a = rmat<T>(g, R, C, 5); Unit one; NM b = rmat<T>(g, C, D, 5); NV v = rvec<T>(g, C, 5), w = rvec<T>(g, R, 5);
	typedef FixedMatrix<T, R, C> M; M m = of<M>(a);
	Ev("reset").out();
	unary<M, FixedMatrix<T, C, R> >(m, a);
	FixedVector<T, C> x; FixedVector<T, R> y; { Scale one(1); putv(x, v); putv(y, w); }
	mulv(m, a, v, x); vmul(m, a, w, y);
	FixedMatrix<T, C, D> n = ofU<FixedMatrix<T, C, D> >(b);
	FixedMatrix<T, R, D> r = m.mul(n);
	Ev("mul").f("k", "fixed").f("a", a).f("b", b).f("exc", "ok").f("r", cont(r)).f("after", cont(m)).f("after2", contU(n)).out();
	// dynamic matrix with fixed vectors
	DenseMatrix<T> dm = of<DenseMatrix<T> >(a); mulv(dm, a, v, x); vmul(dm, a, w, y);
	SparseMatrix<T> sm = of<SparseMatrix<T> >(a); mulv(sm, a, v, x); vmul(sm, a, w, y);
}

// ------------------------------------------------------------------ C06
// special values: 90 NaN, 91 +inf, 92 -inf
static Num special(int s) { return s == 90 ? Num{0, 0, 0} : s == 91 ? Num{1, 0, 0} : Num{-1, 0, 0}; }
template<class T> struct Sp { static T make(int s) { typedef typename Mk<T>::real R; R x = s == 90 ? std::numeric_limits<R>::quiet_NaN() : std::numeric_limits<R>::infinity(); return (T)(s == 92 ? -x : x); } };
template<class R> struct Sp<std::complex<R> > { static std::complex<R> make(int s) { R x = s == 90 ? std::numeric_limits<R>::quiet_NaN() : std::numeric_limits<R>::infinity(); if (s == 92) return std::complex<R>(1, x); return std::complex<R>(s == 91 ? x : (R)2, s == 90 ? x : (R)0); } };
template<class T> struct MinMax { template<class M> static void put(Ev& e, const M& m) { e.f("max", num(m.max())).f("min", num(m.min())); } };
template<class R> struct MinMax<std::complex<R> > { template<class M> static void put(Ev&, const M&) {} };
template<class T> struct Spec { static Num num_(int s) { return special(s); } };
template<class R> struct Spec<std::complex<R> > { static Num num_(int s) { return s == 90 ? Num{0, 0, 0} : Num{1, 0, 0}; } };

template<class M> void aggM(Rng& g, const NM& a0, int nspecial) {
	typedef typename M::value_type T;
	NM a = a0; M m = of<M>(a);
	for (int k = 0; k < nspecial; ++k) { int i = g.below((int)a.size()), j = g.below((int)a[0].size()), s = g.in(90, 92); m.set(i, j, Sp<T>::make(s)); a[i][j] = Spec<T>::num_(s); }
	Ev e("agg"); e.f("k", MakeM<M>::kind()).f("cx", (bool)Mk<T>::cplx).f("a", a).f("nan", m.has_nan()).f("inf", m.has_inf()).f("zero", m.has_zero()).f("empty", m.empty());
	if (!nspecial) { e.f("sum", num(m.sum())).f("avg", num(m.avg())); MinMax<T>::put(e, m); }
	e.out();
}
template<class V> void aggV(Rng& g, V& v, const NV& a0, int nspecial) {
	typedef typename V::value_type T;
	NV a = a0; putv(v, a);
	for (int k = 0; k < nspecial; ++k) { int i = g.below((int)a.size()), s = g.in(90, 92); v.set(i, Sp<T>::make(s)); a[i] = Spec<T>::num_(s); }
	Ev e("aggv"); e.f("cx", (bool)Mk<T>::cplx).f("a", a).f("nan", v.hasNaN() != (bool)0).f("inf", (bool)v.hasInf()).f("zero", v.hasZero());
	if (!nspecial) e.f("sum", num(v.sum())).f("avg", num(v.avg())).f("max", num(v.max())).f("min", num(v.min()));
	e.out();
}
static const int PY[][2] = {{3, 4}, {-3, 4}, {0, 2}, {5, 0}, {-4, 3}, {0, -6}, {8, -6}, {-1, 0}, {0, 0}, {-5, -12}};
template<class T> NM shaped(Rng& g, size_t R, size_t C, int how) {      // how: 0 mixed, 1 all negative, 2 all positive, 3 all zero, 4 few entries, 5 one zero, 6 all equal
	NM a(R, NV(C, Num{0, 0, 1}));
	int eq = g.in(-3, 3);
	for (auto& r : a) for (auto& x : r) switch (how) {
		case 0: x = rnum<T>(g, 9); break;
		case 1: x = Num{-g.in(1, 9), 0, 1}; break;
		case 2: case 5: x = Num{g.in(1, 9), 0, 1}; break;
		case 4: if (g.coin(1, 4)) x = rnum<T>(g, 9); break;
		case 6: x = Num{eq, 0, 1}; break;
	}
	if (how == 5) a[g.below((int)R)][g.below((int)C)] = Num{0, 0, 1};
	return a;
}
template<class T> void c06(Rng& g, size_t R, size_t C, int how, int nsp) {
	Ev("reset").out();
	NM a = shaped<T>(g, R, C, how);
	aggM<DenseMatrix<T> >(g, a, nsp); aggM<SparseMatrix<T> >(g, a, nsp);
	NV v = a[0]; for (size_t i = 1; i < R; ++i) v.insert(v.end(), a[i].begin(), a[i].end());
	if (Mk<T>::cplx) for (auto& x : v) { auto p = PY[g.below(10)]; x = Num{p[0], p[1], 1}; }
	{ DynamicVector<T> d(v.size()); aggV(g, d, v, nsp); }
	{ FixedVector<T, 1> f; NV w(v.begin(), v.begin() + 1); aggV(g, f, w, nsp); }
	if (v.size() >= 3) { FixedVector<T, 3> f; NV w(v.begin(), v.begin() + 3); aggV(g, f, w, nsp); }
	if (v.size() >= 6) { FixedVector<T, 6> f; NV w(v.begin(), v.begin() + 6); aggV(g, f, w, nsp); }
}
template<class T, Dimension R, Dimension C> void c06f(Rng& g, int how, int nsp) { Ev("reset").out(); aggM<FixedMatrix<T, R, C> >(g, shaped<T>(g, R, C, how), nsp); }

// ------------------------------------------------------------------ C08
template<class M> void pred(const M& m, const NM& a) {
	if (linearOnly()) {      // these four do not depend on the size of the values
		Ev("preds").f("k", MakeM<M>::kind()).f("a", a).f("sym", Check::matrixIsSymmetric(m)).f("her", Check::matrixIsHermitian(m))
			.f("ssym", Check::matrixIsSkewSymmetric(m)).f("sher", Check::matrixIsSkewHermitian(m)).f("after", cont(m)).out();
		return;
	}
	Ev("pred").f("k", MakeM<M>::kind()).f("a", a).f("sym", Check::matrixIsSymmetric(m)).f("her", Check::matrixIsHermitian(m))
		.f("ssym", Check::matrixIsSkewSymmetric(m)).f("sher", Check::matrixIsSkewHermitian(m)).f("orth", Check::matrixIsOrthogonal(m))
		.f("unit", Check::matrixIsUnitary(m)).f("proj", Check::matrixIsProjection(m)).f("after", cont(m)).out();
}
template<class T> NM predMat(Rng& g, size_t n, int how, size_t m) {
	NM a(n, NV(m, Num{0, 0, 1}));
	if (how == 0 || n != m) return rmat<T>(g, n, m, 3);
	if (how == 1) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[g.below((int)k)]);
		for (size_t i = 0; i < n; ++i) { int s = g.below(Mk<T>::cplx ? 4 : 2); a[i][p[i]] = s == 0 ? Num{1, 0, 1} : s == 1 ? Num{-1, 0, 1} : s == 2 ? Num{0, 1, 1} : Num{0, -1, 1}; } }
	else if (how == 2) { for (size_t i = 0; i < n; ++i) a[i][i] = Num{g.below(2), 0, 1}; if (n > 1 && g.coin() && a[0][0].a) { for (size_t i = 1; i < n; ++i) if (a[i][i].a == 0) a[0][i] = Num{g.in(-2, 2), 0, 1}; } }
	else {      // symmetric, hermitian, skew ...
		for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) {
			Num x = g.coin(3, 4) ? rnum<T>(g, 3) : Num{0, 0, 1}, y = x;
			if (how == 4) y.b = -y.b; if (how == 5) { y.a = -y.a; y.b = -y.b; } if (how == 6) y.a = -y.a;
			if (i == j) { if (how == 4) x.b = 0; if (how == 5) x = Num{0, 0, 1}; if (how == 6) x.a = 0; a[i][i] = x; }
			else { a[i][j] = x; a[j][i] = y; }
		}
	}
	if (g.coin(1, 3)) { int i = g.below((int)n), j = g.below((int)n); a[i][j] = rnum<T>(g, 3); }      // one entry off
	return a;
}
template<template<typename> class M, class T> void c08dyn(Rng& g, size_t R, size_t C) {
	typedef M<T> X; const char* k = MakeM<X>::kind();
	{ X e = Construct::eye<M, T>(R, C); Ev("eye").f("k", k).f("r", R).f("c", C).f("res", contU(e)).out(); }
	{ NV v = rvec<T>(g, R, 4); X d = Construct::diag<M, T>(ofv<T>(v)); Ev("diagv").f("k", k).f("v", v).f("res", cont(d)).out(); }
	NM a = rmat<T>(g, R, C, 5); X m = of<X>(a);
	{ auto d = Construct::diag<M, T>(m); Ev("diagm").f("k", k).f("a", a).f("res", contv(d)).out(); }
	for (int o = -(int)R - 1; o <= (int)C + 1; ++o) {
		X lo = Construct::tril<M, T>(m, o), up = Construct::triu<M, T>(m, o);
		Ev("tri").f("k", k).f("a", a).f("o", o).f("l", cont(lo)).f("u", cont(up)).out();
	}
	{ X lo = Construct::tril<M, T>(m), up = Construct::triu<M, T>(m); Ev("tri").f("k", k).f("a", a).f("o", 0).f("l", cont(lo)).f("u", cont(up)).out(); }
}
template<class T> void c08conv(Rng& g, size_t R, size_t C, int dens) {
	NM a = rmat<T>(g, R, C, 5, dens, 4);
	DenseMatrix<T> d = of<DenseMatrix<T> >(a); SparseMatrix<T> s = Convert::toSparseMatrix(d);
	size_t n = s.filled_count(); DenseMatrix<T> b = Convert::toDenseMatrix(s); SparseMatrix<T> s2 = of<SparseMatrix<T> >(a); DenseMatrix<T> b2 = Convert::toDenseMatrix(s2);
	Ev("conv").f("a", a).f("s", cont(s)).f("n", n).f("d", cont(b)).f("d2", cont(b2)).f("ad", cont(d)).f("as", cont(s2)).out();
}
template<class T> void hilb(size_t d) {
	{ auto h = Construct::hilbert<DenseMatrix, T>(d); auto i = Construct::inv_hilbert<DenseMatrix, T>(d); Ev("hilb").f("k", "dense").f("n", d).f("h", cont(h)).f("i", cont(i)).out(); }
	{ auto h = Construct::hilbert<SparseMatrix, T>(d); auto i = Construct::inv_hilbert<SparseMatrix, T>(d); Ev("hilb").f("k", "sparse").f("n", d).f("h", cont(h)).f("i", cont(i)).out(); }
}
template<class T, Dimension R, Dimension C> void c08fix(Rng& g) {
	auto e = Construct::eye<T, R, C>(); Ev("eye").f("k", "fixed").f("r", R).f("c", C).f("res", contU(e)).out();
	NM a = rmat<T>(g, R, C, 5); FixedMatrix<T, R, C> f = of<FixedMatrix<T, R, C> >(a); SparseMatrix<T> s = Convert::toSparseMatrix(f); DenseMatrix<T> d = Convert::toDenseMatrix(s);
	Ev("conv").f("a", a).f("s", cont(s)).f("n", s.filled_count()).f("d", cont(d)).f("d2", cont(d)).f("ad", cont(f)).f("as", cont(s)).out();
}

// ------------------------------------------------------------------ C29
template<class M> void norms(const NM& a) {
	typedef typename M::value_type T;
	M m = of<M>(a);      // squares of the norms, scaled like the square of the entries
	const T mx = Operations::max_norm2(m), mn = Operations::min_norm2(m), cd = Operations::cond(m);
	Ev("norm").f("k", MakeM<M>::kind()).f("a", a).f("max", num2((T)(mx * mx))).f("min", num2((T)(mn * mn))).f("cm", mn > 0 ? num2((T)(cd * mn * cd * mn)) : numU(cd)).f("signs", mx >= 0 && mn >= 0 && !(cd < 0)).f("after", cont(m)).out();
}
template<class T> NM normMat(Rng& g, size_t R, size_t C, int how) {
	NM a(R, NV(C, Num{0, 0, 1}));
	for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { int v = how == 0 ? g.in(-9, 9) : how == 1 ? -g.in(1, 9) : how == 2 ? g.in(1, 9) : how == 3 ? (g.coin(1, 3) ? g.in(-9, 9) : 0) : how == 4 ? (g.coin() ? 3 : -3) : (j == 0 ? g.in(1, 3) : -g.in(4, 9)); a[i][j] = Num{v, 0, 1}; }
	return a;
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 23);
	typedef std::complex<double> Z; typedef std::complex<float> Zf;
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
#ifdef PART_C05
	if (o.mode == "C05") {
		const int K = o.thorough ? 30 : 2;
		for (int k = 0; k < 2 * K; ++k) {
			Mode mode(k % 2 == 0 ? 0 : 1 + (k / 2 + o.seed) % 3);
			for (size_t R = 1; R <= 4; ++R) for (size_t C = 1; C <= 4; ++C) for (int d = 0; d <= 4; d += 2) {
				MINE c05<double>(g, R, C, g.in(1, 4), d);
				MINE c05<Z>(g, R, C, g.in(1, 4), d);
				if (d == 2) { MINE c05<float>(g, R, C, g.in(1, 4), 3); MINE c05<Zf>(g, R, C, g.in(1, 4), 3); }
			}
			for (int q = 0; q < 6; ++q) { MINE c05<double>(g, g.in(5, 9), g.in(1, 9), g.in(1, 6), 2); MINE c05<Z>(g, g.in(1, 7), g.in(5, 8), g.in(1, 6), 1); }
			for (int q = 0; q < 3; ++q) { MINE { c05f<double, 1, 1, 1>(g); c05f<double, 2, 3, 4>(g); c05f<double, 3, 2, 2>(g); c05f<double, 3, 3, 3>(g); c05f<double, 4, 1, 3>(g); c05f<double, 1, 4, 1>(g); c05f<Z, 2, 3, 2>(g); c05f<Z, 3, 2, 4>(g); c05f<Z, 3, 3, 1>(g); c05f<float, 2, 4, 3>(g); } }
		}
	}
#endif
#ifdef PART_C06
	if (o.mode == "C06") {
		const int K = o.thorough ? 20 : 2;
		static const size_t dims[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 5}, {2, 3}, {3, 2}, {3, 3}, {4, 5}, {1, 17}, {13, 2}, {7, 8}};
		for (int k = 0; k < K; ++k) for (auto& d : dims) for (int how = 0; how <= 6; ++how) for (int sp = 0; sp < 3; ++sp) {
			if (sp == 2 && how > 2) continue;
			if (&d > dims + 8 && (how + k) % 2) continue;
			Mode mode((how + k + (&d - dims)) % 3 ? 0 : 1 + (how + k + o.seed) % 3);
			MINE c06<double>(g, d[0], d[1], how, sp); MINE c06<float>(g, d[0], d[1], how, sp); MINE c06<Z>(g, d[0], d[1], how, sp);
			if (how < 3) { MINE c06<Zf>(g, d[0], d[1], how, sp); }
			if (&d == dims) { MINE { c06f<double, 1, 1>(g, how, sp); c06f<double, 2, 3>(g, how, sp); c06f<double, 3, 2>(g, how, sp); c06f<float, 2, 2>(g, how, sp); c06f<Z, 2, 2>(g, how, sp); c06f<double, 4, 4>(g, how, sp); } }
		}
	}
#endif
#ifdef PART_C08
	if (o.mode == "C08") {
		const int K = o.thorough ? 20 : 1;
		for (int k = 0; k < 2 * K; ++k) {
			Mode mode(k % 2 == 0 ? 0 : 1 + (k / 2 + o.seed) % 3);
			{ static const size_t wide[][2] = {{7, 9}, {9, 6}, {12, 2}, {1, 11}, {8, 8}}; for (auto& d : wide) { MINE { Ev("reset").out(); c08dyn<DenseMatrix, double>(g, d[0], d[1]); c08dyn<SparseMatrix, double>(g, d[0], d[1]); c08conv<double>(g, d[0], d[1], 2); c08conv<float>(g, d[0], d[1], 1); } } }
			for (size_t R = 1; R <= 5; ++R) for (size_t C = 1; C <= 5; ++C) {
				MINE { Ev("reset").out(); c08dyn<DenseMatrix, double>(g, R, C); c08dyn<SparseMatrix, double>(g, R, C); }
				MINE { Ev("reset").out(); c08dyn<DenseMatrix, Z>(g, R, C); c08dyn<SparseMatrix, Z>(g, R, C); c08dyn<SparseMatrix, float>(g, R, C); c08dyn<DenseMatrix, float>(g, R, C); }
				MINE { Ev("reset").out(); for (int d = 0; d <= 4; ++d) { c08conv<double>(g, R, C, d); c08conv<Z>(g, R, C, d); c08conv<float>(g, R, C, d); } }
			}
			MINE { Ev("reset").out(); c08fix<double, 1, 1>(g); c08fix<double, 2, 3>(g); c08fix<double, 3, 2>(g); c08fix<double, 3, 3>(g); c08fix<Z, 2, 3>(g); c08fix<float, 4, 2>(g); }
			if (k == 0) for (size_t d = 1; d <= 6; ++d) MINE { Ev("reset").out(); if (k == 0) hilb<double>(d); if (k == 0 && d <= 4) hilb<float>(d); }
			for (int q = 0; q < (k % 2 ? 25 : 60); ++q) for (int how = 0; how <= 6; ++how) {
				size_t s = q % 10 == 9 ? g.in(5, 8) : g.in(1, 4), t = how == 0 && g.coin() ? g.in(1, 4) : s;
				MINE { Ev("reset").out(); NM a = predMat<double>(g, s, how, t); pred(of<DenseMatrix<double> >(a), a); pred(of<SparseMatrix<double> >(a), a); }
				MINE { Ev("reset").out(); NM a = predMat<Z>(g, s, how, t); pred(of<DenseMatrix<Z> >(a), a); pred(of<SparseMatrix<Z> >(a), a); }
				if (q < 20) MINE { Ev("reset").out(); NM a = predMat<double>(g, 3, how, 3); pred(of<FixedMatrix<double, 3, 3> >(a), a); NM b = predMat<Z>(g, 2, how, 2); pred(of<FixedMatrix<Z, 2, 2> >(b), b); NM c = predMat<float>(g, 1, how, 1); pred(of<FixedMatrix<float, 1, 1> >(c), c); }
			}
		}
	}
#endif
#ifdef PART_C29
	if (o.mode == "C29") {
		for (int k = 0; k < (o.thorough ? 60 : 6); ++k) for (int how = 0; how < 6; ++how) for (size_t R = 1; R <= 5; ++R) for (size_t C = 1; C <= 5; ++C) {
			Mode mode(k % 3 == 1 ? 1 + (how + C) % 2 : 0);
			MINE { Ev("reset").out(); size_t r = k % 5 == 4 ? R + 4 : R, c = k % 5 == 3 ? C + 5 : C; norms<DenseMatrix<double> >(normMat<double>(g, r, c, how)); norms<SparseMatrix<double> >(normMat<double>(g, r, c, how)); norms<DenseMatrix<float> >(normMat<float>(g, R, C, how)); norms<SparseMatrix<float> >(normMat<float>(g, R, C, how)); }
			if (R == C) MINE { Ev("reset").out(); norms<FixedMatrix<double, 1, 1> >(normMat<double>(g, 1, 1, how)); norms<FixedMatrix<double, 2, 3> >(normMat<double>(g, 2, 3, how)); norms<FixedMatrix<double, 3, 2> >(normMat<double>(g, 3, 2, how)); norms<FixedMatrix<double, 4, 4> >(normMat<double>(g, 4, 4, how)); norms<FixedMatrix<float, 3, 3> >(normMat<float>(g, 3, 3, how)); }
		}
	}
#endif
	fclose(g_out);
	return 0;
}
