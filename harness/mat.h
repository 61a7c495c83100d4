// Helpers shared by the matrix drivers: exact contents of any matrix or vector, construction from exact contents.
#pragma once
#include "matrix/Matrix.h"
#define NS_TRACE_EXC
#include "trace.h"
using namespace NS;

typedef std::vector<std::vector<Num> > NM;
typedef std::vector<Num> NV;

// visits 0 .. n-1 starting anywhere and in either direction: nothing may depend on what was read before
template<class F> void anyOrder(size_t n, F f) {
	static Rng g(4711); if (!n) return;
	const size_t s = g.below((int)n); const bool back = g.coin();
	for (size_t k = 0; k < n; ++k) f(back ? (s + n - k) % n : (s + k) % n);
}
template<class M> NM cont(const M& m) {
	const size_t C = m.columns(); NM v(m.rows(), NV(C));
	anyOrder(m.rows() * C, [&](size_t k) { v[k / C][k % C] = num(m.at(k / C, k % C)); });
	return v;
}
template<class T, class DC> NV contv(const Vector<T, DC>& x) { NV v(x.size()); anyOrder(v.size(), [&](size_t i) { v[i] = num(x.at(i)); }); return v; }

template<class T> struct ToT { static T f(const Num& n) { return (T)((double)n.a / (double)n.d * SC()); } };
template<class R> struct ToT<std::complex<R> > { static std::complex<R> f(const Num& n) { return std::complex<R>((R)((double)n.a / (double)n.d * SC()), (R)((double)n.b / (double)n.d * SC())); } };
template<class T> T toT(const Num& n) { return ToT<T>::f(n); }
template<class T> T toU(const Num& n) { Scale one(1); return ToT<T>::f(n); }          // not scaled
template<class T> Num numU(const T& x) { Scale one(1); return num(x); }
template<class T> Num num2(const T& x) { Scale two(SC() * SC()); return num(x); }      // product of two scaled values

template<class M> void put(M& m, const NM& c) {
	for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c[i].size(); ++j) m.set(i, j, toT<typename M::value_type>(c[i][j]));
}
template<class V> void putv(V& v, const NV& c) { for (size_t i = 0; i < c.size(); ++i) v.set(i, toT<typename V::value_type>(c[i])); }

// a matrix of the requested kind
template<class M> struct MakeM { static M make(size_t r, size_t c) { return M(r, c); } static const char* kind() { return "dense"; } };
template<class T> struct MakeM<SparseMatrix<T> > { static SparseMatrix<T> make(size_t r, size_t c) { return SparseMatrix<T>(r, c); } static const char* kind() { return "sparse"; } };
template<class T, Dimension A, Dimension B> struct MakeM<FixedMatrix<T, A, B> > { static FixedMatrix<T, A, B> make(size_t, size_t) { return FixedMatrix<T, A, B>(); } static const char* kind() { return "fixed"; } };
template<class M> M of(const NM& c) { M m = MakeM<M>::make(c.size(), c[0].size()); put(m, c); return m; }
template<class T> DynamicVector<T> ofv(const NV& c) { DynamicVector<T> v(c.size()); putv(v, c); return v; }

template<class T> Num rnum(Rng& g, int lim, bool nonzero = false) {
	for (;;) { Num n{g.in(-lim, lim), Mk<T>::cplx ? g.in(-lim, lim) / 2 : 0, 1}; if (WIDE() && sizeof(typename Mk<T>::real) > 4 && g.coin(2, 3)) n.a += g.coin() ? 16777216 : -16777216; if (!nonzero || n.a || n.b) return n; }
}
template<class T> NM rmat(Rng& g, size_t R, size_t C, int lim, int p = 3, int q = 4) {
	NM m(R, NV(C, Num{0, 0, 1}));
	for (auto& r : m) for (auto& x : r) if (g.coin(p, q)) x = rnum<T>(g, lim);
	return m;
}
template<class T> NV rvec(Rng& g, size_t n, int lim) { NV v(n); for (auto& x : v) x = rnum<T>(g, lim); return v; }
