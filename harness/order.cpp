// Cuthill-McKee orders and permutations (C15).
#include "mat.h"
#include <fstream>
#include "matrix/MatrixOrder.h"
TRACE_MAIN_GLOBALS
extern DynamicVector<Index> otherUnit(const DynamicVector<Index>& p);      // order2.cpp

static std::vector<int> iv(const DynamicVector<Index>& v) { std::vector<int> r; for (Index i = 0; i < v.size(); ++i) r.push_back((int)std::min<Index>(v.at(i), 1000000)); return r; }
template<class T> SparseMatrix<T> pattern(Rng& g, const std::vector<std::vector<int> >& m, bool order) {
	SparseMatrix<T> A(m.size(), m.size());
	const int n = m.size(); std::vector<int> at(n * n); std::iota(at.begin(), at.end(), 0);
	if (order) for (int i = n * n - 1; i > 0; --i) std::swap(at[i], at[g.below(i + 1)]);
	for (int k : at) { int i = k / n, j = k % n; if (m[i][j]) A.set(i, j, Mk<T>::make(g.coin() ? g.in(1, 3) : -g.in(1, 3), 0)); else if (order && g.coin(1, 6)) { A.set(i, j, Mk<T>::make(1, 0)); A.set(i, j, T(0)); } }
	return A;
}
template<class T> void cm(Rng& g, const std::vector<std::vector<int> >& m) {
	SparseMatrix<T> A = pattern<T>(g, m, g.coin()); const SparseMatrix<T> B(A);
	DynamicVector<Index> o(1), r(1);
	std::string x = guarded([&] { o = cuthill_mckee(A); r = r_cuthill_mckee(A); });
	Ev("cm").f("m", m).f("o", iv(o)).f("r", iv(r)).f("same", A == B).f("exc", x).out();
}
template<class T> void perm(Rng& g, int n, int kind) {
	std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
	if (kind) for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
	if (kind == 2) std::rotate(p.begin(), p.begin() + g.below(n), p.end());
	DynamicVector<Index> P(n); for (int i = 0; i < n; ++i) P.set(i, p[i]);
	NM a = rmat<T>(g, n, n, 5, g.in(1, 3), 4); NV v = rvec<T>(g, n, 5);
	SparseMatrix<T> A = of<SparseMatrix<T> >(a); DynamicVector<T> V = ofv<T>(v);
	DynamicVector<Index> I = g.coin() ? inverse_permutation(P) : otherUnit(P);
	SparseMatrix<T> A2 = permutate(A, P), A3 = permutate(A2, I); DynamicVector<T> V2 = permutate(V, P), V3 = permutate(V2, I);
	bool same = cont(A) == a && js(contv(V)) == js(v) && iv(P) == p;
	Ev("perm").f("p", p).f("inv", iv(I)).f("pm", cont(permutation_matrix<T>(P))).f("a", a).f("a2", cont(A2)).f("aback", cont(A3)).f("v", v).f("v2", contv(V2)).f("vback", contv(V3)).f("same", same).out();
}
inline bool operator==(const Num& a, const Num& b) { return a.a == b.a && a.b == b.b && a.d == b.d; }
template<class T> void bad(Rng& g) {
	int r = g.in(1, 4), c = g.coin() ? r : g.in(1, 4), m = g.in(1, 5), n = g.in(1, 5);
	DynamicVector<Index> P(m); for (int i = 0; i < m; ++i) P.set(i, (i + 1) % m);
	SparseMatrix<T> A = of<SparseMatrix<T> >(rmat<T>(g, r, c, 3)); DynamicVector<T> v(n);
	Ev("bad").f("k", "mat").f("r", r).f("c", c).f("m", m).f("n", n).f("exc", guarded([&] { permutate(A, P); })).out();
	Ev("bad").f("k", "vec").f("r", r).f("c", c).f("m", m).f("n", n).f("exc", guarded([&] { permutate(v, P); })).out();
	if (r != c) Ev("notsquare").f("exc", std::vector<std::string>{guarded([&] { cuthill_mckee(A); }), guarded([&] { r_cuthill_mckee(A); })}).out();
}
static std::vector<std::vector<int> > graph(Rng& g, int n, int kind) {
	std::vector<std::vector<int> > m(n, std::vector<int>(n, 0));
	std::vector<int> name(n); std::iota(name.begin(), name.end(), 0);
	for (int i = n - 1; i > 0; --i) std::swap(name[i], name[g.below(i + 1)]);
	auto e = [&](int i, int j) { i = name[i]; j = name[j]; m[i][j] = m[j][i] = 1; };
	switch (kind) {
	case 0: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g.coin(1, n)) e(i, j); break;                     // sparse: many components
	case 1: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g.coin(1, 3)) e(i, j); break;
	case 2: for (int i = 1; i < n; ++i) e(i, g.below(i)); break;                                                        // tree
	case 3: for (int i = 1; i < n; ++i) if (i % 4) e(i, i - 1); break;                                                  // paths
	case 4: for (int i = 1; i < n; ++i) e(i, i / 3 * 3 == i ? (i + 1) % n : i / 3 * 3); break;                            // stars
	case 5: { int w = g.in(2, 5); for (int i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) e(i, i + 1); if (i + w < n) e(i, i + w); } } break;   // grid
	case 6: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && g.coin(1, n)) m[i][j] = 1; break;       // not symmetric
	case 7: for (int i = 0; i < n; ++i) { e(i, (i + 1) % n); m[i][i] = 0; } break;                                        // cycle
	}
	const int d = g.below(4);
	for (int i = 0; i < n; ++i) if (d == 0 || (d > 1 && g.coin())) m[i][i] = 1;
	return m;
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 15);
	typedef std::complex<double> cd;
	if (!o.in.empty()) {
		std::ifstream f(o.in); std::string line; int q = 0; Ev("reset").out();
		while (std::getline(f, line)) { if (q++ % o.shards != o.shard) continue;
			Cmd c(line); c.word(); c.i(); int n = c.i(); std::vector<std::vector<int> > m; for (int i = 0; i < n; ++i) m.push_back(c.ints());
			switch (q / o.shards % 3) { case 0: cm<double>(g, m); break; case 1: cm<float>(g, m); break; default: cm<cd>(g, m); }
			if (q / o.shards % 400 == 399) Ev("reset").out(); }
	}
	const int K = o.thorough ? 12 : 1;
	for (int k = 0; k < K; ++k) {
		Ev("reset").out();
		for (int q = 0; q < 60; ++q) { int n = g.in(1, 14); cm<double>(g, graph(g, n, g.below(8))); }
		for (int q = 0; q < 4; ++q) cm<double>(g, graph(g, g.in(15, 40), g.below(8)));
		for (int q = 0; q < 15; ++q) cm<cd>(g, graph(g, g.in(1, 9), g.below(8)));
		Ev("reset").out();
		for (int n = 1; n <= 7; ++n) for (int q = 0; q < 12; ++q) { perm<double>(g, n, g.below(3)); if (q % 4 == 0) { perm<cd>(g, n, 1); perm<float>(g, n, 2); } }
		for (int q = 0; q < 2; ++q) perm<double>(g, g.in(8, 20), 1);
		for (int q = 0; q < 20; ++q) bad<double>(g);
	}
	fclose(g_out);
	return 0;
}
