// Cuthill-McKee orders and permutations of large systems (C15).
#include "mat.h"
#include "matrix/MatrixOrder.h"
TRACE_MAIN_GLOBALS
typedef std::vector<std::vector<int> > Adj;
static std::vector<int> iv(const DynamicVector<Index>& v) { std::vector<int> r; for (Index i = 0; i < v.size(); ++i) r.push_back((int)std::min<Index>(v.at(i), 1000000)); return r; }
static std::vector<int> rperm(Rng& g, int n, bool id) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (!id) for (int k = n; k > 1; --k) std::swap(p[k - 1], p[g.below(k)]); return p; }
// kind 0: star, 1: path, 2: tree, 3: grid, 4: two stars that share leaves, 5: a few components, 6: caterpillar, 7: random sparse, 8: complete bipartite-like hubs
static Adj graph(Rng& g, int n, int kind) {
	Adj a(n); auto name = rperm(g, n, g.coin(1, 3));
	auto e = [&](int i, int j) { if (i == j) return; i = name[i]; j = name[j]; a[i].push_back(j); a[j].push_back(i); };
	switch (kind) {
	case 0: { int hub = g.below(3) * (n - 1) / 2; for (int i = 0; i < n; ++i) e(hub, i); break; }
	case 1: for (int i = 1; i < n; ++i) e(i, i - 1); break;
	case 2: for (int i = 1; i < n; ++i) e(i, g.coin() ? i / 3 : g.below(i)); break;
	case 3: { int w = g.in(5, 40); for (int i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) e(i, i + 1); if (i + w < n) e(i, i + w); } break; }
	case 4: for (int i = 2; i < n; ++i) { if (i % 3) e(0, i); if (i % 3 != 1) e(1, i); } break;
	case 5: { int c = g.in(2, 9); for (int i = c; i < n; ++i) e(i, i - c); for (int i = c; i + 2 * c < n; i += 7) e(i, i + 2 * c); break; }
	case 6: { int s = n / 5; for (int i = 1; i < s; ++i) e(i, i - 1); for (int i = s; i < n; ++i) e(i, (int)((ll)g.below(s) * g.below(s) / s)); break; }
	case 7: for (int i = 1; i < n; ++i) { e(i, g.below(i)); if (g.coin()) e(i, g.below(i)); } break;
	case 8: for (int i = 4; i < n; ++i) for (int h = 0; h < 4; ++h) if (h == 0 || (i >> h) & 1) e(h, i); break;
	}
	if (kind == 9) for (int b = 0, w; b < n; b += w) { w = std::min(n - b, g.in(66, 90)); if (n - b - w < 66) w = n - b; for (int i = b; i < b + w; ++i) for (int j = b; j < i; ++j) if (i == b + 1 || !g.coin(1, 40)) e(i, j); }      // dense blocks
	if (kind == 10) for (int i = 1; i < n; ++i) for (int j = 0; j < i; ++j) if (i == j + 1 || g.coin(j % 3 + 2, 6)) e(i, j);
	for (auto& r : a) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
	return a;
}
template<class T> void cm(Rng& g, int n, int kind) {
	Adj a = graph(g, n, kind); const int dg = g.below(3);
	SparseMatrix<T> A(n, n); std::vector<int> deg(n);
	for (int i = 0; i < n; ++i) { bool d = dg == 0 || (dg == 1 && g.coin()); deg[i] = a[i].size() + d; bool done = !d; for (int j : a[i]) { if (!done && j > i) { A.set(i, i, T(2)); done = true; } A.set(i, j, T(1)); } if (!done) A.set(i, i, T(2)); }
	const SparseMatrix<T> B(A); DynamicVector<Index> o(1), r(1);
	std::string x = guarded([&] { o = cuthill_mckee(A); r = r_cuthill_mckee(A); });
	std::vector<int> ord = iv(o), at(n, -1); for (size_t i = 0; i < ord.size(); ++i) if (ord[i] >= 0 && ord[i] < n) at[ord[i]] = (int)i;
	Ev("reset").out(); Ev("cm").f("n", n).f("a", a).f("deg", deg).f("o", ord).f("at", at).f("r", iv(r)).f("same", A == B).f("exc", x).out();
}
template<class T> void permV(Rng& g, int n, bool mat) {
	auto p = rperm(g, n, false); DynamicVector<Index> P(n); for (int i = 0; i < n; ++i) P.set(i, p[i]);
	NV v(n); for (auto& x : v) x = Num{g.in(-9, 9), 0, 1}; DynamicVector<T> V = ofv<T>(v);
	DynamicVector<Index> I = inverse_permutation(P); DynamicVector<T> V2 = permutate(V, P), V3 = permutate(V2, I);
	auto plain = [](const DynamicVector<T>& x) { std::vector<ll> r; for (Index i = 0; i < x.size(); ++i) { Num q = num(x.at(i)); r.push_back(q.d == 1 && q.b == 0 ? q.a : 777777777); } return r; };
	std::vector<int> pr, pc, pv; if (mat) { SparseMatrix<T> M = permutation_matrix<T>(P); for (auto it = M.begin(); it != M.end(); ++it) { pr.push_back(it.row()); pc.push_back(it.column()); pv.push_back(*it == (T)1); } }
	Ev("reset").out(); Ev("permv").f("p", p).f("inv", iv(I)).f("v", plain(ofv<T>(v))).f("v2", plain(V2)).f("vback", plain(V3)).f("same", js(contv(V)) == js(v) && iv(P) == p).f("mat", mat).f("pr", pr).f("pc", pc).f("pv", pv).out();
}
template<class T> std::string rows(const SparseMatrix<T>& m) { std::string r = "["; for (Index i = 0; i < m.rows(); ++i) { r += i ? ",[" : "["; bool f = true; for (Index j = 0; j < m.columns(); ++j) { T v = m.at(i, j); if (v == (T)0) continue; Num q = num(v); r += (f ? "[" : ",[") + js((int)j) + "," + js(q.d == 1 && q.b == 0 ? q.a : (ll)777777777) + "]"; f = false; } r += "]"; } return r + "]"; }
template<class T> void permM(Rng& g, int n, int per) {
	auto p = rperm(g, n, g.coin(1, 6)); DynamicVector<Index> P(n); for (int i = 0; i < n; ++i) P.set(i, p[i]);
	SparseMatrix<T> A(n, n); for (int k = 0; k < n * per; ++k) A.set(g.below(n), g.below(n), (T)(typename Mk<T>::real)g.in(1, 9)); const SparseMatrix<T> B(A);
	DynamicVector<Index> I = inverse_permutation(P); SparseMatrix<T> A2 = permutate(A, P), A3 = permutate(A2, I);
	Ev("reset").out(); Ev("permm").f("p", p).raw("a", rows(A)).raw("a2", rows(A2)).f("back", A3 == A).f("same", A == B).out();
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 1915);
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 6 : 1); ++k) {
		MINE cm<double>(g, 2600, 0); MINE cm<double>(g, 2200, 4); MINE cm<float>(g, 3000, 1); MINE cm<double>(g, 3000, 7);
		for (int kind = 0; kind < 9; ++kind) for (int s : {257, 300, 700, 1500}) { MINE cm<double>(g, s + g.below(40), kind); MINE cm<float>(g, g.in(41, 260), kind); }
		for (int q = 0; q < 3; ++q) { MINE cm<double>(g, g.in(140, 260), 9); MINE cm<float>(g, g.in(130, 300), 10); MINE cm<std::complex<double> >(g, g.in(280, 330), 10); }
		MINE permV<double>(g, 66000, false); MINE permV<float>(g, 70000, false); MINE permV<double>(g, 131100, false); for (int s : {255, 256, 257, 300, 1000, 2000}) { MINE permV<double>(g, s, true); MINE permV<std::complex<double> >(g, s + 1, true); }
		for (int s : {21, 32, 33, 64, 65, 100, 128, 200, 257, 300}) { MINE permM<double>(g, s, 3); MINE permM<std::complex<float> >(g, s, 2); }
	}
	fclose(g_out);
	return 0;
}
