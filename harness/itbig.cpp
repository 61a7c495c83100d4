// Larger systems and many iterations: stationary methods (C13) and conjugate gradients (C14).
#include "mat.h"
#include "Iterative.h"
#include "CG.h"
TRACE_MAIN_GLOBALS
typedef std::complex<double> cd;
// a system: rows of (column, value)
struct Sys { int n; std::vector<std::map<int, ll> > a; NV b, x0; explicit Sys(int n_) : n(n_), a(n_), b(n_, Num{0, 0, 1}), x0(b) {} };
std::string jrows(const Sys& s) { std::string r = "["; for (int i = 0; i < s.n; ++i) { r += i ? ",[" : "["; bool f = true; for (auto& e : s.a[i]) { r += (f ? "[" : ",[") + js(e.first) + "," + js(Num{e.second, 0, 1}) + "]"; f = false; } r += "]"; } return r + "]"; }
template<class M> M matOf(Rng& g, const Sys& s) { M m = MakeM<M>::make(s.n, s.n); typedef typename M::value_type T; const bool rev = g.coin(); for (int q = 0; q < s.n; ++q) { int i = rev ? s.n - 1 - q : q; for (auto& e : s.a[i]) m.set(i, e.first, (T)(typename Mk<T>::real)e.second); } return m; }
static std::vector<int> perm(Rng& g, int n, bool id) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (!id) for (int k = n; k > 1; --k) std::swap(p[k - 1], p[g.below(k)]); return p; }
static double rd(const Num& n) { return (double)n.a / n.d; }

// ---- C13: iterates that stay whole (or half) numbers
// kind 0: chain of length n (nothing settles before the chain is through), 1: nilpotent with several chains, 2: two-periodic
Sys stationarySys(Rng& g, int n, int kind) {
	Sys s(n); auto p = perm(g, n, g.coin(1, 4));
	for (int i = 0; i < n; ++i) { s.a[i][i] = g.coin() ? 1 : -1; s.b[i] = Num{g.in(-3, 3), 0, 1}; s.x0[i] = Num{g.coin(1, 3) ? 0 : g.in(-3, 3), 0, 1}; }
	if (kind == 0) for (int i = 1; i < n; ++i) s.a[p[i]][p[i - 1]] = g.coin() ? 1 : -1;
	else if (kind == 1) { for (int i = 1; i < n; ++i) if (i % 12) { s.a[p[i]][p[i - 1]] = g.coin() ? 1 : -1; if (i % 12 > 1 && g.coin(1, 3)) s.a[p[i]][p[i - 2]] = g.coin() ? 1 : -1; } }
	else { for (int i = 0; i + 1 < n; i += 2) { int sg = g.coin() ? 1 : -1; s.a[p[i]][p[i + 1]] = sg; s.a[p[i + 1]][p[i]] = sg; } }
	return s;
}
// exact simulation on doubles of whole numbers (limited to what stays small), returns how far the run may go
int horizon(const Sys& s, bool sor, double w, double eps, int max, double cap) {
	std::vector<double> x(s.n), y; for (int i = 0; i < s.n; ++i) x[i] = rd(s.x0[i]);
	for (int k = 1; k <= max; ++k) { y = x; double dist = 0;
		for (int i = 0; i < s.n; ++i) { double t = rd(s.b[i]), d = 1; for (auto& e : s.a[i]) if (e.first == i) d = e.second; else t -= e.second * (sor ? y[e.first] : x[e.first]); t /= d; y[i] = sor ? (1 - w) * y[i] + w * t : t; if (std::fabs(y[i]) > cap) return k - 1; dist += (y[i] - x[i]) * (y[i] - x[i]); }
		if (dist > 4.5e8) return k - 1; x = y; if (dist <= eps * eps) return max; }
	return max;
}
template<class M> void c13(Rng& g, int n, int kind, bool sor, int top, bool every) {
	typedef typename M::value_type T; typedef DynamicVector<T> V;
	const bool flt = sizeof(typename Mk<T>::real) == 4;
	Sys s = stationarySys(g, n, kind); static const Num es[] = {{0, 0, 1}, {0, 0, 1}, {1, 0, 2}, {2, 0, 1}, {3, 0, 1}, {7, 0, 1}}, ws[] = {{1, 0, 1}, {2, 0, 1}, {1, 0, 1}, {-1, 0, 1}, {3, 0, 1}, {0, 0, 1}};
	Num eps = es[g.below(kind == 2 ? 3 : 6)], w = ws[g.below(6)];
	int far = horizon(s, sor, rd(w), rd(eps), top, flt ? 3e5 : 1e8); if (far < 2) { w = Num{1, 0, 1}; far = horizon(s, sor, 1, rd(eps), top, flt ? 3e5 : 1e8); }
	Ev("reset").out(); Ev("system").f("k", MakeM<M>::kind()).raw("a", jrows(s)).f("b", s.b).f("x0", s.x0).f("sor", sor).f("w", w).f("eps", eps).out();
	M A = matOf<M>(g, s); const M A0 = A; V b = ofv<T>(s.b), x0 = ofv<T>(s.x0); const V b0 = b, z0 = x0;
	std::vector<int> lim; if (every) { for (int k = 0; k <= far; k += 1 + (k > 12 ? k / 6 : 0)) lim.push_back(k); for (int m : {16, 17, 31, 32, 33, 50, 51, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, n - 1, n, n + 1, n + 2}) if (m <= far && m >= 0) lim.push_back(m); } lim.push_back(far); std::sort(lim.begin(), lim.end());
	for (int mx : lim) { size_t st = 77777; V r = x0; std::string e = guarded([&] { r = sor ? Iterative::serial::sor(A, b, x0, rd(w), mx, rd(eps), &st) : Iterative::serial::jacobi(A, b, x0, mx, rd(eps), &st); }); Ev("upto").f("max", mx).f("exc", e).f("x", contv(r)).f("n", st).out(); }
	Ev("untouched").f("a", A == A0).f("b", b == b0).f("x", x0 == z0).out();
}
// ---- C14
template<class M> std::string cg(bool pre, const M& A, const M& C, const DynamicVector<typename M::value_type>& b, const DynamicVector<typename M::value_type>& x0, size_t mx, double eps, size_t& st, DynamicVector<typename M::value_type>& r) { st = 77777; r = x0; return guarded([&] { r = pre ? CG::serial::pcg(A, b, C, x0, mx, eps, &st) : CG::serial::cg(A, b, x0, mx, eps, &st); }); }
static NV q5(const DynamicVector<double>& v) { NV r; for (Index i = 0; i < v.size(); ++i) r.push_back(rat(v.at(i), 20000, 1e-10)); return r; }
static NV q5(const DynamicVector<float>& v) { NV r; for (Index i = 0; i < v.size(); ++i) r.push_back(rat(v.at(i), 60, 3e-5)); return r; }
// tridiagonal along an order p: 2 on the diagonal (first: 1 or 2) and +-1 beside it, rows and columns scaled by powers of two
template<class M> void path(Rng& g, int n, int first, bool pre) {
	typedef typename M::value_type T; typedef DynamicVector<T> V; const bool flt = sizeof(T) == 4;
	Sys s(n); auto p = perm(g, n, g.coin(1, 4)); std::vector<ll> d(n); for (auto& x : d) x = pre && !flt ? 1 << g.below(3) : 1; std::vector<int> sg(n); for (auto& x : sg) x = g.coin() ? 1 : -1;
	for (int i = 0; i < n; ++i) { s.a[p[i]][p[i]] = d[i] * d[i] * (i ? 2 : first); if (i) { ll v = -sg[i] * sg[i - 1] * d[i] * d[i - 1]; s.a[p[i]][p[i - 1]] = v; s.a[p[i - 1]][p[i]] = v; } }
	const bool start = g.coin(); for (auto& x : s.x0) if (start) x = Num{g.in(-2, 2), 0, 1};
	NV c(n); for (int i = 0; i < n; ++i) c[p[i]] = pre ? Num{1, 0, d[i] * d[i]} : Num{1, 0, 1};
	for (int i = 0; i < n; ++i) { ll t = i == p[0] ? d[0] * sg[0] : 0; for (auto& e : s.a[i]) t += e.second * s.x0[e.first].a; s.b[i] = Num{t, 0, 1}; }
	Ev("reset").out(); Ev("path").f("k", MakeM<M>::kind()).f("pre", pre).f("p", p).raw("a", jrows(s)).f("b", s.b).f("x0", s.x0).f("c", c).out();
	M A = matOf<M>(g, s), C = MakeM<M>::make(n, n); for (int i = 0; i < n; ++i) C.set(i, i, (T)rd(c[i])); const M A0 = A, C0 = C; V b = ofv<T>(s.b), x0 = ofv<T>(s.x0); const V b0 = b, z0 = x0;
	const double tiny = flt ? 1e-3 : 1e-7; size_t st; V r = x0;
	auto upto = [&](int k) { std::string e = cg(pre, A, C, b, x0, k, tiny, st, r); Ev("cgupto").f("max", k).f("exc", e).f("x", q5(r)).f("n", st).out(); };
	for (int k = 0; k <= n + 2; k += 1 + (n > 20 && k < n - 3 ? g.below(4) : 0)) upto(k);
	for (int q = 0; q < 6; ++q) { Num eps = first == 1 && q % 2 ? Num{2, 0, 1} : first == 1 ? Num{1, 0, 2} : Num{2, 0, 2 * g.in(1, n) + 1}; if (pre && q == 4) eps = Num{3, 0, 1}; int mx = q < 3 ? n + 5 : g.in(0, n); V y = x0; size_t m; std::string e = cg(pre, A, C, b, x0, mx, rd(eps), m, y);
		if (m > 0 && m < 70000) upto(m - 1); Ev("cgstop").f("max", mx).f("eps", eps).f("exc", e).f("x", q5(y)).f("n", m).out(); }
	Ev("untouched").f("a", A == A0 && C == C0).f("b", b == b0).f("x", x0 == z0).out();
}
// diagonal with two different values (after preconditioning)
template<class M> void two(Rng& g, int n, bool pre) {
	typedef typename M::value_type T; typedef DynamicVector<T> V; Sys s(n); NV c(n, Num{1, 0, 1}); std::vector<ll> dg(n);
	for (int i = 0; i < n; ++i) { ll lam = i == 0 ? 1 : i == 1 ? 3 : g.coin() ? 1 : 3, q = pre ? 1 << g.below(3) : 1; s.a[i][i] = dg[i] = lam * q * q; c[i] = Num{1, 0, q * q}; s.x0[i] = Num{g.in(-2, 2), 0, 1}; s.b[i] = Num{dg[i] * s.x0[i].a + (g.coin() ? q : -q), 0, 1}; }
	Ev("reset").out(); Ev("system").f("k", MakeM<M>::kind()).raw("a", jrows(s)).f("b", s.b).f("x0", s.x0).f("c", c).out();
	M A = matOf<M>(g, s), C = MakeM<M>::make(n, n); for (int i = 0; i < n; ++i) C.set(i, i, (T)rd(c[i])); V b = ofv<T>(s.b), x0 = ofv<T>(s.x0);
	std::vector<NV> xs; std::vector<unsigned long> ns; std::vector<std::string> ex; for (int k = 0; k < 4; ++k) { V r = x0; size_t st; ex.push_back(cg(pre, A, C, b, x0, k, 1e-7, st, r)); xs.push_back(q5(r)); ns.push_back(st); }
	Ev("two").f("exc", ex).f("xs", xs).f("ns", ns).out();
	{ M J = MakeM<M>::make(n, n); if (g.coin()) for (int i = 0; i < n; ++i) J.set(i, g.below(n), (T)5); CG::serial::jacobi(A, J); NV d; for (ll v : dg) d.push_back(Num{v, 0, 1}); std::string r = "["; for (int i = 0; i < n; ++i) { r += i ? ",[" : "["; bool f = true; for (int j = 0; j < n; ++j) if (J.at(i, j) != (T)0) { r += (f ? "[" : ",[") + js(j) + "," + js(num(J.at(i, j))) + "]"; f = false; } r += "]"; } Ev("pre").f("d", d).raw("c", r + "]").out(); }
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 1301);
	int n = 0; typedef SparseMatrix<double> S; typedef DenseMatrix<double> D; typedef SparseMatrix<float> Sf; typedef DenseMatrix<float> Df; typedef SparseMatrix<cd> Sc;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 8 : 1); ++k) {
		if (o.mode == "C13") for (int sor = 0; sor < 2; ++sor) {
			MINE c13<S>(g, 150, 0, sor, 170, true); MINE c13<S>(g, 300, 1, sor, 60, true); MINE c13<D>(g, 40, 0, sor, 60, true); MINE c13<D>(g, 70, 1, sor, 30, true); MINE c13<Sc>(g, 60, 0, sor, 70, true);
			for (int q = 0; q < 6; ++q) { MINE c13<S>(g, g.in(6, 30), q % 3, sor, 45, true); MINE c13<D>(g, g.in(6, 24), q % 3, sor, 40, true); if (q % 3 == 0) { MINE c13<Sf>(g, g.in(6, 20), q % 2, sor, 30, true); MINE c13<Sc>(g, g.in(5, 20), 1, sor, 30, true); } }
			MINE c13<S>(g, 2, 2, sor, 66000, false); MINE c13<D>(g, 4, 2, sor, 1100, false); MINE c13<S>(g, 6, 2, sor, 300, true); MINE c13<D>(g, 8, 2, sor, 260, true);
		}
		if (o.mode == "C14") for (int pre = 0; pre < 2; ++pre) {
			for (int f = 1; f <= 2; ++f) { MINE path<S>(g, 60, f, pre); MINE path<D>(g, 33, f, pre); MINE path<S>(g, f == 1 ? 130 : 100, f, pre); MINE path<D>(g, 12, f, pre); MINE path<S>(g, 17, f, pre); MINE path<Sf>(g, 10, 1, pre); MINE path<Df>(g, 8, 1, pre); MINE path<S>(g, g.in(5, 12), f, pre); MINE path<D>(g, g.in(5, 12), f, pre); }
			MINE two<S>(g, 300, pre); MINE two<D>(g, 100, pre); MINE two<S>(g, 70, pre); MINE two<D>(g, 17, pre); MINE two<S>(g, 33, pre);
		}
	}
	fclose(g_out);
	return 0;
}
