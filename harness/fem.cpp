// Finite element computations put together from the library's parts (C30): a mesh that is generated, loaded or built by hand,
// nodes of order 1 or 2, stiffness and mass assembled by quadrature, values prescribed on the boundary, any of the solvers.
#include "meshdump.h"
#include <set>
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
TRACE_MAIN_GLOBALS

typedef std::vector<std::array<int, 2> > VP; typedef std::vector<std::array<int, 3> > VT;
struct Geo { VP p; VT t; };
static ll det3(const Geo& b, const std::array<int, 3>& t) { auto &u = b.p[t[0]], &v = b.p[t[1]], &w = b.p[t[2]]; return (ll)(v[0] - u[0]) * (w[1] - u[1]) - (ll)(v[1] - u[1]) * (w[0] - u[0]); }
static ll lcm(ll a, ll b) { return a / gcdll(a, b) * b; }
// the least common multiple of the sizes of the triangles around each vertex
static std::vector<ll> around(const Geo& b) { std::vector<ll> s(b.p.size(), 1); for (auto& t : b.t) { ll d = std::llabs(det3(b, t)); for (int v : t) s[v] = s[v] > 100000000 ? s[v] : lcm(s[v], std::max(1ll, d)); } return s; }
static bool fine(const Geo& b, ll limit) { for (ll s : around(b)) if (s > limit) return false; return true; }
// a sheared grid with random diagonals and some vertices moved, all coordinates even
static Geo patch(Rng& g, int nx, int ny, bool plain) {
	Geo b; const int h = plain || g.coin() ? 2 : 6, sh = g.in(-1, 1), ox = g.in(-3, 3), oy = g.in(-3, 3), fx = g.coin(1, 4) ? -1 : 1;
	for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) b.p.push_back({fx * (h * i + sh * h * j) + 2 * ox, h * j + 2 * oy});
	auto at = [&](int i, int j) { return j * (nx + 1) + i; };
	for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { std::array<int, 3> s, t; if (g.coin()) { s = {at(i, j), at(i + 1, j), at(i + 1, j + 1)}; t = {at(i, j), at(i + 1, j + 1), at(i, j + 1)}; } else { s = {at(i, j), at(i + 1, j), at(i, j + 1)}; t = {at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)}; }
		int k = nx * ny > 3 ? g.below(12) : 2; if (k != 0) b.t.push_back(s); if (k != 1) b.t.push_back(t); }
	if (h == 6) for (int q = 0; q < nx * ny; ++q) { int v = g.below((int)b.p.size()); const Geo old = b; b.p[v][0] += 2 * g.in(-1, 1); b.p[v][1] += 2 * g.in(-1, 1); bool ok = fine(b, 1500); for (auto& t : b.t) if (det3(b, t) * fx <= 0) ok = false; if (!ok) b = old; }
	return b;
}
static Geo fan(Rng& g) { Cx c; Geo b; static const int px[] = {4, 3, 0, -3, -4, -3, 0, 3}, py[] = {0, 3, 4, 3, 0, -3, -4, -3}; int ox = g.in(-4, 4), oy = g.in(-4, 4); b.p.push_back({2 * ox, 2 * oy}); for (int i = 0; i < 8; ++i) b.p.push_back({2 * (ox + px[i]), 2 * (oy + py[i])}); for (int i = 0; i < 8; ++i) if (i < 7 || g.coin(3, 4)) b.t.push_back({0, 1 + i, 1 + (i + 1) % 8}); return b; }
static Geo mixed(Rng& g, const Geo& a) {
	std::vector<int> nm(a.p.size(), -1); for (auto& t : a.t) for (int v : t) nm[v] = 0; int n = 0; std::vector<int> ord; for (size_t i = 0; i < nm.size(); ++i) if (nm[i] == 0) ord.push_back(i); n = ord.size();
	const bool mix = g.coin(2, 3); if (mix) for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[g.below(i + 1)]);
	Geo b; for (int i = 0; i < n; ++i) { nm[ord[i]] = i; b.p.push_back(a.p[ord[i]]); } b.t = a.t; for (auto& t : b.t) { for (int& v : t) v = nm[v]; if (mix) { std::rotate(t.begin(), t.begin() + g.below(3), t.end()); if (g.coin()) std::swap(t[0], t[1]); } }
	if (mix) for (int i = (int)b.t.size() - 1; i > 0; --i) std::swap(b.t[i], b.t[g.below(i + 1)]);
	return b;
}
static ll U(const std::vector<int>& u, ll x, ll y) { return u[0] + u[1] * x + u[2] * y + u[3] * x * x + u[4] * x * y + u[5] * y * y; }
// the multiple of 1/s nearby
static Num mult(double x, ll s, double tol) { double y = x * s; if (std::isnan(y)) return Num{0, 0, 0}; double r = std::round(y); if (!(std::fabs(r) < 2e9) || std::fabs(y - r) > std::min(0.2, tol * s * std::max(1.0, std::fabs(x)))) return Num{0, 1, 0}; ll g = gcdll((ll)r, s); if (g == 0) g = 1; return Num{(ll)r / g, 0, s / g}; }
static int whole(double x) { return std::fabs(x) < 5e8 && x == std::floor(x) ? (int)x : -999999999; }
template<class T> struct Eps { static double t() { return 1e-9; } static double sol() { return 1e-5; } static double it() { return 1e-11; } };
template<> struct Eps<float> { static double t() { return 1e-4; } static double sol() { return 2e-2; } static double it() { return 3e-4; } };

template<class T, Dimension Order> struct Fem {
	typedef PolyShapeFunction<T, 2, Order> SF; typedef DynamicVector<T> V;
	Rng& g; Mesh<T, 2> m; std::vector<int> u; int al, c; std::vector<ll> S; std::vector<bool> fixed; SF sf;
	explicit Fem(Rng& g_) : g(g_), u(6, 0), al(1), c(0) {}
	size_t n() const { return m.vertices().size(); }
	T uAt(size_t i) const { auto& p = m.vertex(i)->Vertex; return (T)U(u, whole(p[0]), whole(p[1])); }
	bool make(int how, int size) {
		Geo b; std::string x, k; std::vector<std::array<int, 6> > tp; std::array<int, 4> box = {{0, 0, 0, 0}};
		if (how == 0) { const int nx = g.in(1, size), ny = g.in(1, size), hx = sizeof(T) > 4 ? 2 * g.in(1, 3) : 2, hy = sizeof(T) > 4 ? 2 * g.in(1, 3) : 2; box = {{2 * g.in(-3, 3), 2 * g.in(-3, 3), nx * hx, ny * hy}}; k = "grid";
			x = guarded([&] { m = HyperCube<T, 2>::generate(FixedVector<Dimension, 2>{(Dimension)nx, (Dimension)ny}, FixedVector<T, 2>{(T)box[2], (T)box[3]}, FixedVector<T, 2>{(T)box[0], (T)box[1]}); }); }
		else { b = mixed(g, g.coin(1, 6) && size < 8 && sizeof(T) > 4 ? fan(g) : patch(g, g.in(1, size), g.in(1, size), sizeof(T) == 4)); 
			for (auto& t : b.t) { std::array<int, 6> q; for (int j = 0; j < 3; ++j) for (int d = 0; d < 2; ++d) q[2 * j + d] = b.p[t[j]][d]; tp.push_back(q); }
			if (how == 1) { k = "hand"; for (auto& p : b.p) m.addVertex(new MeshVertex<T, 2>(FixedVector<T, 2>{(T)p[0], (T)p[1]})); for (auto& t : b.t) { auto* e = new MeshElement<T, 2>(); for (int j = 0; j < 3; ++j) e->Vertices[j] = m.vertex(t[j]); m.addElement(e); } x = guarded([&] { m.setupNeighbors(); m.setupBoundaries(); }); }
			else if (how == 2) { k = "triangle"; const int base = g.below(2); std::string N = std::to_string(b.p.size()) + " 2 0 0\n", E = std::to_string(b.t.size()) + " 3 0\n"; for (size_t i = 0; i < b.p.size(); ++i) N += std::to_string(base + i) + " " + std::to_string(b.p[i][0]) + " " + std::to_string(b.p[i][1]) + "\n"; for (size_t i = 0; i < b.t.size(); ++i) E += std::to_string(base + i) + " " + std::to_string(base + b.t[i][0]) + " " + std::to_string(base + b.t[i][1]) + " " + std::to_string(base + b.t[i][2]) + "\n"; x = guarded([&] { m = MeshTriangleLoader<T>::loadString(N, E); m.setupBoundaries(); }); }
			else { k = "obj"; std::string N; for (auto& p : b.p) N += "v " + std::to_string(p[0]) + " " + std::to_string(p[1]) + " 0\n"; for (auto& t : b.t) { N += "f"; for (int v : t) N += " " + std::to_string(v + 1); N += "\n"; } x = guarded([&] { m = MeshObjLoader<T>::loadString(N); m.setupBoundaries(); }); } }
		std::string y = guarded([&] { m.prepare(); m.validate(); SF::prepareMesh(m); });
		std::map<const void*, int> vi; VP p; for (size_t i = 0; i < n(); ++i) { vi[m.vertices()[i]] = i; p.push_back({{whole(m.vertices()[i]->Vertex[0]), whole(m.vertices()[i]->Vertex[1])}}); }
		std::vector<std::vector<int> > t, pl; bool good = x == "ok" && y == "ok"; std::vector<int> fx, gi;
		for (auto* e : m.elements()) { std::vector<int> d; for (auto* v : e->DOFVertices) { auto it = vi.find(v); d.push_back(it == vi.end() ? -1 : it->second + 1); if (d.back() < 1) good = false; } if (d.size() != SF::DOF) good = false; t.push_back(d); }
		fixed.assign(n(), false); for (size_t i = 0; i < n(); ++i) { gi.push_back(m.vertices()[i]->GlobalIndex > 1000000 ? -1 : (int)m.vertices()[i]->GlobalIndex); if (gi.back() != (int)i) good = false; if (m.vertices()[i]->Flags & MVF_StrongBoundary) { fixed[i] = true; fx.push_back(i + 1); } }
		for (auto& q : p) pl.push_back(std::vector<int>{q[0], q[1]}); std::vector<std::vector<int> > tl; for (auto& q : tp) tl.push_back(std::vector<int>(q.begin(), q.end()));
		Ev("reset").out(); Ev("fem").f("k", k).f("order", (int)Order).f("exc", x).f("prep", y).f("p", pl).f("t", t).f("tp", tl).f("box", std::vector<int>(box.begin(), box.end())).f("fx", fx).f("gi", gi).out();
		if (!good) return false;
		S.assign(n(), 1); for (auto& d : t) { Geo o; for (int k2 = 0; k2 < 3; ++k2) o.p.push_back(p[d[k2] - 1]); ll z = std::max(1ll, std::llabs(det3(o, {{0, 1, 2}}))); for (int v : d) S[v - 1] = std::min(100000000ll, lcm(S[v - 1], z)); }
		return true;
	}
	template<class M, class Q> void assemble(M& A, V& b) {
		Q q; A = M(n(), n()); b = V(n());
		for (size_t i = 0; i < n(); ++i) b[i] = (T)0;
		auto f = [&](const FixedVector<T, 2>& x) -> T { T v = (T)(al * -(2 * u[3] + 2 * u[5])); if (c) v += (T)c * ((T)u[0] + (T)u[1] * x[0] + (T)u[2] * x[1]); return v; };
		for (auto* e : m.elements()) {
			const T det = std::abs(e->Element.determinant()); const auto inv = e->Element.inverseMatrix();
			for (Index i = 0; i < SF::DOF; ++i) { const Index I = e->DOFVertices[i]->GlobalIndex;
				for (Index j = 0; j < SF::DOF; ++j) { const Index J = e->DOFVertices[j]->GlobalIndex;
					const T k = q.eval([&](const FixedVector<T, 2>& x) -> T { return inv.mul_left(sf.gradient(i, x)).dot(inv.mul_left(sf.gradient(j, x))); });
					const T w = c ? q.eval([&](const FixedVector<T, 2>& x) -> T { return sf.value(i, x) * sf.value(j, x); }) : (T)0;
					A.set(I, J, A.at(I, J) + det * ((T)al * k + (T)c * w)); }
				b.set(I, b.at(I) + det * q.eval([&](const FixedVector<T, 2>& x) -> T { return sf.value(i, x) * f(e->Element.toGlobal(x)); })); } }
		std::string rows = "["; for (size_t i = 0; i < n(); ++i) { rows += i ? ",[" : "["; bool first = true; for (auto it = A.row_begin(i); it != A.row_end(i); ++it) { Num v = mult((double)*it, 24 * S[i], Eps<T>::t()); if (v.d && !v.a) continue; rows += (first ? "[" : ",[") + js((int)it.column() + 1) + "," + js(v) + "]"; first = false; } rows += "]"; } rows += "]";
		NV r; for (size_t i = 0; i < n(); ++i) r.push_back(mult((double)b[i], 24, Eps<T>::t()));
		Ev("asm").f("u", u).f("al", al).f("c", c).raw("a", rows).f("b", r).out();
	}
	void solved(const char* how, const char* kind, const std::string& exc, const V& x) { NV r; if (exc == "ok") for (size_t i = 0; i < x.size(); ++i) r.push_back(mult((double)x[i], 1, Eps<T>::sol())); Ev("solve").f("how", how).f("k", kind).f("exc", exc).f("x", r).out(); }
	// the system for the free nodes, or the whole system with the equations of the others replaced
	template<class M> void solve(const M& A, const V& b, V& sol) {
		for (int variant = 0; variant < 2; ++variant) {
			std::vector<int> fr; for (size_t i = 0; i < n(); ++i) if (variant || !fixed[i]) fr.push_back(i);
			const int k = fr.size(); if (k == 0) continue; M a(k, k); V r(k); std::vector<int> at(n(), -1); for (int i = 0; i < k; ++i) at[fr[i]] = i;
			for (int i = 0; i < k; ++i) { T s = b[fr[i]]; if (fixed[fr[i]]) { r[i] = (T)al * uAt(fr[i]); a.set(i, i, (T)al); continue; }
				for (auto it = A.row_begin(fr[i]); it != A.row_end(fr[i]); ++it) { const int j = it.column(); if (fixed[j]) s -= *it * uAt(j); else if (*it != (T)0) a.set(i, at[j], *it); } r[i] = s; }
			auto spread = [&](const V& x) { V f(n()); for (size_t i = 0; i < n(); ++i) f[i] = at[i] >= 0 && at[i] < (int)x.size() ? x[at[i]] : uAt(i); return f; };
			const char* kd = MakeM<M>::kind(); V x(k), z(k); for (int i = 0; i < k; ++i) z[i] = (T)g.in(-2, 2); std::string e; const bool small = k <= 60;
			auto run = [&](const char* how, std::function<V()> f) { V y(k); std::string e2 = guarded([&] { y = f(); }); if (e2 == "ok") y = spread(y); solved(how, kd, e2, y); return y; };
			sol = run("cg", [&] { return CG::serial::cg(a, r, z, (size_t)(10 * k + 50), Eps<T>::it()); });
			{ M C(k, k); run("pcg", [&] { CG::serial::jacobi(a, C); return CG::serial::pcg(a, r, C, z, (size_t)(10 * k + 50), Eps<T>::it()); }); }
			if (small && sizeof(T) > 4) run("sor", [&] { return Iterative::serial::sor(a, r, z, g.coin() ? 1.0 : 1.25, (size_t)30000, 1e-12); });
			if (k <= 150) {
				M L(k, k), W(k, k), P(k, k); run("chol", [&] { LU::serial::cholesky(a, L); return LU::serial::solve_lu(L, L.transpose(), r); });
				{ M X(k, k), Y(k, k); run("lu", [&] { LU::serial::doolittle(a, X, W, P); return LU::serial::solve_lu(X, W, P.mul(r)); }); }
				if (small) run("inverse", [&] { return Operations::inverse(a).mul(r); });
				if (small) { M iL(k, k), iU(k, k); run("ainv", [&] { M l2(k, k), l1(k, k), u1(k, k); LU::serial::cholesky(a, l2); for (int i = 0; i < k; ++i) for (int j = 0; j <= i; ++j) if (l2.at(i, j) != (T)0) { l1.set(i, j, l2.at(i, j) / l2.at(j, j)); u1.set(j, i, l2.at(i, j) * l2.at(j, j)); } LU::serial::ainv_lu(l1, u1, iL, iU); M C = iU.mul(iL); return CG::serial::pcg(a, r, C, z, (size_t)(k + 20), Eps<T>::it()); }); } }
			reorder(a, r, run);
		}
	}
	template<class F> void reorder(const SparseMatrix<T>& a, const V& r, F run) {
		for (int q = 0; q < 2; ++q) run(q ? "rcm" : "cm", [&] { auto p = q ? r_cuthill_mckee(a) : cuthill_mckee(a); auto B = permutate(a, p); auto s = permutate(r, inverse_permutation(p)); V z(r.size()); for (size_t i = 0; i < z.size(); ++i) z[i] = (T)0; V y = CG::serial::cg(B, s, z, (size_t)(10 * z.size() + 50), Eps<T>::it()); return permutate(y, p); });
	}
	template<class F> void reorder(const DenseMatrix<T>&, const V&, F) {}
	template<class Q> void post(const V& x) {
		std::string s = "["; for (int k = 0; k < 6; ++k) { const int e = g.below((int)m.elements().size()); auto* el = m.element(e); const int a = g.in(0, 8), b = g.in(0, 8 - a); const FixedVector<T, 2> loc{(T)a / 8, (T)b / 8}; const auto gl = el->Element.toGlobal(loc), back = el->Element.toLocal(gl); T v = (T)0; FixedVector<T, 2> gr{(T)0, (T)0};
			for (Index i = 0; i < SF::DOF; ++i) { const T w = x[el->DOFVertices[i]->GlobalIndex]; v += w * sf.value(i, loc); gr += sf.gradient(i, loc) * w; } gr = el->Element.inverseMatrix().mul_left(gr);
			const double t = Eps<T>::sol(); NV q; q.push_back(mult(gl[0], 8, Eps<T>::t())); q.push_back(mult(gl[1], 8, Eps<T>::t())); q.push_back(mult(back[0], 8, Eps<T>::t())); q.push_back(mult(back[1], 8, Eps<T>::t())); q.push_back(mult(v, 64, t)); q.push_back(mult(gr[0], 8, t)); q.push_back(mult(gr[1], 8, t));
			s += std::string(k ? "," : "") + "[" + js(e + 1) + "," + js(a) + "," + js(b) + "," + js(q) + "]"; }
		T w = (T)0; Q q; for (auto* e : m.elements()) w += std::abs(e->Element.determinant()) * q.eval([&](const FixedVector<T, 2>& l) -> T { T v = (T)0; for (Index i = 0; i < SF::DOF; ++i) v += x[e->DOFVertices[i]->GlobalIndex] * sf.value(i, l); return v; });
		Ev("post").raw("s", s + "]").f("w", sizeof(T) > 4 ? mult(w, 6, 1e-7) : Num{0, 0, 0}).f("exact", sizeof(T) > 4).out();
	}
	template<class M, class Q> void go(int how, int size, bool mass) {
		if (!make(how, size)) return;
		for (int rep = 0; rep < 2; ++rep) {
			c = mass && g.coin(2, 3) ? g.in(1, 3) : 0; al = g.in(1, 4); const int lim = sizeof(T) > 4 ? 3 : 1;
			for (int k = 0; k < 3; ++k) u[k] = g.in(-lim, lim); for (int k = 3; k < 6; ++k) u[k] = Order == 2 ? g.in(-lim, lim) : 0;
			M A(1, 1); V b(1), x(n()); assemble<M, Q>(A, b); for (size_t i = 0; i < n(); ++i) x[i] = uAt(i); solve(A, b, x); if (x.size() == n()) post<Q>(x);
		}
	}
};
template<class T, template<class> class M> void any(Rng& g, int how, int size) {
	switch (g.below(5)) {
	case 0: { Fem<T, 1> f(g); f.template go<M<T>, GaussLegendreQuadrature<T, 2, 1> >(how, size, false); break; }
	case 1: { Fem<T, 1> f(g); f.template go<M<T>, GaussLegendreQuadrature<T, 2, 2> >(how, size, true); break; }
	case 2: { Fem<T, 1> f(g); f.template go<M<T>, GaussLegendreQuadrature<T, 2, 3> >(how, size, true); break; }
	case 3: { Fem<T, 2> f(g); f.template go<M<T>, GaussLegendreQuadrature<T, 2, 2> >(how, (size + 1) / 2, false); break; }
	default: { Fem<T, 2> f(g); f.template go<M<T>, GaussLegendreQuadrature<T, 2, 3> >(how, (size + 1) / 2, false); } }
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 3001);
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 12 : 1); ++k) {
		for (int r = 0; r < 24; ++r) for (int how = 0; how < 4; ++how) { MINE any<double, SparseMatrix>(g, how, g.in(2, 7)); if (r % 2) { MINE any<double, DenseMatrix>(g, how, g.in(2, 5)); } if (r % 3 == 0) { MINE any<float, SparseMatrix>(g, how, g.in(2, 4)); } if (r % 6 == 1) { MINE any<float, DenseMatrix>(g, how, g.in(2, 3)); } }
		for (int how = 0; how < 4; ++how) MINE { any<double, SparseMatrix>(g, how, 16); any<double, SparseMatrix>(g, how, 24); }
	}
	fclose(g_out);
	return 0;
}
