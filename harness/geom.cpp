// Triangle geometry, shape functions, quadrature, combinatorial helpers and the normal construction (C20, C21, C23, C28).
#include "mat.h"
#include "Simplex.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
TRACE_MAIN_GLOBALS

static std::string jn(const std::vector<NV>& v) { return js(v); }
static Num I(ll x) { return Num{x, 0, 1}; }
// single precision: inputs are chosen such that exact results are multiples of a quarter; the bound leaves room for cancellation
inline Num gnum(double x) { return num(x); }
inline Num gnum(float x) { return rat(x, 4, 2e-3 / std::max(1.0f, std::fabs(x)) + 8e-6); }
template<class V> NV gcontv(const V& x) { NV v; for (Index i = 0; i < x.size(); ++i) v.push_back(gnum(x.at(i))); return v; }
template<class T> NV gcontv(const std::complex<T>& z) { return NV{gnum(z.real()), gnum(z.imag())}; }

// ---------------------------------------------------------------- C20
template<class T> struct Tri {
	Simplex<T, 2> s; ll x[3], y[3]; T sc = 1;
	bool usable() const {
		const ll D = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
		if (sizeof(T) == 8 || D == 0) return D != 0;
		ll p = 1; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; p *= (x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]); }
		return std::llabs(D) >= 4 && p <= 20000;      // well conditioned for single precision
	}
	Num at(T v, T f = 1) { return gnum((T)(v * f)); }
	// v: a length scaled by sc; logged value is multiplied by the integer m
	Num len(T v, ll m = 1) { return gnum((T)((v / sc) * (T)m)); }
	NV len2(const FixedVector<T, 2>& v, ll m = 1) { return NV{len(v[0], m), len(v[1], m)}; }
	void set(T scale, bool viaList) {
		sc = scale;
		if (viaList) s = Simplex<T, 2>{{(T)x[0] * sc, (T)y[0] * sc}, {(T)x[1] * sc, (T)y[1] * sc}, {(T)x[2] * sc, (T)y[2] * sc}};
		else for (int i = 0; i < 3; ++i) s[i] = FixedVector<T, 2>{(T)x[i] * sc, (T)y[i] * sc};
		s.prepare();
		std::vector<NV> p; for (int i = 0; i < 3; ++i) p.push_back(NV{I(x[i]), I(y[i])});
		Ev("prep").f("p", p).out();
	}
	void query(Rng& g) {
		const ll D = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
		const Simplex<T, 2>& t = s;
		std::vector<NV> p, m(2), inv(2), gr, fc, fn, vl, q, loc, back, ss, glob, sback; NV e2;
		for (int i = 0; i < 3; ++i) { p.push_back(len2(t[i])); gr.push_back(NV{gnum((T)(t.gradient(i)[0] * sc * (T)D)), gnum((T)(t.gradient(i)[1] * sc * (T)D))}); fc.push_back(len2(t.faceCenter(i))); }
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { m[i].push_back(len(t.matrix().at(i, j))); inv[i].push_back(gnum((T)(t.inverseMatrix().at(i, j) * sc * (T)D))); }
		for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; ll L2 = (x[k] - x[j]) * (x[k] - x[j]) + (y[k] - y[j]) * (y[k] - y[j]); T L = (T)std::sqrt((double)L2);
			auto n = t.faceNormal(i); e2.push_back(I(L2)); fn.push_back(NV{gnum((T)(n[0] * L)), gnum((T)(n[1] * L))});
			auto v = t.toLocal(t[i]); vl.push_back(NV{gnum(v[0]), gnum(v[1])}); }
		for (int k = 0; k < 4; ++k) { ll a = x[0] + g.in(-3, 3), b = y[0] + g.in(-3, 3); FixedVector<T, 2> gp{(T)a * sc, (T)b * sc};
			auto lo = t.toLocal(gp); q.push_back(NV{I(a), I(b)}); loc.push_back(NV{gnum((T)(lo[0] * (T)D)), gnum((T)(lo[1] * (T)D))}); back.push_back(len2(t.toGlobal(lo))); }
		for (int k = 0; k < 4; ++k) { Num a{g.in(-4, 8), 0, 4}, b{g.in(-4, 8), 0, 4}; FixedVector<T, 2> lp{toT<T>(a), toT<T>(b)}; ss.push_back(NV{gnum(lp[0]), gnum(lp[1])});
			auto gp = t.toGlobal(lp); glob.push_back(len2(gp)); auto b2 = t.toLocal(gp); sback.push_back(NV{gnum(b2[0]), gnum(b2[1])}); }
		T r = t.outerRadius() / sc * (T)(2 * D), di = t.diameter() / sc;
		auto c = t.center();
		const bool neg = t.outerRadius() < 0 || t.diameter() < 0 || t.volume() < 0;
		Ev("tri").f("d", I(D)).f("p", p).f("m", m).f("det", gnum((T)(t.determinant() / sc / sc))).f("inv", inv).f("vol2", neg ? Num{0, 0, 0} : gnum((T)(t.volume() / sc / sc * 2)))
			.f("unit2", gnum((T)(2 * Simplex<T, 2>::unitVolume()))).f("grad", gr).f("c", len2(c, 2 * D)).f("r2", gnum((T)(r * r))).f("d2", gnum((T)(di * di)))
			.f("fc", fc).f("fn", fn).f("e2", e2).f("vl", vl).f("q", q).f("loc", loc).f("back", back).f("s", ss).f("glob", glob).f("sback", sback).out();
	}
};
template<class T> void tris(Rng& g, int n, int span, int off, int smax) {
	Ev("reset").out();
	Tri<T> t;
	for (int k = 0; k < n; ++k) {
		int ox = g.in(-off, off), oy = g.in(-off, off); if (g.coin(1, 5)) ox = oy = 0;
		do { for (int i = 0; i < 3; ++i) { t.x[i] = ox + g.in(-span, span); t.y[i] = oy + g.in(-span, span); } }
		while (!t.usable());
		t.set((T)std::ldexp(1.0, g.coin() ? g.in(-smax, smax) : 0), g.coin(1, 3)); t.query(g);
		if (g.coin(1, 3)) { Tri<T> c = t; c.query(g); }
		if (g.coin(1, 3)) { std::swap(t.x[1], t.x[2]); std::swap(t.y[1], t.y[2]); t.set(t.sc, false); t.query(g); }
	}
}
// ---------------------------------------------------------------- C21
template<class T, int K, int O> void shape(Rng& g, int n, int den) {
	Ev("reset").out();
	typedef PolyShapeFunction<T, K, O> F; F f;
	const Dimension dof = F::DOF;
	for (int r = 0; r < n; ++r) {
		int d = g.in(1, den); FixedVector<T, K> x; NV xn; if (r < 3 * O) d = O;
		for (int c = 0; c < K; ++c) { Num a{g.in(-1, d + 1), 0, d}; x[c] = toT<T>(a); ll q = gcdll(a.a, d); xn.push_back(Num{a.a / q, 0, d / q}); }
		NV v; std::vector<NV> gr, h;
		for (int i = 0; i < (int)dof; ++i) { v.push_back(num(f.value(i, x))); gr.push_back(contv(f.gradient(i, x))); h.push_back(contv(f.gradient2(i, x))); }
		Ev("shape").f("k", K).f("o", O).f("dof", (int)dof).f("x", xn).f("v", v).f("g", gr).f("h", h).out();
	}
}
template<class T> void shapes(Rng& g, int n, int d1, int d2, int d3) {
	shape<T, 1, 1>(g, n, d1); shape<T, 1, 2>(g, n, d2); shape<T, 2, 1>(g, n, d1); shape<T, 2, 2>(g, n, d2); shape<T, 2, 3>(g, n, d3); shape<T, 3, 1>(g, n, d1); shape<T, 3, 2>(g, n, d2);
}
// ---------------------------------------------------------------- C23
template<class T, int K> std::vector<long> pt8(const FixedVector<T, K>& p) { std::vector<long> v; for (int c = 0; c < K; ++c) v.push_back(std::lround((double)p[c] * 1e8)); return v; }
template<class T, int K, int O> void rule(Rng& g, int n) {
	Ev("reset").out();
	GaussLegendreQuadratureFactory<T, K, O> fac; GaussLegendreQuadrature<T, K, O> quad;
	NV w; std::vector<std::vector<long> > p;
	for (auto x : fac.getQuadratureWeights()) w.push_back(num(x)); if (sizeof(T) == 4) { w.clear(); for (auto x : fac.getQuadratureWeights()) w.push_back(rat(x, 400, 1e-6)); }
	for (const auto& x : fac.getQuadraturePoints()) p.push_back(pt8<T, K>(x));
	Ev("rule").f("k", K).f("o", O).f("w", w).f("p", p).f("eps", sizeof(T) == 4 ? 20 : 1).out();
	const int deg = K == 1 ? 2 * O - 1 : O;
	auto poly = [&](const std::vector<std::vector<int> >& ex, const NV& c, Num start) {
		auto f = [&](const FixedVector<T, K>& x) { T s = 0; for (size_t i = 0; i < ex.size(); ++i) { T m = toT<T>(c[i]); for (int k = 0; k < K; ++k) for (int e = 0; e < ex[i][k]; ++e) m *= x[k]; s += m; } return s; };
		T r = start.a || start.b ? quad.eval(f, toT<T>(start)) : quad.eval(f);
		T r2 = quad.eval_index([&](Index, const FixedVector<T, K>& x) { return f(x); }, toT<T>(start));
		Num a = gnum(r), b = gnum(r2); if (a.a != b.a || a.d != b.d) a = Num{0, 0, 0};
		Ev("poly").f("x", ex).f("c", c).f("start", start).f("r", a).out();
	};
	// float results are recognized with denominators up to 60 only: make the coefficients multiples of 60
	const int unit = sizeof(T) == 4 ? 60 : 1;
	std::vector<std::vector<int> > all;
	for (int a = 0; a <= deg; ++a) { if (K == 1) all.push_back({a}); else for (int b = 0; a + b <= deg; ++b) all.push_back({a, b}); }
	for (auto& e : all) { poly({e}, {I(unit)}, I(0)); poly({e}, {I(unit * g.in(2, 9))}, I(g.in(-5, 5))); }
	for (int r = 0; r < n; ++r) { std::vector<std::vector<int> > ex; NV c; for (auto& e : all) if (g.coin(2, 3)) { ex.push_back(e); c.push_back(I(unit * g.in(-9, 9))); } if (!ex.empty()) poly(ex, c, I(g.in(-20, 20))); }
	for (int r = 0; r < n; ++r) {
		const int np = p.size();
		std::vector<std::vector<long> > seen; std::vector<int> idx; std::vector<NV> f; const int fu = sizeof(T) == 4 ? 96 : 1, fl = sizeof(T) == 4 ? 1 : 7;
		for (int i = 0; i < np; ++i) f.push_back(NV{I(fu * g.in(-fl, fl)), I(fu * g.in(-fl, fl))});
		switch (r % 3) {
		case 0: { Num st = I(g.in(-9, 9)); for (auto& x : f) x.resize(1);
			T v = quad.eval_index([&](Index i, const FixedVector<T, K>& x) { idx.push_back(i); seen.push_back(pt8<T, K>(x)); return toT<T>(f[i % np][0]); }, toT<T>(st));
			Ev("visit").f("seen", seen).f("idx", idx).f("start", NV{st}).f("f", f).f("r", NV{gnum(v)}).out(); break; }
		case 1: { Num s1 = I(g.in(-9, 9)), s2 = I(g.in(-9, 9)); typedef FixedVector<T, 2> R; R st{toT<T>(s1), toT<T>(s2)};
			R v = quad.eval_index([&](Index i, const FixedVector<T, K>& x) { idx.push_back(i); seen.push_back(pt8<T, K>(x)); return R{toT<T>(f[i % np][0]), toT<T>(f[i % np][1])}; }, st);
			Ev("visit").f("seen", seen).f("idx", idx).f("start", NV{s1, s2}).f("f", f).f("r", gcontv(v)).out(); break; }
		case 2: { Num s1 = I(g.in(-9, 9)), s2 = I(g.in(-9, 9)); typedef std::complex<T> R; R st(toT<T>(s1), toT<T>(s2)); int i = 0;
			R v = quad.eval([&](const FixedVector<T, K>& x) { idx.push_back(i); seen.push_back(pt8<T, K>(x)); R z(toT<T>(f[i % np][0]), toT<T>(f[i % np][1])); ++i; return z; }, st);
			Ev("visit").f("seen", seen).f("idx", idx).f("start", NV{s1, s2}).f("f", f).f("r", gcontv(v)).out(); break; }
		}
	}
}
// ---------------------------------------------------------------- C28
static std::vector<int> big(unsigned long long v) { std::vector<int> d; while (v) { d.push_back(v % 1000); v /= 1000; } return d; }
template<class T> std::vector<int> bigT(T v) { if (v < 0) return {-1}; return big((unsigned long long)v); }
// binomial coefficient in wide arithmetic: only to know which arguments are representable
static double wide(double n, double k) { double r = 1; for (double i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
template<class T> void ints(Rng& g, int n) {
	Ev("reset").out();
	const double top = (double)std::numeric_limits<T>::max();
	double f = 1; for (int k = 0; k < 25; ++k) { if (k > 1) f *= k; if (f > top) break; Ev("fact").f("n", k).f("r", bigT(Math::factorial<T>((T)k))).out(); }
	for (int k = 0; k < 20; ++k) { T v = (T)g.in(std::numeric_limits<T>::min() < 0 ? -120 : 0, 120); Ev("sign").f("k", (long long)v).f("r", (int)Math::sign_pow<T>(v)).out(); }
	for (ll v : {(ll)0, (ll)1, (ll)2}) Ev("sign").f("k", v).f("r", (int)Math::sign_pow<T>((T)v)).out();
	if (std::numeric_limits<T>::min() < 0) for (ll v : {(ll)-1, (ll)-2, (ll)-3}) Ev("sign").f("k", v).f("r", (int)Math::sign_pow<T>((T)v)).out();
	auto one = [&](ll a, ll k) {
		if (a > top) return; double w = a < k ? 0 : wide(a, std::min(k, a - k)); if (w * std::max(a, (ll)1) * 1.0001 > top) return;
		Ev("binom").f("n", a).f("k", k).f("r", bigT(Math::binom<T>((T)a, (typename std::make_unsigned<T>::type)k))).out(); };
	for (int a = 0; a <= (n > 100 ? 40 : 14); ++a) for (int k = 0; k <= a + 2; ++k) one(a, k);
	for (int r = 0; r < n; ++r) { int a = g.in(0, 66); one(a, g.in(0, a + 1)); a = g.in(0, 1500); int k = g.in(0, 5); one(a, k); one(a, a - std::min(a, k)); a = g.in(0, 1200000); k = g.in(0, 2); one(a, k); one(a, a - std::min(a, k)); one(a, a + 1 + k); }
}
template<class T> void reals(Rng& g, int n) {
	Ev("reset").out();
	for (int r = 0; r < n; ++r) {
		int d = sizeof(T) == 4 ? g.in(1, 2) : g.in(1, 4), k = g.below(sizeof(T) == 4 ? 3 : d > 2 ? 4 : 6); ll a = g.in(-6 * d, 9 * d); ll q = gcdll(a, d); Num x{a / q, 0, d / q};
		Ev("rbinom").f("x", x).f("k", k).f("r", num(Math::binom<T>(toT<T>(x), (uint32)k))).out();
		Num u = I(g.in(-4, 4)), v = I(g.in(-4, 4)); if (g.coin()) { u.d = 2; v.d = 2; if (u.a % 2 == 0) { u.a /= 2; u.d = 1; } if (v.a % 2 == 0) { v.a /= 2; v.d = 1; } }
		Ev("minmax").f("a", u).f("b", v).f("mn", num(t_min<T>(toT<T>(u), toT<T>(v)))).f("mx", num(t_max<T>(toT<T>(u), toT<T>(v)))).out();
	}
}
template<class T> void imm(Rng& g, int n, bool neg) {
	for (int r = 0; r < n; ++r) { T a = (T)g.in(neg ? -9 : 0, 100), b = g.coin(1, 5) ? a : (T)g.in(neg ? -9 : 0, 100); Ev("minmax").f("a", I((ll)a)).f("b", I((ll)b)).f("mn", I((ll)t_min(a, b))).f("mx", I((ll)t_max(a, b))).out(); }
}
template<class T, int K> void normals(Rng& g, int n, int lim) {
	Ev("reset").out();
	for (int r = 0; r < n; ) {
		ll v[K][K]; std::array<FixedVector<T, K>, K - 1> arr; std::vector<NV> vs; const int E = sizeof(T) == 4 ? 9 : K == 2 ? 80 : 28; const T sc = (T)std::ldexp(1.0, g.coin() ? 0 : g.in(-E, E));
		for (int j = 0; j < K - 1; ++j) { NV row; for (int c = 0; c < K; ++c) { v[j][c] = g.coin(1, 4) ? 0 : g.in(-lim, lim); arr[j][c] = (T)v[j][c] * sc; row.push_back(I(v[j][c])); } vs.push_back(row); }
		ll x[K], l2 = 0;
		for (int i = 0; i < K; ++i) { int c[3], p = 0; for (int k = 0; k < K; ++k) if (k != i) c[p++] = k;
			if (K == 2) x[i] = v[0][c[0]]; else if (K == 3) x[i] = v[0][c[0]] * v[1][c[1]] - v[0][c[1]] * v[1][c[0]];
			else x[i] = v[0][c[0]] * (v[1][c[1]] * v[2][c[2]] - v[1][c[2]] * v[2][c[1]]) - v[0][c[1]] * (v[1][c[0]] * v[2][c[2]] - v[1][c[2]] * v[2][c[0]]) + v[0][c[2]] * (v[1][c[0]] * v[2][c[1]] - v[1][c[1]] * v[2][c[0]]);
			l2 += x[i] * x[i]; }
		if (!l2 || l2 > 300000000) continue;
		auto u = Math::normal(arr); NV res; const double L = std::sqrt((double)l2); for (int c = 0; c < K; ++c) res.push_back(num((T)(u[c] * (T)L)));
		Ev("normal").f("v", vs).f("l2", I(l2)).f("r", res).out(); ++r;
	}
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 20);
	const int K = o.thorough ? 10 : 1;
	if (o.mode == "C20") for (int k = 0; k < 4 * K; ++k) {
		tris<double>(g, 40, 1, 3, 20); tris<double>(g, 40, 6, 12, 20); tris<double>(g, 40, 3, 1000, 10); tris<double>(g, 40, 9, 50, 20); tris<float>(g, 40, 4, 8, 6);
	}
	if (o.mode == "C21") for (int k = 0; k < 2 * K; ++k) { shapes<double>(g, 30, 12, 9, 6); shapes<float>(g, 12, 7, 4, 2); }
	if (o.mode == "C23") for (int k = 0; k < 2 * K; ++k) {
		rule<double, 1, 1>(g, 30); rule<double, 1, 2>(g, 30); rule<double, 1, 3>(g, 30); rule<double, 2, 1>(g, 30); rule<double, 2, 2>(g, 30); rule<double, 2, 3>(g, 30);
		rule<float, 1, 1>(g, 9); rule<float, 1, 2>(g, 9); rule<float, 1, 3>(g, 9); rule<float, 2, 1>(g, 9); rule<float, 2, 2>(g, 9); rule<float, 2, 3>(g, 9);
	}
	if (o.mode == "C28") for (int k = 0; k < K; ++k) {
		const int n = o.thorough ? 120 : 30;
		switch (o.shard % 4) {
		case 0: ints<int>(g, n); ints<signed char>(g, n); imm<int>(g, 20, true); break;
		case 1: ints<unsigned>(g, n); ints<short>(g, n); imm<unsigned>(g, 20, false); break;
		case 2: ints<long long>(g, n); ints<unsigned char>(g, n); imm<long long>(g, 20, true); break;
		default: ints<unsigned long>(g, n); ints<unsigned short>(g, n); imm<unsigned char>(g, 20, false);
		}
		reals<double>(g, 60); reals<float>(g, 20);
		normals<double, 2>(g, 40, 9); normals<double, 3>(g, 60, 7); normals<double, 4>(g, 60, 5); normals<float, 2>(g, 20, 5); normals<float, 3>(g, 20, 3);
	}
	fclose(g_out);
	return 0;
}
