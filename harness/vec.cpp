// Histories of vectors (C07).
#include "mat.h"
TRACE_MAIN_GLOBALS

template<class V> struct IsDyn { enum : bool { v = false }; };
template<class T> struct IsDyn<DynamicVector<T> > { enum : bool { v = true }; };
template<class V> struct MkV { static V* make(size_t) { return new V(); } };
template<class T> struct MkV<DynamicVector<T> > { static DynamicVector<T>* make(size_t n) { return new DynamicVector<T>(n); } };
template<class T> void dynOps(Rng& g, int o, DynamicVector<T>& v) {
	const int n = (int)v.size();
	switch (g.below(4)) {
	case 0: { int m = g.in(0, 7); v.resize(m); Ev("resize").f("o", o).f("n", m).out(); break; }
	case 1: if (n) { int i = g.below(n); Ev("slice").f("o", o).f("k", "left").f("i", i).f("j", 0).f("r", contv(v.left(i))).out(); } break;
	case 2: if (n) { int i = g.below(n); Ev("slice").f("o", o).f("k", "right").f("i", i).f("j", 0).f("r", contv(v.right(i))).out(); } break;
	default: { int i = g.in(0, n), j = i + g.in(1, n + 2 - i); Ev("slice").f("o", o).f("k", "mid").f("i", i).f("j", j).f("r", contv(v.mid(i, j))).out(); }
	}
}
template<class V> void dynOps(Rng&, int, V&) {}
template<class T> struct Order { enum : bool { real = true }; };
template<class T> struct Order<std::complex<T> > { enum : bool { real = false }; };
template<class V> void magOps(int o, const V& v, std::true_type) {
	typedef typename V::value_type T;
	const T m = v.mag(); if (v.size() == 0) return;
	bool nz = false; for (size_t i = 0; i < v.size(); ++i) if (v.at(i) != (T)0) nz = true;
	NV nrm; V u; T us = 0;
	if (nz) { V n = v.normalized(); for (size_t i = 0; i < n.size(); ++i) { nrm.push_back(num((T)(n.at(i) * m))); us += n.at(i) * n.at(i); } }
	Ev("mag").f("o", o).f("m2", num2((T)(m * m))).f("neg", m < 0).f("nrm", nrm).f("unit", numU(us)).f("nz", nz).out();
}
template<class V> void magOps(int, const V&, std::false_type) {}

template<class V> struct H {
	typedef typename V::value_type T;
	static Num small(Rng& g) { return Num{g.in(-4, 4), Mk<T>::cplx ? g.in(-2, 2) : 0, 1}; }
	static Num unit(Rng& g) { static const int u[] = {1, -1, 2, -2}; return Num{u[g.below(4)], Mk<T>::cplx && !WIDE() ? g.in(-1, 1) : 0, 1}; }
	static void obs(int o, const V& v) {
		NV la(v.size()), br(v.size()), it; anyOrder(v.size(), [&](size_t i) { la[i] = num(v.linear_at(i)); br[i] = num(v[i]); });
		size_t n = 0; for (auto x : v) { it.push_back(num(x)); if (++n > v.size() + 2) break; }
		NV post; n = 0; { auto b = v.begin(), e = v.end(); while (b != e && n++ < v.size() + 2) { auto old = b++; post.push_back(num(*old)); if (!(old != b)) break; } }
		Ev("obs").f("o", o).f("n", v.size()).f("at", contv(v)).f("lat", la).f("br", br).f("it", it).f("post", post).out();
	}
	static void history(Rng& g, size_t N, int ops, std::function<V*(Rng&, int)> initList) {
		const bool dyn = IsDyn<V>::v;
		Ev("reset").out();
		V* reg[5] = {0, 0, 0, 0, 0};
		for (int o = 1; o <= 2; ++o) { reg[o] = MkV<V>::make(N); Ev("new").f("o", o).f("n", N).out(); }
		const bool flt = sizeof(typename Mk<T>::real) == 4;       // bounds that keep every result a recognizable small rational
		const double cap = flt ? (Mk<T>::cplx ? 6 : 13) : Mk<T>::cplx ? 31 : 901;
		const double lim = WIDE() ? 4e8 : cap;
		const ll dcap = flt ? (Mk<T>::cplx ? 1 : 4) : Mk<T>::cplx ? 4 : 6;
		for (int t = 0; t < ops; ++t) {
			int o = g.in(1, 4); while (!reg[o]) o = g.in(1, 4);
			int q = g.in(1, 4); while (!reg[q]) q = g.in(1, 4);
			int d = g.in(1, 4); if (!reg[d]) d = o;
			V& v = *reg[o]; V& w = *reg[q]; const int n = (int)v.size();
			Num xn = g.coin(1, 5) ? Num{0, 0, 1} : rnum<T>(g, 4); T x = toT<T>(xn);
			int i = n ? g.below(n) : 0;
			switch (g.below(22)) {
			case 0: case 1: if (!n) break; v.set(i, x); Ev("set").f("o", o).f("i", i).f("v", xn).out(); break;
			case 2: if (!n) break; v.linear_set(i, x); Ev("set").f("o", o).f("i", i).f("v", xn).out(); break;
			case 3: if (!n) break; v[i] = x; Ev("set").f("o", o).f("i", i).f("v", xn).out(); break;
			case 4: v.fill(x); Ev("fill").f("o", o).f("v", xn).out(); break;
			case 5: v.swap(w); Ev("swap").f("a", o).f("b", q).out(); break;
			case 6: { int e = g.in(1, 4); if (reg[e]) { *reg[e] = v; } else reg[e] = new V(v); Ev("copy").f("d", e).f("s", o).out(); break; }
			case 7: { int e = g.in(1, 4); if (e == o) break; if (reg[e] && g.coin()) *reg[e] = std::move(v); else { delete reg[e]; reg[e] = new V(std::move(v)); } delete reg[o]; reg[o] = 0; Ev("move").f("d", e).f("s", o).out(); d = e; break; }
			case 8: { int e = g.in(1, 4); delete reg[e]; if (g.coin()) { size_t m = dyn ? g.in(0, 6) : N; if (dyn && g.coin()) m = N; reg[e] = MkV<V>::make(m); Ev("new").f("o", e).f("n", m).out(); } else reg[e] = initList(g, e); d = e; break; }
			case 9: case 10: { int k = g.below(linearOnly() ? 2 : 4); static const char* nm[] = {"add", "sub", "mul", "div"};
				if (k == 3 && w.hasZero()) k = g.below(3);
				std::string e = guarded([&] { if (k == 0) v += w; else if (k == 1) v -= w; else if (k == 2) v *= w; else v /= w; });
				Ev("bin").f("k", nm[k]).f("a", o).f("b", q).f("d", o).f("exc", e).out(); d = q; break; }
			case 11: case 12: { int k = g.below(linearOnly() ? 2 : 4); static const char* nm[] = {"add", "sub", "mul", "div"}; V r = v;
				if (k == 3 && w.hasZero()) k = g.below(3);
				std::string e = guarded([&] { if (k == 0) r = v + w; else if (k == 1) r = v - w; else if (k == 2) r = v * w; else r = v / w; });
				Ev("bin").f("k", nm[k]).f("a", o).f("b", q).f("d", d).f("exc", e).out(); if (e == "ok") *reg[d] = r; break; }
			case 13: { int k = g.below(4); static const char* nm[] = {"add", "sub", "mul", "div"}; if (k == 3 && WIDE()) k = 1;
				if (linearOnly() && k >= 2) { xn = unit(g); x = toU<T>(xn); }
				else if (n && (k < 2 || !linearOnly()) && g.coin(1, 3)) { xn = num(v.at(i)); if (k == 3 && v.at(i) == (T)0) k = 2;      // the scalar is an entry of the vector itself
					const T& s = g.coin() ? v[i] : v.at(i); if (k == 0) v += s; else if (k == 1) v -= s; else if (k == 2) v *= s; else v /= s; Ev("scal").f("k", nm[k]).f("side", "r").f("a", o).f("d", o).f("v", xn).out(); d = o; break; }
				if (k == 3) { while (x == (T)0) { xn = small(g); x = toU<T>(xn); } }
				if (k == 0) v += x; else if (k == 1) v -= x; else if (k == 2) v *= x; else v /= x; Ev("scal").f("k", nm[k]).f("side", "r").f("a", o).f("d", o).f("v", xn).out(); d = o; break; }
			case 14: { int k = g.below(4); static const char* nm[] = {"add", "sub", "mul", "div"}; if (k == 3 && WIDE()) k = 1; if (linearOnly() && k >= 2) { xn = unit(g); x = toU<T>(xn); } if (k == 3) { while (x == (T)0) { xn = small(g); x = toU<T>(xn); } }
				V r = v; if (k == 0) r = v + x; else if (k == 1) r = v - x; else if (k == 2) r = v * x; else r = v / x; Ev("scal").f("k", nm[k]).f("side", "r").f("a", o).f("d", d).f("v", xn).out(); *reg[d] = r; break; }
			case 15: { int k = g.below(linearOnly() ? 3 : 4); static const char* nm[] = {"add", "sub", "mul", "div"}; if (k == 2 && linearOnly()) { xn = unit(g); x = toU<T>(xn); } if (k == 3 && v.hasZero()) k = g.below(3);
				V r = v; if (k == 0) r = x + v; else if (k == 1) r = x - v; else if (k == 2) r = x * v; else r = x / v; Ev("scal").f("k", nm[k]).f("side", "l").f("a", o).f("d", d).f("v", xn).out(); *reg[d] = r; break; }
			case 16: { V r = -v; Ev("neg").f("a", o).f("d", d).out(); *reg[d] = r; break; }
			case 17: if (v.hasZero() || linearOnly()) break; v.do_reciprocal(); Ev("recip").f("o", o).out(); d = o; break;
			case 18: { if (WIDE()) break; if (sizeof(typename Mk<T>::real) == 4) { bool small = true; for (Index z = 0; z < v.size(); ++z) small = small && num(v.at(z)).d <= 2; for (Index z = 0; z < w.size(); ++z) small = small && num(w.at(z)).d <= 2; if (!small) break; } T r = 0; std::string e = guarded([&] { r = v.dot(w); }); Ev("dot").f("a", o).f("b", q).f("exc", e).f("r", num2(r)).out(); Ev("dot").f("a", o).f("b", o).f("exc", "ok").f("r", num2(v.magSqr())).out(); magOps(o, v, std::integral_constant<bool, Order<T>::real>()); break; }
			case 19: { bool e = false, f = false; std::string a = guarded([&] { e = v == w; }), b = guarded([&] { f = v != w; }); Ev("cmp").f("a", o).f("b", q).f("eq", e).f("ne", f).f("exc", a).f("exc2", b).out();
				V c = v; if (n) { bool e1 = c == v; c.set(i, v.at(i) + toT<T>(Num{1, 0, 1})); Ev("cmp1").f("same", e1).f("eq", c == v).f("ne", c != v).out(); } break; }
			case 20: { int s = g.in(0, n + 1), e = g.in(0, n + 2); T y = n && g.coin() ? v.at(i) : x; Ev("has").f("o", o).f("i", s).f("j", e).f("v", num(y)).f("r", v.has(s, e, y)).out(); break; }
			default: dynOps(g, o, v);
			}
			for (int k = 1; k <= 4; ++k) if (reg[k]) { V& c = *reg[k];      // keep numerators and denominators small
				for (Index z = 0; z < c.size(); ++z) { Num u = num(c.at(z)); if (u.d == 0) continue; if (!(std::abs(u.a) < lim && std::abs(u.b) < lim && u.d <= dcap)) { Num f = rnum<T>(g, 4); c.set(z, toT<T>(f)); Ev("keep").f("o", k).f("i", z).f("v", u).out(); Ev("set").f("o", k).f("i", z).f("v", f).out(); }
					else if (c.at(z) != toT<T>(u)) { c.set(z, toT<T>(u)); Ev("keep").f("o", k).f("i", z).f("v", u).out(); Ev("set").f("o", k).f("i", z).f("v", u).out(); } } }     // no accumulated rounding
			for (int k = 1; k <= 4; ++k) if (reg[k] && (k == d || k == o || t % 6 == 0)) obs(k, *reg[k]);
		}
		for (int k = 1; k <= 4; ++k) if (reg[k]) { obs(k, *reg[k]); delete reg[k]; }
	}
};
template<class T> void dyn(Rng& g, size_t N, int ops) {
	typedef DynamicVector<T> V;
	H<V>::history(g, N, ops, [](Rng& g, int o) -> V* { NV a = rvec<T>(g, 3, 4); int k = g.below(3);
		if (k == 0) { a.resize(1); Ev("init").f("o", o).f("v", a).out(); return new V{toT<T>(a[0])}; }
		if (k == 1) { a.resize(2); Ev("init").f("o", o).f("v", a).out(); return new V{toT<T>(a[0]), toT<T>(a[1])}; }
		Ev("init").f("o", o).f("v", a).out(); return new V{toT<T>(a[0]), toT<T>(a[1]), toT<T>(a[2])}; });
}
template<class T, Dimension N> void fix(Rng& g, int ops) {
	typedef FixedVector<T, N> V;
	H<V>::history(g, N, ops, [](Rng& g, int o) -> V* { NV a(N, Num{0, 0, 1}); Num x = rnum<T>(g, 4), y = rnum<T>(g, 4); a[0] = x;
		if (N > 1 && g.coin()) { a[1] = y; Ev("init").f("o", o).f("v", a).out(); return new V{toT<T>(x), toT<T>(y)}; }
		Ev("init").f("o", o).f("v", a).out(); return new V{toT<T>(x)}; });
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 31);
	const int K = o.thorough ? 24 : 3;
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < 2 * K; ++k) {
		Mode mode(k % 2 == 0 ? 0 : 1 + (k / 2 + o.seed) % 3);
		for (int s = 0; s <= 5; ++s) {
			MINE dyn<double>(g, s, 80);
			MINE dyn<std::complex<double> >(g, s, 80);
			MINE dyn<float>(g, s, 50);
			MINE dyn<std::complex<float> >(g, s, 30);
		}
		for (int s : {7, 9, 16, 21}) { MINE dyn<double>(g, s, 40); if (k % 6 < 2) { MINE dyn<float>(g, s, 25); MINE dyn<std::complex<double> >(g, s, 25); } }
		MINE fix<double, 12>(g, 40);
		for (int r = 0; r < 2; ++r) {
			MINE fix<double, 1>(g, 60); MINE fix<double, 2>(g, 60); MINE fix<double, 3>(g, 80); MINE fix<double, 5>(g, 80);
			MINE fix<std::complex<double>, 2>(g, 60); MINE fix<std::complex<double>, 3>(g, 60); MINE fix<float, 3>(g, 50); MINE fix<float, 2>(g, 50);
		}
	}
	fclose(g_out);
	return 0;
}
