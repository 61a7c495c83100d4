// VTK export (C26) and text output (C27).
#include "meshdump.h"
#include <fstream>
#include <memory>
#include "OutputStream.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
TRACE_MAIN_GLOBALS

// ---------------------------------------------------------------- a small XML reader: element, attribute and text nodes only
struct Node { std::string tag; std::vector<std::pair<std::string, std::string> > a; std::string text; std::vector<Node> c; };
struct Xml {
	const std::string& s; size_t i = 0; bool bad = false;
	explicit Xml(const std::string& t) : s(t) {}
	static bool nameCh(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.' || c == ':'; }
	void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
	std::string name() { size_t b = i; while (i < s.size() && nameCh(s[i])) ++i; if (b == i || !(isalpha((unsigned char)s[b]) || s[b] == '_')) bad = true; return s.substr(b, i - b); }
	bool eat(const char* w) { size_t n = strlen(w); if (s.compare(i, n, w) == 0) { i += n; return true; } return false; }
	void attrs(std::vector<std::pair<std::string, std::string> >& a) {
		for (;;) { size_t b = i; ws(); if (i >= s.size() || s[i] == '>' || s[i] == '/' || s[i] == '?') return; if (b == i) { bad = true; return; }
			std::string n = name(); if (bad) return; ws(); if (!eat("=")) { bad = true; return; } ws(); if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) { bad = true; return; }
			char q = s[i++]; size_t e = s.find(q, i); if (e == std::string::npos) { bad = true; return; } std::string v = s.substr(i, e - i); i = e + 1; if (v.find_first_of("<&") != std::string::npos) bad = true;
			for (auto& x : a) if (x.first == n) bad = true; a.push_back(std::make_pair(n, v)); }
	}
	Node element() {
		Node n; if (!eat("<")) { bad = true; return n; } n.tag = name(); attrs(n.a); if (bad) return n; if (eat("/>")) return n; if (!eat(">")) { bad = true; return n; }
		for (;;) { if (i >= s.size()) { bad = true; return n; }
			if (s.compare(i, 2, "</") == 0) { i += 2; if (name() != n.tag) bad = true; ws(); if (!eat(">")) bad = true; return n; }
			if (s.compare(i, 4, "<!--") == 0) { size_t e = s.find("-->", i); if (e == std::string::npos) { bad = true; return n; } i = e + 3; continue; }
			if (s[i] == '<') { n.c.push_back(element()); if (bad) return n; continue; }
			if (s[i] == '&') bad = true; n.text += s[i++]; }
	}
	Node document() { if (s.compare(0, 5, "<?xml") == 0) { i = 5; std::vector<std::pair<std::string, std::string> > a; attrs(a); if (!eat("?>")) bad = true; } ws(); Node n = element(); ws(); if (i != s.size()) bad = true; return n; }
};
static std::string token(const std::string& w) {
	char* e; double v = strtod(w.c_str(), &e); if (*e || w.empty()) return "{\"n\":[0,0,0],\"q\":0}";
	return "{\"n\":" + js(num(v)) + ",\"q\":" + (std::fabs(v) < 20000 ? std::to_string((long)std::lround(v * 1e4)) : "2000000000") + "}";
}
static std::string tree(const Node& n) {
	std::string s = "{\"t\":" + js(n.tag) + ",\"a\":{"; bool f = true; for (auto& x : n.a) { s += std::string(f ? "" : ",") + js(x.first) + ":" + js(x.second); f = false; }
	s += "},\"x\":["; std::istringstream is(n.text); std::string w; f = true; while (is >> w) { s += std::string(f ? "" : ",") + token(w); f = false; }
	s += "],\"c\":["; f = true; for (auto& c : n.c) { s += std::string(f ? "" : ",") + tree(c); f = false; } return s + "]}";
}
// ---------------------------------------------------------------- C26
template<class V> struct Len { static V make(size_t n) { return V(n); } };
template<class T> T fieldValue(Rng& g, Num& n, bool whole) {
	ll d = whole ? 1 : g.coin() ? 1 << g.below(5) : 1 << (5 + g.below(4)); ll a = d <= 16 && g.coin(1, 4) ? g.in(-999999, 999999) / (d == 1 ? 1 : 100 * d) * (d == 1 ? 1 : 1) : g.in(-99 * d, 99 * d);
	ll q = gcdll(a, d); n = a ? Num{a / q, 0, d / q} : Num{0, 0, 1}; return (T)((double)n.a / n.d);
}
template<class V, class E> std::string fields(Rng& g, size_t n, std::map<std::string, V*>& m, std::vector<std::unique_ptr<V> >& own) {
	static const char* names[] = {"u", "Result", "exact solution", "error_L2", "a.b", "0", "Z", "residual (abs)", "-", "x1"}; std::string s = "["; int k = g.below(4); std::map<std::string, std::string> js1;
	for (int i = 0; i < k; ++i) { std::string nm = names[g.below(10)]; if (m.count(nm)) continue; own.push_back(std::unique_ptr<V>(new V(n))); V& v = *own.back(); std::vector<Num> c(n);
		for (size_t j = 0; j < n; ++j) v[j] = fieldValue<E>(g, c[j], std::is_integral<E>::value); m[nm] = &v; js1[nm] = "{\"n\":" + js(nm) + ",\"v\":" + js(c) + "}"; }
	for (auto& x : js1) s += (s.size() > 1 ? "," : "") + x.second; return s + "]";
}
template<class V, class E, class T> void exportMesh(Rng& g, const Mesh<T, 2>& m, int order) {
	std::map<std::string, V*> pd, cd; std::vector<std::unique_ptr<V> > own;
	std::string pf = fields<V, E>(g, m.vertices().size(), pd, own), cf = fields<V, E>(g, m.elements().size(), cd, own);
	int opt = g.coin(1, 4) ? 0 : g.coin(1, 4) ? 31 : g.below(32);
	const std::string d = dump(m), fn = "o" + std::to_string(g.below(3)) + ".vtu";
	if (opt == 0 && order == 1 && g.coin()) VTKExporter<T, 2>::write(fn, m, pd, cd); else VTKExporter<T, 2>::write(fn, m, pd, cd, opt | (order == 2 ? VOO_IsQuadratic : 0));
	std::ifstream f(fn, std::ios::binary); std::stringstream b; b << f.rdbuf(); const std::string text = b.str(); Xml x(text); Node n = x.document();
	Ev("vtk").raw("d", d).f("same", d == dump(m)).f("o", order).f("det", bool(opt & 1)).f("mat", bool(opt & 2)).f("grad", bool(opt & 4)).f("bnd", bool(opt & 8)).f("imp", bool(opt & 16))
		.raw("pf", pf).raw("cf", cf).f("wf", !x.bad).raw("x", tree(n)).out();
}
// closed surface with more triangles than vertices, squeezed flat (an export needs no more than valid triangles)
static Cx bipyramid(Rng& g) {
	for (;;) {
		Cx c; const int k = g.in(3, 6); for (int i = 0; i < k + 2; ++i) { c.p.push_back({Num{g.in(-20, 20), 0, 1}, Num{g.in(-20, 20), 0, 1}}); c.f.push_back(0); }
		for (int i = 0; i < k; ++i) { c.t.push_back({i, (i + 1) % k, k}); c.t.push_back({i, (i + 1) % k, k + 1}); }
		bool ok = true; for (auto& t : c.t) { auto &a = c.p[t[0]], &b = c.p[t[1]], &d = c.p[t[2]]; ll det = (b[0].a - a[0].a) * (d[1].a - a[1].a) - (b[1].a - a[1].a) * (d[0].a - a[0].a); if (std::llabs(det) < 20) ok = false; }
		if (ok) { shuffle(g, c); return c; }
	}
}
template<class T> void meshes(Rng& g, int order) {
	const bool closed = g.coin(1, 4);
	Cx c = closed ? bipyramid(g) : conforming(g); if (c.t.size() > 12) c.t.resize(12); dropUnused(c); if (g.coin(1, 12)) { c.t.clear(); if (g.coin()) c.p.clear(); else c.p.resize(2); }
	int sc = 1 << g.below(4); for (auto& p : c.p) for (auto& x : p) { ll q = gcdll(x.a, sc); if (x.a) x = Num{x.a / q, 0, sc / q}; }
	Mesh<T, 2> m;
	for (auto& p : c.p) { auto* v = new MeshVertex<T, 2>(pos<T>(p)); m.addVertex(v); }
	for (auto& t : c.t) { auto* e = new MeshElement<T, 2>(); for (int i = 0; i < 3; ++i) e->Vertices[i] = m.vertex(t[i]); m.addElement(e); }
	m.setupNeighbors(); if (g.coin(3, 4)) m.setupBoundaries(); m.prepare();
	if (order == 1) PolyShapeFunction<T, 2, 1>::prepareMesh(m); else PolyShapeFunction<T, 2, 2>::prepareMesh(m);
	for (int k = 0; k < 2; ++k) switch (g.below(4)) {
		case 0: exportMesh<DynamicVector<double>, double>(g, m, order); break;
		case 1: exportMesh<std::vector<int>, int>(g, m, order); break;
		case 2: exportMesh<std::vector<double>, double>(g, m, order); break;
		default: exportMesh<DynamicVector<T>, T>(g, m, order); }
}
// ---------------------------------------------------------------- C27
template<class T> Num entry(Rng& g) {
	auto part = [&]() -> Num { if (g.coin(1, 4)) return Num{0, 0, 1}; ll d = std::is_integral<T>::value ? 1 : 1 << g.below(4); ll a = g.coin(1, 6) && d == 1 ? g.in(-99999, 99999) : g.in(-40, 40); ll q = gcdll(a, d); return a ? Num{a / q, 0, d / q} : Num{0, 0, 1}; };
	Num r = part(); if (!Mk<T>::cplx) return r; Num i = part(); ll q = gcdll(r.d, i.d), d = r.d / q * i.d; return Num{r.a * (d / r.d), i.a * (d / i.d), d};
}
// zero without sign
template<class T> T val(const Num& n) { return toT<T>(n); }
template<> int val<int>(const Num& n) { return (int)n.a; }
template<class X> std::string text(Rng& g, const X& x, bool& chain) {
	std::ostringstream o; chain = g.coin(1, 4); if (chain) { o << "<" << x << ">" << x; std::string s = o.str(); size_t p = s.find('>'); std::string a = s.substr(1, p - 1), b = s.substr(p + 1); return a == b ? a : a + " / " + b; }
	std::ostream& r = (o << x); return &r == &o ? o.str() : "other stream"; }
template<class V, class T> void vec(Rng& g, V v, size_t n) {
	NV c(n); for (size_t i = 0; i < n; ++i) { c[i] = entry<T>(g); v[i] = val<T>(c[i]); } bool ch; std::string s = text(g, v, ch);
	Ev("text").f("k", "vec").f("cx", (bool)Mk<T>::cplx).f("c", c).f("s", s).out();
}
template<class M, class T> void matr(Rng& g, M m, const char* k) {
	NM c(m.rows(), NV(m.columns())); for (auto& r : c) for (auto& x : r) x = entry<T>(g);
	for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c[i].size(); ++j) m.set(i, j, val<T>(c[i][j]));
	bool ch; std::string s = text(g, m, ch); Ev("text").f("k", k).f("cx", (bool)Mk<T>::cplx).f("c", c).f("s", s).out();
}
template<class T> void sparse(Rng& g) {
	size_t R = g.in(1, 5), C = g.in(1, 5); SparseMatrix<T> m(R, C); NM c(R, NV(C, Num{0, 0, 1})); bool ch;
	for (int k = g.below(2 * R * C); k > 0; --k) { int i = g.below(R), j = g.below(C); Num x = g.coin(1, 6) ? Num{0, 0, 1} : entry<T>(g); c[i][j] = x; m.set(i, j, val<T>(x)); if (g.coin(1, 20)) { std::string s = text(g, m, ch); Ev("text").f("k", "sparse").f("cx", (bool)Mk<T>::cplx).f("c", c).f("s", s).out(); } }
	std::string s = text(g, m, ch); Ev("text").f("k", "sparse").f("cx", (bool)Mk<T>::cplx).f("c", c).f("s", s).out();
}
template<class T> void large(Rng& g) {
	size_t n = g.in(30, 300); vec<DynamicVector<T>, T>(g, DynamicVector<T>(n), n); vec<FixedVector<T, 130>, T>(g, FixedVector<T, 130>(), 130);
	matr<DenseMatrix<T>, T>(g, DenseMatrix<T>(g.in(1, 4), g.in(20, 70)), "mat"); matr<DenseMatrix<T>, T>(g, DenseMatrix<T>(g.in(20, 70), g.in(1, 4)), "mat"); matr<DenseMatrix<T>, T>(g, DenseMatrix<T>(1, g.in(250, 300)), "mat"); matr<FixedMatrix<T, 2, 40>, T>(g, FixedMatrix<T, 2, 40>(), "mat");
	{ SparseMatrix<T> m(70000, 66000); std::map<std::pair<int, int>, Num> z; for (int k = g.in(5, 120); k > 0; --k) { Num x = entry<T>(g); int i = g.coin() ? g.below(70000) : 69900 + g.below(100), j = g.coin() ? g.below(66000) : g.below(12); if (x.a || x.b) z[std::make_pair(i, j)] = x; else z.erase(std::make_pair(i, j)); m.set(i, j, val<T>(x)); }
		bool ch; std::string s = text(g, m, ch), it = "["; for (auto& x : z) it += (it.size() > 1 ? ",[" : "[") + js(x.first.first) + "," + js(x.first.second) + "," + js(x.second) + "]"; Ev("items").f("cx", (bool)Mk<T>::cplx).raw("c", it + "]").f("s", s).out(); }
}
template<class T> void texts(Rng& g) {
	size_t n = g.below(6); vec<DynamicVector<T>, T>(g, DynamicVector<T>(n), n);
	vec<FixedVector<T, 1>, T>(g, FixedVector<T, 1>(), 1); vec<FixedVector<T, 3>, T>(g, FixedVector<T, 3>(), 3);
	matr<DenseMatrix<T>, T>(g, DenseMatrix<T>(g.in(1, 5), g.in(1, 5)), "mat");
	matr<FixedMatrix<T, 1, 3>, T>(g, FixedMatrix<T, 1, 3>(), "mat"); matr<FixedMatrix<T, 3, 1>, T>(g, FixedMatrix<T, 3, 1>(), "mat"); matr<FixedMatrix<T, 2, 2>, T>(g, FixedMatrix<T, 2, 2>(), "mat"); matr<FixedMatrix<T, 3, 4>, T>(g, FixedMatrix<T, 3, 4>(), "mat");
	sparse<T>(g); sparse<T>(g);
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + (o.mode == "C26" ? 26 : 27));
	for (int k = 0; k < (o.thorough ? 400 : 40); ++k) {
		Ev("reset").out();
		if (o.mode == "C26") { meshes<double>(g, 1); meshes<double>(g, 2); if (k % 3 == 0) meshes<float>(g, 1 + g.below(2)); }
		else { if (k % 5 == 4) { large<double>(g); if (k % 2) large<float>(g); else large<std::complex<double> >(g); } texts<double>(g); texts<float>(g); texts<std::complex<double> >(g); texts<std::complex<float> >(g); }
	}
	fclose(g_out);
	return 0;
}
