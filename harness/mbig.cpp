// Meshes with more than 65536 vertices (C16, C18, C19, C22, C24, C25, C26).
#include "meshdump.h"
#include <fstream>
#include <unistd.h>
#include <unordered_map>
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
#include "export/VTKExporter.h"
TRACE_MAIN_GLOBALS

typedef std::vector<int> VI;
static const int BAD = -999999999;
static int whole(double x) { return std::fabs(x) < 5e8 && x == std::floor(x) ? (int)x : BAD; }
struct Big { std::vector<std::array<int, 2> > p; VI f; std::vector<std::array<int, 3> > t; };
template<size_t N> static std::string js(const std::vector<std::array<int, N> >& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < N; ++j) { if (j) s += ','; s += std::to_string(v[i][j]); } s += ']'; } return s + "]"; }
struct Cols {
	std::vector<std::array<int, 2> > vp, gv, ge; VI vg, vf; std::vector<VI> ve, ed, gd; std::vector<std::array<int, 3> > ev, en; std::vector<std::array<int, 6> > ep;
	std::string json() const { return "{\"vp\":" + js(vp) + ",\"vg\":" + ::js(vg) + ",\"vf\":" + ::js(vf) + ",\"ve\":" + ::js(ve) + ",\"ev\":" + js(ev) + ",\"ep\":" + js(ep) + ",\"en\":" + js(en) + ",\"ed\":" + ::js(ed) + ",\"gv\":" + js(gv) + ",\"ge\":" + js(ge) + ",\"gd\":" + ::js(gd) + "}"; }
};
template<class T> Cols columns(const Mesh<T, 2>& m) {
	std::unordered_map<const void*, int> vi, ei, gi; Cols c;
	for (size_t i = 0; i < m.vertices().size(); ++i) vi[m.vertices()[i]] = i;
	for (size_t i = 0; i < m.elements().size(); ++i) ei[m.elements()[i]] = i;
	for (size_t i = 0; i < m.edges().size(); ++i) gi[m.edges()[i]] = i;
	auto id = [](const std::unordered_map<const void*, int>& t, const void* p) { if (!p) return -1; auto it = t.find(p); return it == t.end() ? -2 : it->second; };
	for (auto* v : m.vertices()) { VI e; for (auto* x : v->Elements) e.push_back(id(ei, x)); c.ve.push_back(e); c.vp.push_back({whole(v->Vertex[0]), whole(v->Vertex[1])}); c.vg.push_back(v->GlobalIndex > 2000000000 ? BAD : (int)v->GlobalIndex); c.vf.push_back((int)v->Flags); }
	for (auto* e : m.elements()) { c.ev.push_back({id(vi, e->Vertices[0]), id(vi, e->Vertices[1]), id(vi, e->Vertices[2])}); c.en.push_back({id(gi, e->Neighbors[0]), id(gi, e->Neighbors[1]), id(gi, e->Neighbors[2])});
		std::array<int, 6> q; for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k) q[2 * j + k] = whole(e->Element[j][k]); c.ep.push_back(q);
		VI d; for (auto* x : e->DOFVertices) d.push_back(id(vi, x)); c.ed.push_back(d); }
	for (auto* g : m.edges()) { c.gv.push_back({id(vi, g->Vertices[0]), id(vi, g->Vertices[1])}); c.ge.push_back({id(ei, g->Elements[0]), id(ei, g->Elements[1])}); VI d; for (auto* x : g->DOFVertices) d.push_back(id(vi, x)); c.gd.push_back(d); }
	return c;
}
// a strip, a grid or (n < 0) two fans around vertices with many elements, numbered in order or at random
static Big big(Rng& g, bool strip, bool mixed, int n) {
	Big b;
	if (n < 0) { n = -n; b.p.push_back({0, 0}); b.p.push_back({2, 4 * n}); for (int i = 0; i <= n; ++i) b.p.push_back({2 * i, 2 * n});
		for (int i = 0; i < n; ++i) { b.t.push_back({0, 3 + i, 2 + i}); b.t.push_back({1, 2 + i, 3 + i}); } if (strip) { b.t.push_back({0, 2, 1}); b.t.push_back({0, 1, 2 + n}); } }
	else if (strip) { for (int k = 0; k < n; ++k) b.p.push_back({2 * (k / 2), 2 * (k % 2)}); for (int k = 0; k + 2 < n; ++k) b.t.push_back({k, k + 1, k + 2}); }
	else { int nx = g.in(200, 280), ny = n / (nx + 1); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) b.p.push_back({2 * i - 100, 2 * j});
		auto at = [&](int i, int j) { return j * (nx + 1) + i; }; for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { if (g.coin()) { b.t.push_back({at(i, j), at(i + 1, j), at(i + 1, j + 1)}); b.t.push_back({at(i, j), at(i + 1, j + 1), at(i, j + 1)}); } else { b.t.push_back({at(i, j), at(i + 1, j), at(i, j + 1)}); b.t.push_back({at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)}); } } }
	b.f.assign(b.p.size(), 0);
	if (mixed) { const int m = b.p.size(); VI nm(m); std::iota(nm.begin(), nm.end(), 0); for (int i = m - 1; i > 0; --i) std::swap(nm[i], nm[g.below(i + 1)]);
		auto p = b.p; for (int i = 0; i < m; ++i) b.p[nm[i]] = p[i]; for (auto& t : b.t) { for (int& x : t) x = nm[x]; std::rotate(t.begin(), t.begin() + g.below(3), t.end()); if (g.coin()) std::swap(t[0], t[1]); }
		for (int i = (int)b.t.size() - 1; i > 0; --i) std::swap(b.t[i], b.t[g.below(i + 1)]); for (int& x : b.f) x = g.below(4); }
	return b;
}
static void give(const Big& b) { Ev("reset").out(); Ev("give").raw("p", js(b.p)).raw("t", js(b.t)).f("f", b.f).out(); }
template<class T> void build(Mesh<T, 2>& m, const Big& b) {
	for (size_t i = 0; i < b.p.size(); ++i) { auto* v = new MeshVertex<T, 2>(FixedVector<T, 2>{(T)b.p[i][0], (T)b.p[i][1]}); v->Flags = b.f[i]; m.addVertex(v); }
	for (auto& t : b.t) { auto* e = new MeshElement<T, 2>(); for (int j = 0; j < 3; ++j) e->Vertices[j] = m.vertex(t[j]); m.addElement(e); }
}
// turn: the order of an edge's two elements is free
template<class T> void setup(Rng& g, Mesh<T, 2>& m, const Big& b, bool turn) { give(b); build(m, b); std::string x = guarded([&] { m.setupNeighbors(); }); if (turn) for (auto* k : m.edges()) if (k->Elements[0] && k->Elements[1] && g.coin()) std::swap(k->Elements[0], k->Elements[1]); Ev("setup").f("exc", x).raw("d", columns(m).json()).out(); }
template<class T> void bound(Mesh<T, 2>& m) { Cols a = columns(m); m.setupBoundaries(); Cols c = columns(m); VI f = c.vf; c.vf = a.vf; Ev("bound").f("vf", f).f("rest", a.json() == c.json()).out(); }
template<class T> void prep(Mesh<T, 2>& m, int order) { m.prepare(); std::string x = guarded([&] { if (order == 2) PolyShapeFunction<T, 2, 2>::prepareMesh(m); else PolyShapeFunction<T, 2, 1>::prepareMesh(m); }); Ev("prep").f("order", order).f("exc", x).raw("d", columns(m).json()).out(); }
template<class T> void check(Mesh<T, 2>& m, const char* k) { std::string x = guarded([&] { m.validate(); }); Ev("valid").f("k", k).f("exc", x).out(); }
template<class T> void flaws(Rng& g, Mesh<T, 2>& m, bool unlinked, bool fan) { // in a fan the slopes are not dyadic: only exactly coinciding corners are flat without rounding
	const int nv = m.vertices().size(), ne = m.elements().size(); check(m, "none");
	for (int r = 0; r < 3; ++r) {
		const int at = r == 0 ? nv - 1 : r == 1 ? std::min(nv - 1, 65536) : g.below(nv), ae = r == 0 ? ne - 1 : r == 1 ? std::min(ne - 1, 65536) : g.below(ne), j = g.below(3);
		auto* v = m.vertex(at); auto* e = m.element(ae);
		for (int d : {1, 256, 65536, -65536, 1 << 20}) if ((int)v->GlobalIndex + d >= 0) { v->GlobalIndex += d; check(m, "number"); v->GlobalIndex -= d; }
		{ auto keep = v->Elements; v->Elements.clear(); check(m, "isolated"); v->Elements = keep; }
		{ for (auto* q : m.elements()) { bool has = false; for (auto* w : q->Vertices) has = has || w == v; for (auto* w : q->DOFVertices) has = has || w == v; if (!has) { v->Elements.push_back(q); check(m, "foreign"); v->Elements.pop_back(); break; } } }
		{ e->Element[j][1] += (T)1; check(m, "moved"); e->Element[j][1] -= (T)1; }
		{ auto* a = e->Vertices[0]; auto* b = e->Vertices[1]; auto* x = e->Vertices[2]; auto keep = x->Vertex; x->Vertex = (a->Vertex + b->Vertex) * (T)0.5; if (fan || g.coin()) x->Vertex = a->Vertex;
			auto follow = [&] { for (auto* q : x->Elements) { for (int k = 0; k < 3; ++k) q->Element[k] = q->Vertices[k]->Vertex; q->Element.prepare(); } }; if (m.element(0)->DOFVertices.size() <= 3) { follow(); check(m, "flat"); x->Vertex = keep; follow(); } else x->Vertex = keep; }
		if (unlinked) { auto* k = e->Neighbors[j]; e->Neighbors[j] = nullptr; check(m, "unlinked"); e->Neighbors[j] = k; }
		check(m, "none");
	}
	m.addVertex(new MeshVertex<T, 2>(FixedVector<T, 2>{(T)1, (T)1})); check(m, "isolated");
}
template<class T> void grid(Rng& g, int nx, int ny) {
	Ev("reset").out(); const int ox = g.in(-9, 9), oy = g.in(-9, 9); std::string d = "{}", x, val = "none"; VI vol;
	x = guarded([&] { Mesh<T, 2> m = HyperCube<T, 2>::generate(FixedVector<Dimension, 2>{(Dimension)nx, (Dimension)ny}, FixedVector<T, 2>{(T)(2 * nx), (T)(2 * ny)}, FixedVector<T, 2>{(T)ox, (T)oy});
		d = columns(m).json(); m.prepare(); for (auto* e : m.elements()) vol.push_back(whole(std::round((double)e->Element.volume() * 4096) / 4096)); val = guarded([&] { m.validate(); }); });
	Ev("grid").f("n", VI{nx, ny}).f("off", VI{ox, oy}).f("exc", x).raw("d", d).f("vol", vol).f("valid", val).out();
}
template<class T> void load(Rng& g, const Big& b) {
	give(b); const int base = g.below(2); std::string n = std::to_string(b.p.size()) + " 2 0 0\n", e = std::to_string(b.t.size()) + " 3 0\n";
	for (size_t i = 0; i < b.p.size(); ++i) n += std::to_string(base + i) + " " + std::to_string(b.p[i][0]) + " " + std::to_string(b.p[i][1]) + "\n";
	for (size_t i = 0; i < b.t.size(); ++i) e += std::to_string(base + i) + " " + std::to_string(base + b.t[i][0]) + " " + std::to_string(base + b.t[i][1]) + " " + std::to_string(base + b.t[i][2]) + "\n";
	std::string d = "{}", x = guarded([&] { Mesh<T, 2> m = MeshTriangleLoader<T>::loadString(n, e); d = columns(m).json(); }); Ev("load").f("exc", x).raw("d", d).out();
}
template<class T> void obj(Rng& g, const Big& b) {
	give(b); std::string n; for (auto& p : b.p) n += "v " + std::to_string(p[0]) + " " + std::to_string(p[1]) + " 0\n";
	const bool neg = g.coin(); for (auto& t : b.t) { n += "f"; for (int x : t) n += " " + std::to_string(neg ? x - (int)b.p.size() : x + 1); n += "\n"; }
	std::string d = "{}"; VI u; std::string x = guarded([&] { Mesh<T, 2> m = MeshObjLoader<T>::loadString(n); Cols c = columns(m); d = c.json(); u.assign(c.vp.size(), 0); int i = 0; for (auto& t : c.ev) for (int k : t) { ++i; if (k >= 0 && !u[k]) u[k] = i; } });
	Ev("used").f("exc", x).raw("d", d).f("u", u).out();
}
// a text with whole numbers between tags: the arrays by name
template<class T> void vtk(const Mesh<T, 2>& m, int order) {
	DynamicVector<double> pd(m.vertices().size()), cd(m.elements().size()); for (size_t i = 0; i < pd.size(); ++i) pd[i] = (i + 1) % 977; for (size_t i = 0; i < cd.size(); ++i) cd[i] = (i + 1) % 1009;
	std::map<std::string, DynamicVector<double>*> P{{"p", &pd}}, C{{"c", &cd}};
	VTKExporter<T, 2>::write("big.vtu", m, P, C, VOO_ElementDeterminant | VOO_VertexBoundaryLabel | VOO_VertexImplicitLabel | (order == 2 ? VOO_IsQuadratic : 0));
	std::ifstream f("big.vtu", std::ios::binary); std::stringstream b; b << f.rdbuf(); const std::string s = b.str(); bool wf = true; std::string np, nc, arrays, sec; std::map<std::string, int> seen;
	auto attr = [](const std::string& tag, const std::string& k) { size_t i = tag.find(" " + k + "=\""); if (i == std::string::npos) return std::string(); i += k.size() + 3; return tag.substr(i, tag.find('"', i) - i); };
	for (size_t i = s.find('<'); i != std::string::npos;) {
		size_t e = s.find('>', i); if (e == std::string::npos) { wf = false; break; } const std::string tag = s.substr(i + 1, e - i - 1); size_t nx = s.find('<', e); const char* q = s.c_str() + e + 1; const char* end = s.c_str() + (nx == std::string::npos ? s.size() : nx);
		const std::string name = tag.substr(0, tag.find(' ')); if (name == "Piece") { np = attr(tag, "NumberOfPoints"); nc = attr(tag, "NumberOfCells"); } if (name == "Points") sec = name; 
		if (name == "DataArray") { std::string an = attr(tag, "Name"); if (an.empty()) an = sec; if (seen[an]++) wf = false; std::string v = "["; bool first = true;
			while (q < end) { while (q < end && isspace((unsigned char)*q)) ++q; if (q >= end) break; char* z; double x = strtod(q, &z); if (z == q || z > end || (z < end && !isspace((unsigned char)*z))) { wf = false; break; } if (!first) v += ','; first = false; v += std::to_string(whole(x)); q = z; }
			arrays += (arrays.empty() ? "" : ",") + ::js(an) + ":" + v + "]"; }
		else for (; q < end; ++q) if (!isspace((unsigned char)*q)) wf = false;
		i = nx; }
	unlink("big.vtu");
	Ev("vtk").f("order", order).f("wf", wf).f("np", np).f("nc", nc).raw("a", "{" + arrays + "}").out();
}
template<class T> void one(Rng& g, const std::string& mode, bool strip, bool mixed, int n) {
	if (mode == "C19") { int nx = strip ? (g.coin() ? n / 2 : 1) : g.in(200, 280); int ny = n / (nx + 1); grid<T>(g, nx, std::max(1, ny)); return; }
	Big b = big(g, strip, mixed, n);
	if (mode == "C24") { load<T>(g, b); return; }
	if (mode == "C25") { obj<T>(g, b); return; }
	Mesh<T, 2> m; setup(g, m, b, mode == "C22" && g.coin(2, 3)); if (mode != "C16" && mode != "C26" && g.coin()) ; else bound(m);
	if (mode == "C16") return;
	if (mode == "C18") m.prepare();
	int order = mode == "C22" ? 2 : 1 + g.below(2);
	if (mode != "C18") prep(m, order); else flaws(g, m, true, n < 0);
	if (mode == "C26") vtk(m, order);
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 77);
	int n = 0;
#define MINE if (n++ % o.shards == o.shard)
	for (int k = 0; k < (o.thorough ? 6 : 1); ++k) {
		const int v = (o.mode == "C22" ? 30000 : 66000) + g.below(4000);
		MINE one<double>(g, o.mode, true, false, v);
		MINE one<double>(g, o.mode, false, true, v);
		MINE one<double>(g, o.mode, true, true, o.mode == "C22" ? v : 66000 + g.below(1000));
		MINE one<float>(g, o.mode, false, false, 300 + g.below(100));
		MINE one<double>(g, o.mode, false, true, 1500 + g.below(4000));
		if (o.mode != "C19") { MINE one<double>(g, o.mode, true, true, -270 - g.below(75)); MINE one<double>(g, o.mode, false, g.coin(), -256 - g.below(60)); MINE { int f = -270 - g.below(75); if (o.mode == "C26") one<double>(g, o.mode, true, false, f); else one<float>(g, o.mode, true, false, f); } }
	}
	fclose(g_out);
	return 0;
}
