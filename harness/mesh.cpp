// Meshes: linking, validation, the grid generator and preparation for shape functions (C16, C18, C19, C22).
#include "meshdump.h"
#include <fstream>
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
TRACE_MAIN_GLOBALS

template<class T> void give(Mesh<T, 2>& m, const Cx& c, size_t v0, size_t v1, size_t t0, size_t t1) {
	std::vector<int> f; std::string p = "["; std::vector<std::vector<int> > t;
	if (v1 > v0) m.reserveVertices(v1);
	for (size_t i = v0; i < v1; ++i) { auto* v = new MeshVertex<T, 2>(pos<T>(c.p[i])); v->Flags = c.f[i]; m.addVertex(v); f.push_back(c.f[i]); p += std::string(i > v0 ? "," : "") + "[" + js(c.p[i][0]) + "," + js(c.p[i][1]) + "]"; }
	for (size_t i = t0; i < t1; ++i) { auto* e = new MeshElement<T, 2>(); for (int j = 0; j < 3; ++j) e->Vertices[j] = m.vertex(c.t[i][j]); m.addElement(e); t.push_back({c.t[i][0], c.t[i][1], c.t[i][2]}); }
	Ev("give").f("f", f).raw("p", p + "]").f("t", t).out();
}
template<class T> bool setup(Mesh<T, 2>& m) { std::string x = guarded([&] { m.setupNeighbors(); }); Ev e("setup"); e.f("exc", x); if (x == "ok") e.raw("d", dump(m)); e.out(); return x == "ok"; }
template<class T> void bound(Mesh<T, 2>& m) { m.setupBoundaries(); Ev("bound").raw("d", dump(m)).out(); }

// ---------------------------------------------------------------- C16
template<class T> void link(Rng& g, const Cx& c, int first) {
	Ev("reset").out();
	Mesh<T, 2> m;
	const size_t n = c.p.size(), k = c.t.size(), f = std::min<size_t>(first, k);
	if (first > 0) {
		int top = 0; for (size_t i = 0; i < f; ++i) for (int x : c.t[i]) top = std::max(top, x + 1);
		size_t v = g.coin() ? n : top;
		give(m, c, 0, v, 0, f); if (!setup(m)) return;
		if (g.coin(1, 4)) bound(m);
		give(m, c, v, n, f, k);
	} else give(m, c, 0, n, 0, k);
	if (!setup(m)) return;
	bound(m);
	if (g.coin(1, 3)) { setup(m); bound(m); }
}
// ---------------------------------------------------------------- C22
// the elements of a linked mesh in another order
template<class T> void reorder(Rng& g, Mesh<T, 2>& m) {
	auto old = m.elements(); const int n = old.size(); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
	for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
	for (int i = 0; i < n; ++i) m.setElement(i, old[p[i]]);
	Ev("reorder").f("p", p).raw("d", dump(m)).out();
}
template<class T, int Order> void prepareSf(Rng& g) {
	Ev("reset").out();
	Cx c = conforming(g); Mesh<T, 2> m;
	if (g.coin(1, 4)) { int h = g.below(c.t.size()); give(m, c, 0, c.p.size(), 0, h); if (!setup(m)) return; if (g.coin(1, 3)) bound(m); give(m, c, 0, 0, h, c.t.size()); }   // linked in two steps
	else give(m, c, 0, c.p.size(), 0, c.t.size());
	if (!setup(m)) return;
	if (g.coin(1, 3)) reorder(g, m);
	if (g.coin(2, 3)) bound(m);
	if (g.coin(1, 4)) reorder(g, m);
	m.prepare();
	std::string x = guarded([&] { PolyShapeFunction<T, 2, Order>::prepareMesh(m); }), y = guarded([&] { m.validate(); });
	Ev("pmesh").f("order", Order).f("exc", x).f("valid", y).raw("d", dump(m)).out();
}
// ---------------------------------------------------------------- C18
template<class T> void check(Mesh<T, 2>& m) { std::string d = dump(m); std::string x = guarded([&] { m.validate(); }); Ev("validate").raw("d", d).f("exc", x).raw("after", dump(m)).out(); }
template<class T> void damage(Rng& g, int kind, int prep, int round) {
	Cx c = conforming(g); if (kind == 12) c = Cx();
	Mesh<T, 2> m; for (size_t i = 0; i < c.p.size(); ++i) m.addVertex(new MeshVertex<T, 2>(pos<T>(c.p[i])));
	for (auto& t : c.t) { auto* e = new MeshElement<T, 2>(); for (int j = 0; j < 3; ++j) e->Vertices[j] = m.vertex(t[j]); m.addElement(e); }
	m.setupNeighbors(); if (g.coin()) m.setupBoundaries(); m.prepare();
	if (prep == 1) PolyShapeFunction<T, 2, 1>::prepareMesh(m); else if (prep == 2) PolyShapeFunction<T, 2, 2>::prepareMesh(m);
	check(m);
	if (c.p.empty()) return;
	const int nv = m.vertices().size(), ne = m.elements().size();
	auto* v = m.vertex(g.below(nv)); auto* e = m.element(g.below(ne)); const int j = g.below(3);
	switch (kind) {
	case 0: break;
	case 1: { const int o = v->GlobalIndex, w[] = {o + 1, o + nv, o - 1, 0, nv, g.below(nv + 2)}; v->GlobalIndex = std::max(0, w[round % 6]); } break;
	case 2: { int a = g.below(nv), b = g.below(nv); auto* x = m.vertex(a); auto* y = m.vertex(b); m.setVertex(a, y); m.setVertex(b, x); check(m); m.setVertex(a, x); m.setVertex(b, y); } break;
	case 3: { auto keep = v->Elements; v->Elements.clear(); check(m); v->Elements = keep; } break;
	case 4: v->Elements.push_back(e); break;                       // maybe one that contains it already
	case 5: { auto keep = e->Vertices[j]; e->Vertices[j] = nullptr; auto& l = keep->Elements; auto kl = l; if (g.coin(2, 3) && prep == 0) l.erase(std::find(l.begin(), l.end(), e)); check(m); l = kl; e->Vertices[j] = keep; } break;
	case 6: { const T d = (T)(g.coin() ? 0.25 : -3); const int w = g.below(4); if (w != 1) e->Element[j][0] += d; if (w) e->Element[j][1] += w == 3 ? -d : d; } break;
	case 7: { const T d = (T)(g.coin() ? 0.5 : -1); const int w = g.below(4); if (w != 1) v->Vertex[0] += d; if (w) v->Vertex[1] += w == 3 ? -d : d; } break;
	case 8: { // all three points on a line, everywhere; other elements follow their vertices
		auto* a = e->Vertices[0]; auto* b = e->Vertices[1]; auto* x = e->Vertices[2]; const int s = g.in(-1, 3);
		for (int k = 0; k < 2; ++k) x->Vertex[k] = a->Vertex[k] + (b->Vertex[k] - a->Vertex[k]) * (T)s;
		for (auto* q : m.elements()) for (int k = 0; k < 3; ++k) q->Element[k] = q->Vertices[k]->Vertex; m.prepare(); } break;
	case 9: e->Neighbors[j] = nullptr; break;
	case 10: { auto* w = e->Vertices[j]; auto& l = w->Elements; l.erase(std::find(l.begin(), l.end(), e)); } break;     // lists one element less: allowed unless none is left
	case 11: { auto* q = m.element(g.below(ne)); std::swap(e->Neighbors[0], q->Neighbors[1]); } break;                  // all set: not looked at
	case 13: { v->GlobalIndex = nv + 3; e->Neighbors[j] = nullptr; } break;                                             // two faults
	case 14: { if (nv > 1) { auto* w = m.vertex((v->GlobalIndex + 1) % nv); std::swap(w->GlobalIndex, v->GlobalIndex); } } break;
	case 15: m.addVertex(new MeshVertex<T, 2>(FixedVector<T, 2>{(T)1, (T)1})); break;                                    // isolated
	case 17: { // the element's corners all there, but not at their vertices; or all of them shifted
		if (round % 3 == 0) std::swap(e->Element[j], e->Element[(j + 1) % 3]); else if (round % 3 == 1) { auto t = e->Element[0]; e->Element[0] = e->Element[1]; e->Element[1] = e->Element[2]; e->Element[2] = t; } else for (int k = 0; k < 3; ++k) { e->Element[k][0] += (T)1; e->Element[k][1] -= (T)(j == 2 ? 0 : 1); } } break;
	case 16: { for (auto* q : m.elements()) if (q != e) { auto* w = e->Vertices[j]; bool has = false; for (int k = 0; k < 3; ++k) has = has || q->Vertices[k] == w; if (!has) { w->Elements.insert(w->Elements.begin(), q); break; } } } break;
	}
	check(m);
}
// ---------------------------------------------------------------- C19
template<class T> void cube(int nx, int ny, Num sx, Num sy, Num ox, Num oy) {
	std::string d = dump(Mesh<T, 2>()), val = "none", x; std::string vol = "[";
	x = guarded([&] { Mesh<T, 2> m = HyperCube<T, 2>::generate(FixedVector<Dimension, 2>{(Dimension)nx, (Dimension)ny}, FixedVector<T, 2>{toT<T>(sx), toT<T>(sy)}, FixedVector<T, 2>{toT<T>(ox), toT<T>(oy)});
		d = dump(m); m.prepare(); for (size_t i = 0; i < m.elements().size(); ++i) vol += std::string(i ? "," : "") + js(num((T)m.element(i)->Element.volume())); val = guarded([&] { m.validate(); }); });
	Ev("cube").f("n", std::vector<int>{nx, ny}).f("size", NV{sx, sy}).f("off", NV{ox, oy}).f("exc", x).raw("d", d).raw("vol", vol + "]").f("valid", val).out();
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 16);
	const int K = o.thorough ? 10 : 1;
	if (o.mode == "C16") {
		if (!o.in.empty()) {
			std::ifstream f(o.in); std::string line; int q = 0;
			while (std::getline(f, line)) { if (q++ % o.shards != o.shard) continue; if (!o.thorough && q / o.shards % 2 != (int)(o.seed % 2)) continue;
				Cmd c(line); c.word(); Cx x; int nv = c.i(), first = c.i(), k = c.i(); for (int i = 0; i < nv; ++i) { x.p.push_back({Num{g.in(-9, 9), 0, 1}, Num{g.in(-9, 9), 0, 1}}); x.f.push_back(g.below(4)); }
				for (int i = 0; i < k; ++i) { auto t = c.ints(); x.t.push_back({t[0], t[1], t[2]}); }
				if (q & 8) link<float>(g, x, first); else link<double>(g, x, first); }
		}
		for (int k = 0; k < 50 * K; ++k) {
			Cx c = conforming(g); link<double>(g, c, g.coin(1, 3) ? g.below(c.t.size() + 1) : 0);
			shuffle(g, c); link<float>(g, c, 0);
			c = abstractCx(g); link<double>(g, c, g.coin(1, 3) ? g.below(c.t.size() + 1) : 0);
		}
	}
	if (o.mode == "C18") for (int k = 0; k < K; ++k) for (int kind = 0; kind < 18; ++kind) { Ev("reset").out(); for (int r = 0; r < 9; ++r) for (int prep = 0; prep < 3; ++prep) { if (r % 3 == 2) damage<float>(g, kind, prep, r + o.shard); else damage<double>(g, kind, prep, r + o.shard); } }
	if (o.mode == "C22") for (int k = 0; k < 70 * K; ++k) { prepareSf<double, 2>(g); if (k % 2) prepareSf<float, 2>(g); if (k % 3 == 0) prepareSf<double, 1>(g); }
	if (o.mode == "C19") {
		int n = 0; const int top = o.thorough ? 7 : 4; Ev("reset").out();
		static const Num ss[] = {{1, 0, 1}, {2, 0, 1}, {1, 0, 2}, {3, 0, 1}, {1, 0, 3}, {7, 0, 4}, {10, 0, 1}}, os[] = {{0, 0, 1}, {-1, 0, 1}, {5, 0, 2}, {3, 0, 1}, {-7, 0, 1}};
		for (int nx = 0; nx <= top; ++nx) for (int ny = 0; ny <= top; ++ny) if (n++ % o.shards == o.shard) for (int r = 0; r < 2; ++r) { cube<double>(nx, ny, ss[g.below(7)], ss[g.below(7)], os[g.below(5)], os[g.below(5)]); cube<float>(nx, ny, ss[g.below(2)], ss[g.below(2)], os[g.below(2)], os[g.below(2)]); }
		for (int k = 0; k < (o.thorough ? 40 : 6); ++k) cube<double>(g.in(1, 9), g.in(1, 4), ss[g.below(7)], ss[g.below(7)], os[g.below(5)], os[g.below(5)]);
		for (int k = 0; k < (o.thorough ? 40 : 6); ++k) cube<double>(g.in(1, 3), g.in(1, 9), ss[g.below(7)], ss[g.below(7)], os[g.below(5)], os[g.below(5)]);
	}
	fclose(g_out);
	return 0;
}
