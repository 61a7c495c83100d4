// Complete description of a triangle mesh, and generators of triangle complexes.
#pragma once
#include "mat.h"
#include "mesh/Mesh.h"

template<class T> std::string dump(const Mesh<T, 2>& m) {
	std::map<const void*, int> vi, ei, gi;
	for (size_t i = 0; i < m.vertices().size(); ++i) vi[m.vertices()[i]] = i;
	for (size_t i = 0; i < m.elements().size(); ++i) ei[m.elements()[i]] = i;
	for (size_t i = 0; i < m.edges().size(); ++i) gi[m.edges()[i]] = i;
	auto id = [](const std::map<const void*, int>& t, const void* p) { if (!p) return -1; auto it = t.find(p); return it == t.end() ? -2 : it->second; };
	auto pt = [](const FixedVector<T, 2>& v) { return "[" + js(num(v[0])) + "," + js(num(v[1])) + "]"; };
	std::string s = "{\"vs\":[";
	for (size_t i = 0; i < m.vertices().size(); ++i) { auto* v = m.vertices()[i]; std::vector<int> e; for (auto* x : v->Elements) e.push_back(id(ei, x));
		s += std::string(i ? "," : "") + "{\"g\":" + js((unsigned long)v->GlobalIndex) + ",\"f\":" + js((unsigned long)v->Flags) + ",\"e\":" + js(e) + ",\"p\":" + pt(v->Vertex) + "}"; }
	s += "],\"es\":[";
	for (size_t i = 0; i < m.elements().size(); ++i) { auto* e = m.elements()[i]; std::vector<int> v, n, d; std::string p;
		for (int j = 0; j < 3; ++j) { v.push_back(id(vi, e->Vertices[j])); n.push_back(id(gi, e->Neighbors[j])); p += std::string(j ? "," : "") + pt(e->Element[j]); }
		for (auto* x : e->DOFVertices) d.push_back(id(vi, x));
		s += std::string(i ? "," : "") + "{\"v\":" + js(v) + ",\"n\":" + js(n) + ",\"d\":" + js(d) + ",\"p\":[" + p + "]}"; }
	s += "],\"gs\":[";
	for (size_t i = 0; i < m.edges().size(); ++i) { auto* g = m.edges()[i]; std::vector<int> v, e, d;
		for (int j = 0; j < 2; ++j) { v.push_back(id(vi, g->Vertices[j])); e.push_back(id(ei, g->Elements[j])); }
		for (auto* x : g->DOFVertices) d.push_back(id(vi, x));
		s += std::string(i ? "," : "") + "{\"v\":" + js(v) + ",\"e\":" + js(e) + ",\"d\":" + js(d) + "}"; }
	return s + "]}";
}

// ---------------------------------------------------------------- complexes
struct Cx { std::vector<std::array<Num, 2> > p; std::vector<int> f; std::vector<std::array<int, 3> > t; };
static void shuffle(Rng& g, Cx& c, bool vertices = true) {
	const int n = c.p.size();
	if (vertices) { std::vector<int> nm(n); std::iota(nm.begin(), nm.end(), 0); for (int i = n - 1; i > 0; --i) std::swap(nm[i], nm[g.below(i + 1)]);
		Cx d = c; for (int i = 0; i < n; ++i) { d.p[nm[i]] = c.p[i]; d.f[nm[i]] = c.f[i]; } for (auto& t : d.t) for (int& x : t) x = nm[x]; c = d; }
	for (auto& t : c.t) { std::rotate(t.begin(), t.begin() + g.below(3), t.end()); if (g.coin()) std::swap(t[0], t[1]); }
	for (int i = (int)c.t.size() - 1; i > 0; --i) std::swap(c.t[i], c.t[g.below(i + 1)]);
}
static void dropUnused(Cx& c) {
	std::vector<int> nm(c.p.size(), -1); Cx d; for (auto& t : c.t) for (int x : t) nm[x] = 0;
	for (size_t i = 0; i < c.p.size(); ++i) if (nm[i] == 0) { nm[i] = d.p.size(); d.p.push_back(c.p[i]); d.f.push_back(c.f[i]); }
	d.t = c.t; for (auto& t : d.t) for (int& x : t) x = nm[x]; c = d;
}
static Num ev(ll x) { return Num{2 * x, 0, 1}; }      // even coordinates: exact midpoints
// geometric: part of a sheared grid with random diagonals, or a fan around a vertex
static Cx conforming(Rng& g) {
	Cx c; int nx = g.in(1, 4), ny = g.in(1, 3); int a = g.in(1, 3), b = g.in(-1, 1), e = g.in(-1, 1), d = g.in(1, 3); if (a * d - b * e == 0) b = 0; if (g.coin(1, 3)) { a = -a; e = -e; } int ox = g.in(-5, 5), oy = g.in(-5, 5);
	if (g.coin(1, 4)) { // fan
		static const int px[] = {4, 3, 0, -3, -4, -3, 0, 3}, py[] = {0, 3, 4, 3, 0, -3, -4, -3};
		int k = g.in(2, 8); bool closed = k > 4 && g.coin(); c.p.push_back({ev(ox), ev(oy)}); for (int i = 0; i < k; ++i) c.p.push_back({ev(ox + px[8 - k + i]), ev(oy + py[8 - k + i])});
		if (closed && k == 8) { for (int i = 0; i < 8; ++i) c.t.push_back({0, 1 + i, 1 + (i + 1) % 8}); } else for (int i = 0; i + 1 < k; ++i) c.t.push_back({0, 1 + i, 2 + i});
	} else {
		for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) c.p.push_back({ev(ox + a * i + b * j), ev(oy + e * i + d * j)});
		auto at = [&](int i, int j) { return i * (ny + 1) + j; };
		for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
			std::array<int, 3> t1, t2;
			if (g.coin()) { t1 = {at(i, j), at(i + 1, j), at(i + 1, j + 1)}; t2 = {at(i, j), at(i + 1, j + 1), at(i, j + 1)}; }
			else { t1 = {at(i, j), at(i + 1, j), at(i, j + 1)}; t2 = {at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)}; }
			int k = g.below(8); if (k != 0 || c.t.empty()) c.t.push_back(t1); if (k != 1) c.t.push_back(t2);
		}
	}
	c.f.assign(c.p.size(), 0); dropUnused(c); shuffle(g, c); return c;
}
// combinatorial: any triangles
static Cx abstractCx(Rng& g) {
	Cx c; int n = g.in(3, 9), k = g.in(1, 2 * n); int lim = g.coin(1, 3) ? 3 : 2;
	for (int i = 0; i < n; ++i) { c.p.push_back({Num{g.in(-20, 20), 0, 1}, Num{g.in(-20, 20), 0, 1}}); c.f.push_back(g.below(4)); }
	std::map<std::pair<int, int>, int> cnt;
	for (int q = 0; q < k; ++q) { int x = g.below(n), y = g.below(n), z = g.below(n); if (x == y || y == z || x == z) continue;
		std::array<int, 3> t = {x, y, z}; bool ok = true; for (int i = 0; i < 3; ++i) if (cnt[std::minmax(t[i], t[(i + 1) % 3])] >= lim) ok = false;
		if (!ok && !g.coin(1, 12)) continue;
		for (int i = 0; i < 3; ++i) cnt[std::minmax(t[i], t[(i + 1) % 3])]++;
		c.t.push_back(t); }
	return c;
}
template<class T> FixedVector<T, 2> pos(const std::array<Num, 2>& p) { return FixedVector<T, 2>{toT<T>(p[0]), toT<T>(p[1])}; }
