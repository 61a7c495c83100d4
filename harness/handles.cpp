// Histories of mesh handles (C17): who sees what, and what is still allocated.
#include "mat.h"
#include <fstream>
#include <new>
#include "mesh/Mesh.h"
#include "sf/PolyShapeFunction.h"
TRACE_MAIN_GLOBALS

// ---------------------------------------------------------------- allocation bookkeeping (no allocation in here)
static bool g_track = false; static long g_blocks = 0;
struct Slot { void* p; int kind; }; static Slot g_obj[4096]; static int g_n = 0; static long g_live[3];
static void gone(void* p) { for (int i = 0; i < g_n; ++i) if (g_obj[i].p == p) { g_live[g_obj[i].kind]--; g_obj[i] = g_obj[--g_n]; return; } }
static void known(void* p, int kind) { for (int i = 0; i < g_n; ++i) if (g_obj[i].p == p) return; if (g_n < 4096) { g_obj[g_n++] = Slot{p, kind}; g_live[kind]++; } }
void* operator new(size_t n) { if (g_track) ++g_blocks; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (g_track) { --g_blocks; gone(p); } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
struct Track { Track() { g_track = true; } ~Track() { g_track = false; } };

template<class T> struct World {
	typedef Mesh<T, 2> M;
	typename std::aligned_storage<sizeof(M), alignof(M)>::type mem[4];
	int h[4] = {0, 0, 0, 0};        // 0 none, -1 moved from, 1 usable
	int tags = 0;
	M& at(int i) { return *reinterpret_cast<M*>(&mem[i]); }

	std::string seen() {
		std::string s = "{\"h\":["; const void* id[4] = {0, 0, 0, 0};
		for (int i = 1; i <= 3; ++i) {
			if (h[i] == 1) {
				const M& m = at(i); bool ok = true;
				for (auto* v : m.vertices()) known(v, 0); for (auto* e : m.elements()) known(e, 1); for (auto* e : m.edges()) known(e, 2);
				for (size_t k = 0; k < m.vertices().size(); ++k) ok = ok && m.vertex(k) == m.vertices()[k] && m.vertex(k)->GlobalIndex == k && !m.vertex(k)->Elements.empty();
				for (size_t k = 0; k < m.elements().size(); ++k) { auto* e = m.element(k); for (int j = 0; j < 3; ++j) ok = ok && e->Vertices[j] == m.vertex(k + j) && e->Element[j][0] == m.vertex(k + j)->Vertex[0]; }
				for (size_t k = 0; k < m.edges().size(); ++k) ok = ok && m.edge(k)->Elements[0] && m.edge(k)->Vertices[0] && m.edge(k)->Vertices[1];
				if (m.vertices().size()) id[i] = m.vertex(0);
				std::vector<long> r = {(long)m.vertices().size(), (long)m.elements().size(), (long)m.edges().size(), m.vertices().empty() ? 0 : (long)m.vertex(0)->Vertex[0], ok};
				s += js(r);
			} else s += h[i] == 0 ? "[-2]" : "[-1]";
			s += i < 3 ? "," : "],\"same\":[";
		}
		for (int i = 1; i <= 3; ++i) { std::vector<bool> r; for (int j = 1; j <= 3; ++j) r.push_back(id[i] == id[j]); s += js(r) + (i < 3 ? "," : "]"); }
		return s + ",\"live\":" + js(std::vector<long>{g_live[0], g_live[1], g_live[2]}) + ",\"blocks\":" + js(g_blocks) + "}";
	}
	static M pass(M m) { return m; }
	// false: not possible now
	bool op(const std::string& o, int i, int j) {
		if (o == "new") { if (h[i]) return false; { Track t; new (&mem[i]) M(); } h[i] = 1; }
		else if (o == "copyc") { if (h[i] || h[j] != 1) return false; { Track t; new (&mem[i]) M(at(j)); } h[i] = 1; }
		else if (o == "movec") { if (h[i] || h[j] != 1) return false; { Track t; new (&mem[i]) M(std::move(at(j))); } h[i] = 1; h[j] = -1; }
		else if (o == "copya") { if (!h[i] || !(h[j] == 1 || (i == j && h[j]))) return false; { Track t; at(i) = (const M&)at(j); } h[i] = h[j]; }
		else if (o == "movea") { if (!h[i] || !(h[j] == 1 || (i == j && h[j]))) return false; { Track t; at(i) = std::move(at(j)); } if (i != j) { h[i] = 1; h[j] = -1; } }
		else if (o == "swap") { if (h[i] != 1 || h[j] != 1) return false; Track t; std::swap(at(i), at(j)); }
		else if (o == "through") { if (h[i] != 1) return false; Track t; if (j == 1) { M c = pass(at(i)); at(i) = c; } else if (j == 2) { std::vector<M> v; for (int k = 0; k < 5; ++k) v.push_back(at(i)); v.erase(v.begin() + 1); at(i) = std::move(v.back()); } else if (j > 3) { std::vector<M> v; const int n = j == 4 ? 300 : 66000; for (int k = 0; k < n; ++k) v.push_back(at(i)); v.resize(n / 2, at(i)); v.insert(v.begin() + 7, M(v[3])); at(i) = v.back(); } else at(i) = pass(at(i)); }
		else if (o == "destroy") { if (!h[i]) return false; { Track t; at(i).~M(); } h[i] = 0; }
		else if (o == "clear") { if (h[i] != 1) return false; Track t; at(i).clear(); }
		else if (o == "add") {
			if (h[i] != 1) return false; M& m = at(i); if (m.elements().size() && !m.element(0)->DOFVertices.empty()) return false;
			int tag = 0; const size_t n = m.vertices().size();
			{ Track t;
				if (n == 0) { tag = 100 * ++tags; if (tags % 2) m.reserveVertices(3); }
				T base = n ? m.vertex(0)->Vertex[0] : (T)tag;
				for (size_t k = n; k < (n ? n + 1 : 3); ++k) m.addVertex(new MeshVertex<T, 2>(FixedVector<T, 2>{base + (T)k, (T)(k % 2)}));
				auto* e = new MeshElement<T, 2>(); const size_t f = m.elements().size(); for (int k = 0; k < 3; ++k) e->Vertices[k] = m.vertex(f + k); m.addElement(e); }
			Ev("add").f("i", i).f("tag", tag).raw("s", seen()).out(); return true;
		}
		else if (o == "setup") { if (h[i] != 1) return false; M& m = at(i); if (m.elements().empty() || !m.element(0)->DOFVertices.empty()) return false; Track t; m.setupNeighbors(); m.prepare(); m.setupBoundaries(); }
		else if (o == "prep") { if (h[i] != 1) return false; M& m = at(i); if (m.elements().empty() || !m.element(0)->DOFVertices.empty() || m.edges().size() != 2 * m.elements().size() + 1) return false; Track t; PolyShapeFunction<T, 2, 2>::prepareMesh(m); }
		else return false;
		Ev(o.c_str()).f("i", i).f("j", j).raw("s", seen()).out();
		return true;
	}
	void end() { for (int i = 1; i <= 3; ++i) if (h[i]) op("destroy", i, 0); }
};
static void begin() { g_blocks = 0; g_n = 0; g_live[0] = g_live[1] = g_live[2] = 0; Ev("reset").out(); }

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 17);
	if (!o.in.empty()) {
		std::ifstream f(o.in); std::string line; int q = 0;
		while (std::getline(f, line)) {
			++q; if (q % o.shards != o.shard) continue; if (!o.thorough && q / o.shards % 9 != (int)(o.seed % 9)) continue;
			Cmd c(line); c.word(); int n = c.i();
			begin(); World<double> w;
			for (int k = 0; k < n; ++k) { c.i(); std::string name = c.word(); int i = c.i(), j = c.i(); w.op(name, i, j); }
			w.end();
		}
	}
	static const char* ops[] = {"new", "copyc", "movec", "copya", "movea", "swap", "through", "destroy", "clear", "add", "add", "setup", "prep", "copya", "movea", "copyc"};
	for (int k = 0; k < (o.thorough ? 400 : 40); ++k) {
		begin(); World<double> a; World<float> b; const bool flt = k % 4 == 3;
		for (int s = 0, n = g.in(5, 60); s < n; ) { const char* x = ops[g.below(16)]; int i = g.in(1, 3), j = g.in(1, 3); if (!strcmp(x, "through") && g.coin()) j = 4 + (k % 5 == 0 && !flt); if (flt ? b.op(x, i, j) : a.op(x, i, j)) ++s; else if (g.coin(1, 20)) ++s; }
		a.end(); b.end();
	}
	fclose(g_out);
	return 0;
}
