// Texts for the OBJ loader (C25).
#include "meshdump.h"
#include "alloc.h"
#include <fstream>
#include <unistd.h>
#include "loader/MeshObjLoader.h"
TRACE_MAIN_GLOBALS

struct Item { char k; Num p[3]; std::vector<std::array<int, 3> > c; int m; };
typedef std::vector<Item> Text;
static std::string jt(const Text& t) {
	std::string s = "[";
	for (size_t i = 0; i < t.size(); ++i) { const Item& x = t[i]; s += std::string(i ? "," : "") + "{\"k\":\"" + x.k + "\"";
		if (x.k == 'v') s += ",\"p\":[" + js(x.p[0]) + "," + js(x.p[1]) + "," + js(x.p[2]) + "]";
		if (x.k == 'm') s += ",\"m\":" + js(x.m);
		if (x.k == 'f') { s += ",\"c\":["; for (size_t j = 0; j < x.c.size(); ++j) s += std::string(j ? "," : "") + "[" + js(x.c[j][0]) + "," + js(x.c[j][1]) + "," + js(x.c[j][2]) + "]"; s += "]"; }
		s += "}"; }
	return s + "]";
}
static Item mk(char k) { Item x; x.k = k; x.m = -1; x.p[0] = x.p[1] = x.p[2] = Num{0, 0, 1}; return x; }
static Item vert(Num a, Num b, Num c) { Item x = mk('v'); x.p[0] = a; x.p[1] = b; x.p[2] = c; return x; }
static Num nf(ll a, ll d) { ll q = gcdll(a, d); return a ? Num{a / q, 0, d / q} : Num{0, 0, 1}; }
static std::string number(Rng& g, const Num& n) {
	char b[64]; double v = (double)n.a / n.d;
	switch (g.below(6)) { case 0: snprintf(b, 64, "%+g", v); break; case 1: snprintf(b, 64, "%.6f", v); break; case 2: snprintf(b, 64, "%.8e", v); break; case 3: snprintf(b, 64, "%.5E", v); break; default: snprintf(b, 64, "%.10g", v); }
	std::string s = b; if (n.d == 1 && s.find_first_of(".eE") == std::string::npos && g.coin(1, 8)) s += ".";
	return s;
}
static std::string render(Rng& g, const Text& t, bool mtl) {
	static const char* sep[] = {" ", "  ", "\t", " \t "}; static const char* nl[] = {"\n", "\n", "\r\n"}; static const char* lead[] = {"", "", " ", "\t"};
	static const char* noise[] = {"", "# v 1 2 3", "s off", "s 1", "# f 1 2 3", "   ", "vp 1 2 3", "l 1 2", "#", "bevel on", "p 1"}; static const char* names[] = {"a", "cube", "part 2", "x_y", "Group.001"};
	const bool plain = g.coin(1, 4); const char* end = nl[g.below(3)]; std::string s;
	auto sp = [&] { return plain ? " " : sep[g.below(4)]; };
	if (mtl) s += std::string("mtllib m.mtl") + end; else if (g.coin(1, 8)) s += std::string("mtllib none.mtl") + end;
	for (size_t i = 0; i < t.size(); ++i) { const Item& x = t[i];
		while (!plain && g.coin(1, 10)) s += std::string(noise[g.below(11)]) + end;
		if (!plain) s += lead[g.below(4)];
		switch (x.k) {
		case 'v': s += "v"; for (int k = 0; k < 3; ++k) s += sp() + number(g, x.p[k]); if (!plain && g.coin(1, 12)) s += " 1"; break;
		case 't': s += "vt"; for (int k = 0; k < 2; ++k) s += sp() + number(g, nf(g.in(0, 8), 8)); break;
		case 'n': s += "vn"; for (int k = 0; k < 3; ++k) s += sp() + number(g, nf(g.in(-4, 4), 4)); break;
		case 's': s += g.coin() ? "g" : "o"; s += sp(); s += names[g.below(5)]; break;
		case 'm': s += "usemtl"; s += sp(); s += x.m == 0 ? "first" : x.m == 1 ? "second" : g.coin() ? "unknown" : "fir"; break;
		case 'f': s += "f"; for (auto& c : x.c) { s += sp() + std::to_string(c[0]); if (c[1]) { s += "/" + std::to_string(c[1]); if (c[2]) s += "/" + std::to_string(c[2]); } else if (c[2]) s += "//" + std::to_string(c[2]); } break;
		}
		if (!plain && g.coin(1, 8)) s += " ";
		if (i + 1 < t.size() || !g.coin(1, 4)) s += end;
	}
	return s;
}
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }

template<class T, int Y, int X> void load(Rng& g, const Text& t, bool missing = false) {
	bool mtl = false; for (auto& x : t) if (x.k == 'm' && x.m >= 0) mtl = true;
	const std::string a = render(g, t, mtl); const bool file = missing || g.coin(1, 3); const std::string fn = "t.obj";
	if (file) { spit(fn, a); if (missing) unlink(fn.c_str()); }
	std::string exc = "ok", d = "{}"; g_blocks = 0;
	{ Track tr;
		try { Mesh<T, 2> m = file ? MeshObjLoader<T, Y, X>::loadFile(fn) : MeshObjLoader<T, Y, X>::loadString(a); Untrack u; d = dump(m); }
		catch (const LoadObjErrorException&) { Untrack u; exc = "LoadObjError"; }
		catch (...) { Untrack u; std::exception_ptr p = std::current_exception(); exc = guarded([&] { std::rethrow_exception(p); }); } }
	Ev("obj").f("way", file ? "file" : "string").raw("t", jt(t)).f("missing", missing).f("x", X).f("y", Y).f("exc", exc).f("blocks", g_blocks).raw("d", d).out();
}
template<class T> void any(Rng& g, const Text& t) {
	switch (g.below(6)) { case 0: load<T, 0, 1>(g, t); break; case 1: load<T, 2, 0>(g, t); break; case 2: load<T, 2, 1>(g, t); break; default: load<T, 1, 0>(g, t); }
}
static Num coord(Rng& g) { return g.coin() ? Num{g.in(-40, 40), 0, 1} : nf(g.in(-99, 99), 4); }
// the faces of a complex over vertices that stand somewhere in the text
static Text random(Rng& g) {
	Text t; int nv = 0, nt = 0, nn = 0; bool known = g.coin(1, 3);
	const int shapes = g.in(1, 3); const bool tex = g.coin(1, 3);
	auto clutter = [&] {
		if (g.coin(1, 10)) { t.push_back(vert(coord(g), coord(g), coord(g))); ++nv; }
		if (g.coin(1, 10)) { t.push_back(mk('t')); ++nt; }
		if (g.coin(1, 10)) { t.push_back(mk('n')); ++nn; }
		if (g.coin(1, 16)) { Item m = mk('m'); m.m = known ? g.in(-1, 1) : -1; t.push_back(m); }
	};
	for (int s = 0; s < shapes; ++s) {
		if (s || g.coin()) t.push_back(mk('s'));
		Cx c = g.coin(2, 3) ? conforming(g) : abstractCx(g); if (c.t.size() > 8) c.t.resize(8); std::vector<int> at;
		for (auto& p : c.p) { while (g.coin(1, 10)) clutter(); at.push_back(nv++); t.push_back(vert(coord(g), coord(g), g.coin() ? coord(g) : Num{0, 0, 1})); (void)p; }
		if (tex) { int k = g.in(1, 4); for (int i = 0; i < k; ++i) { t.push_back(mk('t')); ++nt; } }
		auto corner = [&](int v) { std::array<int, 3> r = {{0, 0, 0}}; r[0] = g.coin(1, 3) ? at[v] - nv : at[v] + 1; if (tex && nt && g.coin(1, 4)) r[1] = g.coin() ? g.in(1, nt) : -g.in(1, nt); if (nn && g.coin(1, 6)) r[2] = g.coin() ? g.in(1, nn) : -g.in(1, nn); return r; };
		for (auto& e : c.t) {
			clutter(); Item f = mk('f'); for (int v : e) f.c.push_back(corner(v));
			if (g.coin(1, 8)) for (size_t v = 0; v < c.p.size() && f.c.size() < 5; ++v) if ((int)v != e[0] && (int)v != e[1] && (int)v != e[2] && g.coin()) f.c.push_back(corner(v));
			t.push_back(f);
		}
		if (g.coin(1, 6) && known) { Item m = mk('m'); m.m = g.in(-1, 1); t.push_back(m); }
		if (g.coin(1, 6)) t.push_back(mk('s'));
	}
	return t;
}
int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 25);
	spit("m.mtl", "# materials\nnewmtl first\nKd 1 0 0\nd 0.5\n\nnewmtl second\nKa 0.1 0.1 0.1\nillum 2\nmap_Kd x.png\n");
	{ FILE* keep = g_out; g_out = fopen("/dev/null", "w"); Rng h(7); for (int k = 0; k < 20; ++k) { Text t = random(h); any<double>(h, t); any<float>(h, t); } load<double, 1, 0>(h, Text(), true); fclose(g_out); g_out = keep; }
	if (!o.in.empty()) {
		std::ifstream f(o.in); std::string line; int q = 0;
		Ev("reset").out();
		while (std::getline(f, line)) {
			if (q++ % o.shards != o.shard) continue; if (q % 60 == 0) Ev("reset").out();
			Cmd c(line); int n = c.i(); Text t; for (int k = 0; k < 4; ++k) t.push_back(vert(coord(g), coord(g), coord(g))); t.push_back(mk('t'));
			for (int k = 0; k < n; ++k) { c.i(); Item x = mk(c.word()[0]); if (x.k == 'v') { x.p[0] = coord(g); x.p[1] = coord(g); } if (x.k == 'm') x.m = c.i();
				if (x.k == 'f') { int m = c.i(); for (int j = 0; j < m; ++j) { std::vector<int> w = c.ints(); x.c.push_back({{w[0], w[1], w[2]}}); } } t.push_back(x); }
			any<double>(g, t);
		}
	}
	for (int k = 0; k < (o.thorough ? 900 : 90); ++k) {
		Ev("reset").out();
		Text t = random(g); any<double>(g, t); any<float>(g, t); any<double>(g, t); if (g.coin(1, 3)) any<std::complex<double> >(g, t);
		if (g.coin(1, 10)) load<double, 1, 0>(g, t, true);
		if (g.coin(1, 10)) { Text e; for (auto& x : t) if (x.k != 'f' && x.k != 'm') e.push_back(x); load<double, 1, 0>(g, e); load<float, 1, 0>(g, Text()); }
	}
	fclose(g_out);
	return 0;
}
