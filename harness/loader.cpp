// Texts for the triangle loader (C24).
#include "meshdump.h"
#include "alloc.h"
#include <fstream>
#include <unistd.h>
#include "loader/MeshTriangleLoader.h"
TRACE_MAIN_GLOBALS

// one field: kind, value and how it is written
struct Tok { char k; Num v; std::string s; };
typedef std::vector<std::vector<Tok> > Text;
static std::string js(const Tok& t) { return std::string("{\"k\":\"") + t.k + "\",\"v\":" + js(t.v) + "}"; }
static std::string jt(const Text& t) { std::string s = "["; for (size_t i = 0; i < t.size(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < t[i].size(); ++j) s += (j ? "," : "") + js(t[i][j]); s += "]"; } return s + "]"; }

static Tok I(ll n) { return Tok{n < 0 ? 'm' : 'i', Num{n, 0, 1}, std::to_string(n)}; }
static Tok X(Rng& g) { static const char* w[] = {"x", "abc", "1.5x", "--2", "1,5", "-", "+", "n/a", "3a", "e5", ".", "2/3", "!", "1;", "_1", "1-1"}; return Tok{'x', Num{0, 0, 1}, w[g.below(16)]}; }
static Tok F(Rng& g, ll n, int d) { // n / d in lowest terms, d > 1 a divisor of a power of ten
	ll q = gcdll(n, d); Tok t{'f', Num{n / q, 0, d / q}, ""}; char b[40];
	switch (g.below(3)) { case 0: snprintf(b, 40, "%.10g", (double)n / d); break; case 1: snprintf(b, 40, "%.12e", (double)n / d); break; default: snprintf(b, 40, "%.6f", (double)n / d); }
	t.s = b; if (g.coin(1, 4)) { size_t p = t.s.find("0."); if (p != std::string::npos && (p == 0 || (p == 1 && t.s[0] == '-'))) t.s.erase(p, 1); }
	return t;
}
static std::string render(Rng& g, const Text& t) {
	static const char* sep[] = {" ", "  ", "\t", " \t ", "   "}; static const char* lead[] = {"", "", " ", "\t", "   "}; static const char* nl[] = {"\n", "\n", "\r\n"};
	static const char* com[] = {"#", "# 1 2 3", "#x # y", "# comment", "#7 8 9 10"};
	const char* end = nl[g.below(3)]; const bool plain = g.coin(1, 4); std::string s;
	for (size_t i = 0; i < t.size(); ++i) {
		if (!plain && g.coin(1, 12)) s += std::string(lead[g.below(5)]) + (g.coin() ? com[g.below(5)] : "") + end;
		if (!plain) s += lead[g.below(5)];
		for (size_t j = 0; j < t[i].size(); ++j) { if (j) s += plain ? " " : sep[g.below(5)]; s += t[i][j].s; }
		if (!plain && g.coin(1, 6)) s += std::string(t[i].empty() || g.coin() ? "" : " ") + com[g.below(5)];
		if (!plain && g.coin(1, 6)) s += " ";
		if (i + 1 < t.size() || !g.coin(1, 4)) s += end;
	}
	if (!plain && g.coin(1, 8)) s += "\n\n";
	return s;
}
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }

template<class F> static std::string loadGuard(F f) {
	try { return guarded([&] { try { f(); } catch (const LoadTriangleNodeErrorException&) { throw 1; } catch (const LoadTriangleElementErrorException&) { throw 2; } }) ; }
	catch (...) { return "other"; }
}
template<class T> void load(Rng& g, const Text& node, const Text& ele, bool both, int missing = 0) {
	const std::string a = render(g, node), b = render(g, ele); const bool file = missing || g.coin(1, 4);
	std::string fa = "n.node", fb = "e.ele"; if (file) { spit(fa, a); spit(fb, b); if (missing & 1) unlink(fa.c_str()); if (missing & 2) unlink(fb.c_str()); }
	std::string exc = "ok", d = "{}"; g_blocks = 0;
	{ Track t;
		try { Mesh<T, 2> m = file ? MeshTriangleLoader<T>::loadFile(fa, fb) : MeshTriangleLoader<T>::loadString(a, b); Untrack u; d = dump(m); }
		catch (const LoadTriangleNodeErrorException&) { Untrack u; exc = "LoadTriangleNodeError"; }
		catch (const LoadTriangleElementErrorException&) { Untrack u; exc = "LoadTriangleElementError"; }
		catch (...) { Untrack u; std::exception_ptr p = std::current_exception(); exc = guarded([&] { std::rethrow_exception(p); }); } }
	static const Text none;
	Ev("load").f("way", file ? "file" : "string").raw("node", jt(missing & 1 ? none : node)).raw("ele", jt(missing & 2 ? none : ele)).f("both", both).f("exc", exc).f("blocks", g_blocks).raw("d", d).out();
}
// well-formed texts of a complex
template<class T> void texts(Rng& g, const Cx& c, int bn, int be, Text& node, Text& ele) {
	node.clear(); ele.clear(); const bool flt = sizeof(T) == 4;
	auto extra = [&](std::vector<Tok>& l) { if (g.coin(1, 4)) for (int k = g.in(1, 3); k > 0; --k) l.push_back(g.coin(1, 3) ? X(g) : I(g.below(4))); };
	node.push_back({I(c.p.size()), I(2)}); if (g.coin()) { node[0].push_back(I(0)); node[0].push_back(I(1)); } extra(node[0]);
	for (size_t i = 0; i < c.p.size(); ++i) { node.push_back({I(bn + i)});
		for (int k = 0; k < 2; ++k) { const Num& x = c.p[i][k]; ll q = g.in(-9, 9);
			switch (g.below(5)) { case 0: node.back().push_back(F(g, 2 * q + 1, 2)); break; case 1: node.back().push_back(F(g, 10 * q + 3, 10)); break; case 2: node.back().push_back(flt ? I(q) : F(g, 1000 * q + g.in(1, 9) * 2 + 1, 1000)); break; default: node.back().push_back(I(x.a)); } }
		extra(node.back()); }
	ele.push_back({I(c.t.size()), I(3)}); if (g.coin()) ele[0].push_back(I(0)); extra(ele[0]);
	for (size_t i = 0; i < c.t.size(); ++i) { ele.push_back({I(be + i)}); for (int k = 0; k < 3; ++k) ele.back().push_back(I(be + c.t[i][k])); extra(ele.back()); }
}
static void harm(Rng& g, Text& t, int nums) {
	if (t.empty()) return; int i = g.below(t.size()); auto& l = t[i];
	auto any = [&]() { switch (g.below(6)) { case 0: return I(g.below(3)); case 1: return I(nums + g.in(-1, 2)); case 2: return I(-g.in(1, 3)); case 3: return F(g, 2 * g.in(-4, 4) + 1, 2); case 4: return I(1000000 + g.below(3)); default: return X(g); } };
	switch (g.below(8)) {
	case 0: t.erase(t.begin() + i); break;
	case 1: t.insert(t.begin() + i, std::vector<Tok>(l)); break;
	case 2: if (!l.empty()) l.resize(g.below(l.size())); break;
	case 3: t.resize(i); break;
	case 4: if (!l.empty()) l.erase(l.begin() + g.below(l.size())); break;
	case 5: l.insert(l.begin() + g.below(l.size() + 1), any()); break;
	default: if (!l.empty()) l[g.below(std::min<size_t>(l.size(), 4))] = any();
	}
}

int main(int argc, char** argv)
{
	Opt o = parse(argc, argv);
	Rng g(o.seed * 1000 + o.shard + 24);
	{ Cx c; c.p = {{Num{0, 0, 1}, Num{0, 0, 1}}, {Num{1, 0, 1}, Num{0, 0, 1}}, {Num{0, 0, 1}, Num{1, 0, 1}}}; c.t = {{0, 1, 2}}; Text a, b; texts<double>(g, c, 1, 1, a, b); FILE* keep = g_out; g_out = fopen("/dev/null", "w"); load<double>(g, a, b, false); b.clear(); load<double>(g, a, b, false); load<float>(g, a, b, false, 3); fclose(g_out); g_out = keep; }
	if (!o.in.empty()) {
		std::ifstream f(o.in); std::string line; int q = 0;
		Ev("reset").out();
		while (std::getline(f, line)) {
			if (q++ % o.shards != o.shard) continue; if (q % 60 == 0) Ev("reset").out();
			Cmd c(line); bool node = c.word() == "node"; int base = c.i(); Text t(c.i());
			for (auto& l : t) { int n = c.i(); for (int k = 0; k < n; ++k) { c.i(); std::string w = c.word(); int v = c.i(); l.push_back(w == "x" ? X(g) : w == "f" ? F(g, v, 2) : I(v)); } }
			Text other; auto line = [&](std::vector<int> v) { std::vector<Tok> r; for (int x : v) r.push_back(I(x)); other.push_back(r); };
			if (node) { line({1, 3}); line({base, base, base + 2, base + 1}); load<double>(g, t, other, false); }
			else { line({3, 2}); line({base, 0, 0}); line({base + 1, 3, 0}); line({base + 2, 0, 1}); load<double>(g, other, t, false); }
		}
	}
	for (int k = 0; k < (o.thorough ? 800 : 80); ++k) {
		Ev("reset").out();
		Cx c = g.coin() ? conforming(g) : abstractCx(g); if (c.t.empty()) continue; Text a, b; int base = g.below(2); texts<double>(g, c, base, base, a, b);
		load<double>(g, a, b, false);
		{ Text a2, b2; texts<float>(g, c, base, base, a2, b2); load<float>(g, a2, b2, false); }
		for (int r = 0; r < 4; ++r) { Text x = a, y = b; int h = r % 2; if (h) harm(g, y, c.t.size()); else harm(g, x, c.p.size()); load<double>(g, x, y, false); }
		{ Text x = a, y = b; harm(g, x, c.p.size()); harm(g, y, c.t.size()); load<double>(g, x, y, true); }
		if (g.coin(1, 4)) load<double>(g, a, b, false, g.in(1, 3));
		if (g.coin(1, 4)) { Text e; load<double>(g, g.coin() ? e : a, e, true); }
	}
	fclose(g_out);
	return 0;
}
