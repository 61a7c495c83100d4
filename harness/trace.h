// Trace writer and value projection shared by all drivers.  Public API of NumericSim only.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <sstream>
#include <algorithm>
#include <functional>
#include <numeric>
#include <limits>
#include <cstring>

typedef long long ll;

// ---------------------------------------------------------------- random numbers (own generator: same on every library)
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	int below(int n) { return (int)((next() >> 33) % (uint64_t)n); }
	int in(int a, int b) { return a + below(b - a + 1); }
	bool coin(int num = 1, int den = 2) { return below(den) < num; }
};

// ---------------------------------------------------------------- exact values <<a, b, d>> = (a + b i) / d
struct Num { ll a, b, d; };
inline ll gcdll(ll a, ll b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { ll t = a % b; a = b; b = t; } return a; }

// Nearest rational with denominator <= maxDen within tol; d = 0 marks "not a representable finite number"
// (<<0,0,0>> NaN, <<1,0,0>> +inf, <<-1,0,0>> -inf, <<0,1,0>> no small rational nearby).
static const ll NUM_LIMIT = 2000000000ll;
// A driver may run with all values of its operands multiplied by a power of two: what is recorded is divided by it again, so that
// everything that is linear in these values is recorded unchanged unless the code under test looks at absolute sizes.
inline double& SC() { static double s = 1; return s; }
struct Scale { double old; explicit Scale(double s) : old(SC()) { SC() = s; } ~Scale() { SC() = old; } };
// ... or with values that need more than 24 significant bits
inline bool& WIDE() { static bool w = false; return w; }
inline bool linearOnly() { return SC() != 1 || WIDE(); }
inline void setMode(int m) { SC() = m == 1 ? std::ldexp(1.0, -50) : m == 2 ? std::ldexp(1.0, 45) : 1; WIDE() = m == 3; }
struct Mode { double s; bool w; explicit Mode(int m) : s(SC()), w(WIDE()) { setMode(m); } ~Mode() { SC() = s; WIDE() = w; } };
inline Num rat(double x, ll maxDen, double tol)
{
	if (std::isnan(x)) return Num{0, 0, 0};
	if (std::isinf(x)) return Num{x > 0 ? 1 : -1, 0, 0};
	double r = std::round(x);
	const double t = tol * std::max(1.0, std::fabs(x));
	if (std::fabs(r) < NUM_LIMIT && std::fabs(x - r) <= t) return Num{(ll)r, 0, 1};
	// continued fraction expansion
	double y = x; ll p0 = 0, q0 = 1, p1 = 1, q1 = 0;
	for (int k = 0; k < 40; ++k) {
		double f = std::floor(y);
		if (std::fabs(f) > 1e9) break;
		ll a = (ll)f;
		ll p2 = a * p1 + p0, q2 = a * q1 + q0;
		if (q2 > maxDen || std::llabs(p2) > NUM_LIMIT) break;
		p0 = p1; q0 = q1; p1 = p2; q1 = q2;
		if (std::fabs((double)p1 / (double)q1 - x) <= t) return Num{p1, 0, q1};
		if (y - f < 1e-12) break;
		y = 1.0 / (y - f);
	}
	return Num{0, 1, 0};
}
template<class T> struct Tol { static double tol() { return 1e-11; } static ll den() { return 20000; } };
template<> struct Tol<float> { static double tol() { return 1e-5; } static ll den() { return 60; } };

template<class T> inline Num num(const T& x) { return rat((double)x / SC(), Tol<T>::den(), Tol<T>::tol()); }
template<class T> inline Num num(const std::complex<T>& z)
{
	Num r = rat((double)z.real() / SC(), Tol<T>::den(), Tol<T>::tol()), i = rat((double)z.imag() / SC(), Tol<T>::den(), Tol<T>::tol());
	if (r.d == 0) return r;
	if (i.d == 0) return Num{0, 1, 0};
	ll g = gcdll(r.d, i.d), d = r.d / g * i.d;
	return Num{r.a * (d / r.d), i.a * (d / i.d), d};
}
// exact projection: the value has to be exactly this integer
inline Num numInt(ll v) { return Num{v, 0, 1}; }

template<class T> struct Mk { static T make(int a, int) { return (T)a; } enum : bool { cplx = false }; typedef T real; };
template<class T> struct Mk<std::complex<T> > { static std::complex<T> make(int a, int b) { return std::complex<T>((T)a, (T)b); } enum : bool { cplx = true }; typedef T real; };

// ---------------------------------------------------------------- JSON
inline std::string js(const Num& n) { char b[96]; snprintf(b, sizeof b, "[%lld,%lld,%lld]", n.a, n.b, n.d); return b; }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(long long v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return v > 2000000000ul ? std::string("-1") : std::to_string(v); }
inline std::string js(const char* v) { return std::string("\"") + v + "\""; }
inline std::string js(const std::string& v) {
	std::string o = "\"";
	for (char c : v) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if ((unsigned char)c < 32) o += '?'; else o += c; }
	return o + "\"";
}
template<class A> std::string js(const std::vector<A>& v) { std::string o = "["; bool f = true; for (const auto& x : v) { if (!f) o += ","; f = false; o += js(x); } return o + "]"; }
inline std::string js(const std::vector<bool>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += v[i] ? "true" : "false"; } return o + "]"; }
template<class A, class B> std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }

extern FILE* g_out;
extern ll g_events;
struct Ev {
	std::string s;
	explicit Ev(const char* name) { s = std::string("{\"e\":\"") + name + "\""; }
	template<class V> Ev& f(const char* k, const V& v) { s += ",\""; s += k; s += "\":"; s += js(v); return *this; }
	Ev& raw(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
	void out() { s += "}\n"; fputs(s.c_str(), g_out); fflush(g_out); ++g_events; }
};

// ---------------------------------------------------------------- what call threw (or "ok")
#ifdef NS_TRACE_EXC
#include "Exceptions.h"
template<class F> std::string guarded(F f)
{
#define NS_TRY(n) catch (const NS::n ## Exception&) { return #n; }
	try { f(); return "ok"; }
	NS_TRY(NotSquare) NS_TRY(Singular) NS_TRY(NotPositiveDefinite) NS_TRY(NotHermitian) NS_TRY(InvalidOutputMatrix)
	NS_TRY(MatrixHasZeroInDiag) NS_TRY(DivisionByZero) NS_TRY(VectorSizeMismatch) NS_TRY(MatrixSizeMismatch)
	NS_TRY(MatrixVectorMismatch) NS_TRY(MatrixMulMismatch) NS_TRY(InvalidVertexIndex) NS_TRY(IsolatedVertex)
	NS_TRY(MalformedVertexElementConnection) NS_TRY(IncompleteElement) NS_TRY(ZeroVolumeSimplex)
	NS_TRY(MalformedElementNeighborConnection) NS_TRY(ElementNeighborVertex) NS_TRY(InvalidElementCount)
	NS_TRY(TooManySharedFaces) NS_TRY(MatrixInitializerListFailed)
	NS_TRY(NS)
	catch (...) { return "other"; }
}
#endif

// ---------------------------------------------------------------- one generated command (see flatten() in bin/check)
struct Cmd {
	std::istringstream s;
	explicit Cmd(const std::string& line) : s(line) {}
	std::string word() { std::string w; s >> w; return w; }
	int i() { int v = 0; s >> v; return v; }
	Num num() { i(); Num n; n.a = i(); n.b = i(); n.d = i(); return n; }
	std::vector<int> ints() { std::vector<int> v(i()); for (auto& x : v) x = i(); return v; }
};

// ---------------------------------------------------------------- options
struct Opt {
	std::string mode, out, in; uint64_t seed = 1; bool thorough = false; int shard = 0, shards = 1;
};
inline Opt parse(int argc, char** argv)
{
	Opt o;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i], v;
		auto p = a.find('=');
		if (p != std::string::npos) { v = a.substr(p + 1); a = a.substr(0, p); }
		if (a == "mode") o.mode = v; else if (a == "out") o.out = v; else if (a == "in") o.in = v;
		else if (a == "seed") o.seed = std::strtoull(v.c_str(), 0, 10);
		else if (a == "tier") o.thorough = v == "thorough";
		else if (a == "shard") o.shard = atoi(v.c_str()); else if (a == "shards") o.shards = atoi(v.c_str());
	}
	g_out = fopen(o.out.c_str(), "w");
	if (!g_out) { fprintf(stderr, "cannot write %s\n", o.out.c_str()); exit(3); }
	return o;
}
#define TRACE_MAIN_GLOBALS FILE* g_out = nullptr; ll g_events = 0;
