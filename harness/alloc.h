// Number of blocks obtained from operator new and not given back while g_track is set (include in one unit only).
#pragma once
#include <new>
#include <cstdlib>
static bool g_track = false; static long g_blocks = 0;
void* operator new(size_t n) { if (g_track) ++g_blocks; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (g_track) --g_blocks; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
struct Track { Track() { g_track = true; } ~Track() { g_track = false; } };
struct Untrack { bool was; Untrack() : was(g_track) { g_track = false; } ~Untrack() { g_track = was; } };
