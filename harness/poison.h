// Heap blocks get a chosen fill pattern: running a case under two patterns and comparing makes reads of
// never-written memory visible without relying on luck.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
namespace mc { inline unsigned char g_fill = 0xA5; }
inline void* mc_alloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, mc::g_fill, n); return p; }
void* operator new(size_t n) { return mc_alloc(n); }
void* operator new[](size_t n) { return mc_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
