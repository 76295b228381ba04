/* The heap as a seam: operator new for every C++ library of the process. Inside the window heap_window(1)..heap_window(0)
 * addresses are a function of the salt and the allocation sequence, not of what the process did before. */
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
static char* A = nullptr; static const size_t SZ = 96ull << 20; static const int NSUB = 8; static size_t off[NSUB]; static bool mix = false;
/* the thread inside the window; a thread that ends meanwhile frees its own leftovers and must not touch the free lists */
static __thread bool on = false;
static uint64_t st = 1;
struct Blk { uint32_t units; uint32_t sub; uint64_t magic; };
static Blk* fr[NSUB][513];
static void* get(size_t n) {
    int k = 0; if (mix) { st += 0x9E3779B97F4A7C15ULL; uint64_t z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 29; k = (int)(z % NSUB); }
    size_t u = (n + 15) / 16; if (!u) u = 1;
    if (u <= 512 && fr[k][u]) { Blk* b = fr[k][u]; fr[k][u] = *(Blk**)(b + 1); return b + 1; }
    size_t bytes = (u + 1) * 16;
    if (off[k] + bytes > SZ) { for (k = 0; k < NSUB && off[k] + bytes > SZ; k++); if (k == NSUB) return malloc(n); }
    Blk* b = (Blk*)(A + SZ * k + off[k]); off[k] += bytes; b->units = (uint32_t)u; b->sub = k; return b + 1; }
static inline bool in(void* p) { return A && (char*)p >= A && (char*)p < A + SZ * NSUB; }
static void put(void* p) { Blk* b = (Blk*)p - 1; size_t u = b->units; memset(p, 0xDB, u * 16); if (on && u <= 512) { *(Blk**)p = fr[b->sub][u]; fr[b->sub][u] = b; } }
static void* nw(size_t n) { void* p = on ? get(n) : malloc(n ? n : 1); if (!p) abort(); return p; }
static void del(void* p) { if (!p) return; if (in(p)) put(p); else free(p); }
extern "C" {
int heap_init() { A = (char*)mmap((void*)0x600000000000ULL, SZ * NSUB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (A == MAP_FAILED) { A = nullptr; return 0; } return 1; }
/* a fresh layout: what is still alive stays where it is */
void heap_salt(uint64_t s) { mix = s != 0; st = s * 7777777; memset(fr, 0, sizeof fr); }
void heap_window(int b) { on = b && A; }
}
void* operator new(size_t n) { return nw(n); }
void* operator new[](size_t n) { return nw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p); }
