// Native runtime for the contract translation units: replays one path (choices, values) against the
// compiled library, or enumerates every choice vector of an entry (values sampled, bounded).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <map>
#include <vector>
#include <sstream>
#include <fstream>
#include <string>
typedef unsigned long long u64;
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; } };
template <class T> struct vec { T* d = 0; size_t n = 0, c = 0; void push(const T& x) { if (n == c) { c = c ? 2 * c : 64; d = (T*)realloc((void*)d, c * sizeof(T)); } d[n++] = x; } T& operator[](size_t i) { return d[i]; } void clear() { n = 0; } };
struct Live { size_t size; int tid; };
static std::map<size_t, Live, std::less<size_t>, MA<std::pair<const size_t, Live> > > live;
struct Blk { size_t size; int box; };
static std::map<size_t, Blk, std::less<size_t>, MA<std::pair<const size_t, Blk> > > blocks;
static bool running = false, explore = false;
static vec<int> prefix, width; static size_t cpos; static vec<const char*> clabel;
static vec<u64> syms; static size_t spos; static u64 salt = 0;
struct UF { u64 f, a, b, r; }; static vec<UF> ufs;
static jmp_buf jb; static int gen = 0; static u64 npaths, nfail, asserts;
static u64 mix(u64 a, u64 b, u64 c) { u64 h = a * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h += b; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; h += c; h *= 0x94D049BB133111EBull; h ^= h >> 31; return h; }
static u64 defsym(u64 k) { return salt == 0 ? 1001 + 7 * k : salt == 1 ? 5 : mix(k, salt, 77); }
static void say(const char* kind, const char* msg) {
    char b[4096]; int n = snprintf(b, sizeof b, "VP-FAIL %s: %s\n  choices:", kind, msg);
    for (size_t i = 0; i < cpos && i < prefix.n && n < 3800; ++i) n += snprintf(b + n, sizeof b - n, " %d", prefix[i]);
    n += snprintf(b + n, sizeof b - n, "\n"); (void)!write(1, b, n);
}
static void fail(const char* kind, const char* msg) { if (gen) longjmp(jb, 2); say(kind, msg); _exit(17); }
extern "C" {
int vp_choice(int n, const char* what) {
    if (n <= 0) longjmp(jb, 2);
    if (cpos < prefix.n) { if (explore) width[cpos] = n; int r = prefix[cpos++]; return r < n ? r : 0; }
    if (!explore) return 0;
    prefix.push(0); width.push(n); cpos++; (void)what; return 0;
}
long vp_sym(const char*) { u64 k = spos++; return (long)(k < syms.n ? syms[k] : defsym(k)); }
void vp_assume(bool c) { if (!c) longjmp(jb, 2); }
void vp_assert_(bool c, const char* w) { asserts++; if (!c) fail("assert", w); }
void vp_cover(const char*) {}
void vp_born(const void* p, unsigned long size, unsigned long align, int tid) {
    size_t a = (size_t)p; if (a % align) fail("alignment", "object constructed at a misaligned address");
    auto it = live.upper_bound(a + size - 1); if (it != live.begin()) { --it; if (it->first + it->second.size > a) fail("lifetime", "object constructed over a live object"); }
    for (auto& b : blocks) if (a >= b.first && a < b.first + b.second.size && a + size > b.first + b.second.size) fail("memory", "object constructed out of bounds");
    Live l = { size, tid }; live[a] = l;
}
void vp_die(const void* p, unsigned long, int tid) { auto it = live.find((size_t)p); if (it == live.end() || it->second.tid != tid) fail("lifetime", "destruction where no live object of that type is"); live.erase(it); }
void vp_use(const void* p, int tid) { auto it = live.find((size_t)p); if (it == live.end() || it->second.tid != tid) fail("lifetime", "use of an address holding no live object of that type"); }
int vp_is_live(const void* p, int tid) { auto it = live.find((size_t)p); return it != live.end() && it->second.tid == tid; }
int vp_live_total(void) { return (int)live.size(); }
int vp_live_in(const void* p, unsigned long n) { int c = 0; for (auto& l : live) if (l.first >= (size_t)p && l.first < (size_t)p + n) c++; return c; }
static void* get(unsigned long n, unsigned long al, int box) { if (!running) return malloc(n ? n : 1); void* p = 0; if (al < sizeof(void*)) al = sizeof(void*); if (posix_memalign(&p, al, n ? n : 1)) abort(); memset(p, 0xCD, n); Blk b = { n, box }; blocks[(size_t)p] = b; return p; }
static void put(void* p, int box) {
    if (!p) return; auto it = blocks.find((size_t)p);
    if (it == blocks.end()) { if (!running) { free(p); return; } fail("heap", "release of memory that is not allocated"); return; }
    if (it->second.box != box) fail("heap", "release of memory of another kind");
    for (auto& l : live) if (l.first >= it->first && l.first < it->first + it->second.size) fail("lifetime", "memory released while an object in it was never destroyed");
    memset(p, 0xDD, it->second.size); blocks.erase(it); free(p);
}
void* vp_alloc(unsigned long n, unsigned long al) { return get(n, al, 0); }
void vp_free(void* p) { put(p, 0); }
void* vp_box(unsigned long n, unsigned long al) { return get(n, al, 1); }
void vp_unbox(void* p) { put(p, 1); }
int vp_heap_total(void) { int c = 0; for (auto& b : blocks) if (!b.second.box) c++; return c; }
long vp_uf(int f, long a, long b) { for (size_t i = 0; i < ufs.n; ++i) if (ufs[i].f == (u64)f && ufs[i].a == (u64)a && ufs[i].b == (u64)b) return (long)ufs[i].r; return (long)mix((u64)f, (u64)a, (u64)b); }
int vp_inside(const void* p, const void* q, unsigned long n, unsigned long s) { return (size_t)p >= (size_t)q && (size_t)p + s <= (size_t)q + n; }
int vp_aligned(const void* p, unsigned long a) { return (size_t)p % a == 0; }
void vp_gen(int on) { gen = on; }
void vp_frame_begin(const char*) {} void vp_frame_allow(const void*) {} void vp_frame_end(void) {}
void vp_image(int, const void*, unsigned long, const char*) {}
void vp_learn(const void*) {} void vp_contracts(int) {}
int vp_symbolic(void) { return 0; }
void* vp_opaque(void) { static std::ostringstream* s; static char buf[sizeof(std::ostringstream)] __attribute__((aligned(16))); if (!s) { bool r = running; running = false; s = new (buf) std::ostringstream; running = r; } return static_cast<std::ostream*>(s); }
void vp_reset(void);
}
static void onsig(int s) { const char* m = s == SIGABRT ? "the program aborted (assertion or std::terminate)" : s == SIGALRM ? "no termination within 60 s" : s == SIGSEGV ? "invalid memory access" : "the program was killed by a signal"; say("crash", m); _exit(17); }
int main(int argc, char** argv) {
    std::string entry = argc > 1 ? argv[1] : "";
    if (argc > 2 && std::string(argv[2]) == "--explore") { explore = true; if (argc > 3) salt = strtoull(argv[3], 0, 10); }
    else if (argc > 2) { FILE* f = fopen(argv[2], "r"); char tag; u64 a, b, c, d; if (!f) return 4; while (fscanf(f, " %c", &tag) == 1) { if (tag == 'c') { if (fscanf(f, "%llu", &a) == 1) { prefix.push((int)a); width.push(99); } } else if (tag == 's') { if (fscanf(f, "%llu", &a) == 1) syms.push(a); } else if (tag == 'u') { if (fscanf(f, "%llu %llu %llu %llu", &a, &b, &c, &d) == 4) { UF x = { a, b, c, d }; ufs.push(x); } } } fclose(f); }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!fn) { printf("no entry %s\n", entry.c_str()); return 4; }
    u64 maxp = getenv("VP_MAX_PATHS") ? strtoull(getenv("VP_MAX_PATHS"), 0, 10) : 2000000; unsigned tmo = getenv("VP_TIMEOUT") ? (unsigned)atoi(getenv("VP_TIMEOUT")) : 60;
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig); signal(SIGALRM, onsig); alarm(tmo);
    for (;;) {
        cpos = 0; spos = 0; gen = 0; live.clear(); blocks.clear(); vp_reset();
        running = true; int j = setjmp(jb);
        if (j == 0) { fn(); running = false; if (!live.empty()) { running = true; fail("lifetime", "an object is never destroyed"); } if (!blocks.empty()) fail("heap", "memory is never released"); }
        running = false; npaths++;
        if (!explore) { if (j) { printf("VP-INFEASIBLE\n"); return 5; } break; }
        if (npaths >= maxp) { printf("VP-LIMIT paths=%llu asserts=%llu\n", npaths, asserts); return 6; }
        prefix.n = width.n = cpos < prefix.n ? cpos : prefix.n;
        while (prefix.n) { if (prefix[prefix.n - 1] + 1 < width[prefix.n - 1]) { prefix[prefix.n - 1]++; break; } prefix.n--; width.n--; }
        if (!prefix.n) break;
    }
    printf("VP-OK paths=%llu asserts=%llu\n", npaths, asserts); return 0;
}
