// Native counterpart of the symbolic runtime: runs a harness on one concrete input.
//   native_<harness> FILE      FILE: lines  "entry E" | "bytes HEX" | "param K V" | "blob NAME HEX"
// Exit code 0: held; 10: assertion failed; 11: assumption not met; anything else: crash.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <map>
#include <vector>
#include <new>
#include <dlfcn.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static std::map<std::string, int64_t>& params() { static auto* m = new std::map<std::string, int64_t>; return *m; }
static std::map<std::string, std::string>& blobs() { static auto* m = new std::map<std::string, std::string>; return *m; }
static unsigned char g_bytes[65536];
static size_t g_n, g_at;
static long g_live;
static bool g_running;
extern "C" {
uint64_t sym_fail_at = 0;
uint64_t sym_alloc_count = 0;
void sym_bytes(void* p, size_t n)
{
    for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = g_at < g_n ? g_bytes[g_at++] : 0;
}
void sym_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(11); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("ASSERT %s\n", m); fflush(stdout); _Exit(10); } }
void sym_cover(const char*) { }
int64_t sym_param(const char* n, int64_t d) { auto i = params().find(n); return i == params().end() ? d : i->second; }
void sym_log(uint64_t t, uint64_t v) { printf("LOG %llu %llu\n", (unsigned long long)t, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
[[noreturn]] void sym_ignore() { printf("IGNORE\n"); fflush(stdout); _Exit(11); }
size_t sym_blob(const char* n, void* b, size_t cap)
{
    auto i = blobs().find(n);
    if (i == blobs().end()) return 0;
    if (i->second.size() > cap) abort();
    memcpy(b, i->second.data(), i->second.size());
    return i->second.size();
}
void* sym_malloc(size_t n, size_t al) { g_live++; return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n); }
void sym_free(void* p) { if (p) { g_live--; free(p); } }
void sym_fresh(void (*f)(void*), void* arg)
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { f(arg); fflush(stdout); _Exit(0); }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st)) { kill(getpid(), WTERMSIG(st)); _Exit(128); }
    if (WEXITSTATUS(st)) _Exit(WEXITSTATUS(st));
}
void* sym_shared(size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
size_t sym_heap_live() { return (size_t)g_live; }
}
static void* alloc(size_t n, size_t al)
{
    if (g_running) {
        sym_alloc_count++;
        if (sym_fail_at && sym_alloc_count == sym_fail_at) return nullptr;
        g_live++;
    }
    n = n ? n : 1;
    return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
}
static void dealloc(void* p) { if (p && g_running) g_live--; free(p); }
void* operator new(size_t n) { void* p = alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p); }

static std::string unhex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static int run(const char* path)
{
    std::string entry;
    {
        std::ifstream in(path);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ss(line);
            std::string k, a, b;
            ss >> k >> a >> b;
            if (k == "entry") entry = a;
            else if (k == "bytes") { std::string d = unhex(a); g_n = d.size(); memcpy(g_bytes, d.data(), d.size()); }
            else if (k == "param") params()[a] = atoll(b.c_str());
            else if (k == "blob") blobs()[a] = unhex(b);
        }
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 12; }
    params(); blobs();
    setvbuf(stdout, (char*)malloc(4096), _IOFBF, 4096);
    g_running = true;
    fn();
    g_running = false;
    printf("DONE\n");
    return 0;
}
// Several files: each runs in its own process (samples of one job are validated in one go).
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char** argv)
{
    if (argc == 2) { int r = run(argv[1]); fflush(stdout); _Exit(r); }
    for (int i = 1; i < argc; i++) {
        pid_t p = fork();
        if (p == 0) { alarm(20); int r = run(argv[i]); fflush(stdout); _Exit(r); }
        int st = 0;
        waitpid(p, &st, 0);
        printf("END %d %d\n", i - 1, WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
        fflush(stdout);
    }
    return 0;
}
