// Native side of the intrinsics: replays the inputs of one path (text file, one "name hex" per line, in order).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
struct Ent { std::string name; std::vector<uint8_t> b; };
static std::vector<Ent> ents; static size_t pos; static std::map<std::string, uint32_t> params; static std::string obs;
static void fin(int code, const char* what) { printf("OBS %s\nEND %s\n", obs.c_str(), what); fflush(stdout); _exit(code); }
#ifdef PLAIN_REPLAY   // heap stand-ins: any request while the code under test runs ends the replay
static bool watch; struct Off { bool w; Off() : w(watch) { watch = false; } ~Off() { watch = w; } };
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void heap(const char* f) { if (!watch) return; watch = false; fprintf(stderr, "HEAP: %s called\n", f); fin(6, "HEAP"); }
void* malloc(size_t n) { heap("malloc"); return __libc_malloc(n); } void* calloc(size_t a, size_t b) { heap("calloc"); return __libc_calloc(a, b); } void* realloc(void* p, size_t n) { heap("realloc"); return __libc_realloc(p, n); }
void* aligned_alloc(size_t a, size_t n) { heap("aligned_alloc"); return __libc_memalign(a, n); } int posix_memalign(void** p, size_t a, size_t n) { heap("posix_memalign"); *p = __libc_memalign(a, n); return 0; } }
#else
static bool watch; struct Off {};
#endif
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { Off off_; (void)off_;
  if (n == 0) return;
  if (pos >= ents.size() || ents[pos].b.size() != n) { fprintf(stderr, "replay: input %zu (%s, %zu bytes) does not match\n", pos, name, n); fin(9, "MISMATCH"); }
  memcpy(p, ents[pos].b.data(), n); pos++;
}
void sym_assume(int c) { Off off_; (void)off_; if (!c) fin(8, "ASSUME"); }
void sym_assert(int c, const char* msg) { Off off_; (void)off_; if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", msg); fin(7, "ASSERT"); } }
void sym_cover(const char*) {}
void sym_observe(const void* p, size_t n) { Off off_; (void)off_; char t[3]; for (size_t i = 0; i < n; i++) { snprintf(t, 3, "%02x", ((const uint8_t*)p)[i]); obs += t; } }
uint64_t sym_concrete(uint64_t x) { return x; }
uint32_t sym_param(const char* name, uint32_t d) { Off off_; (void)off_; auto i = params.find(name); return i == params.end() ? d : i->second; }
int sym_equal(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
#ifdef RACE_REPLAY
struct Job { void (*f)(void*); void* a; }; static void* go(void* p) { Job* j = (Job*)p; j->f(j->a); return nullptr; }
void sym_par(void (*fa)(void*), void* a, void (*fb)(void*), void* b) { Job x = {fa, a}, y = {fb, b}; pthread_t s, t; pthread_create(&s, nullptr, go, &x); pthread_create(&t, nullptr, go, &y); pthread_join(s, nullptr); pthread_join(t, nullptr); }
#else
void sym_par(void (*fa)(void*), void* a, void (*fb)(void*), void* b) { fa(a); fb(b); }
#endif
void sym_fail(const char* msg) { Off off_; (void)off_; fprintf(stderr, "ASSERTION FAILED: %s\n", msg); fin(7, "ASSERT"); }
}
int main(int argc, char** argv) {   // replay ENTRY FILE [K=V ...]
  FILE* f = fopen(argv[2], "r"); if (!f) return 9; static char line[1 << 20];
  while (fgets(line, sizeof line, f)) { Ent e; char* sp = strrchr(line, ' '); if (!sp) continue; e.name.assign(line, sp - line); sp++;
    for (; sp[0] && sp[1] && sp[0] != '\n'; sp += 2) { unsigned v; char t[3] = {sp[0], sp[1], 0}; sscanf(t, "%x", &v); e.b.push_back((uint8_t)v); } ents.push_back(e); }
  for (int i = 3; i < argc; i++) { char* q = strchr(argv[i], '='); if (q) params[std::string(argv[i], q - argv[i])] = (uint32_t)strtoul(q + 1, nullptr, 0); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 9; }
  alarm(20);
  watch = true; fn(); watch = false; fin(0, "OK");
}
