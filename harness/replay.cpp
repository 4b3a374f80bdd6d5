// Native runtime for harnesses: reads assignments, runs hsx_main once per assignment.
// usage: exe FILE            FILE has one assignment per line: "v v v ..."  (decimal, creation order)
// For each line prints: RESULT <n> <status> [label] OBS <count> <hash>
#include "hsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <exception>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
static std::vector<uint64_t> vals; static std::size_t pos; static uint64_t obsH = 1469598103934665603ull; static uint64_t obsN;
static std::string failLabel; static int outfd = 1;
static void obs(uint64_t k) { obsH = (obsH ^ k) * 1099511628211ull; obsH ^= obsH >> 29; ++obsN; }
static uint64_t nextv() { if (pos < vals.size()) return vals[pos++]; ++pos; return 0; }
static void finish(const char* st, const char* label, int code) {
  char b[4096]; int n = snprintf(b, sizeof b, "STATUS %s OBS %llu %llu LABEL %s\n", st, (unsigned long long)obsN, (unsigned long long)obsH, label ? label : "-");
  if (write(outfd, b, n) < 0) {} 
  if (code >= 0) _exit(code);
}
extern "C" {
uint64_t hsx_sym_(const char*, unsigned bits) { uint64_t v = nextv(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void hsx_bytes_(void* p, std::size_t n, const char*) { for (std::size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)nextv(); }
int hsx_range_(const char*, int lo, int hi) { int v = lo + (int)(uint8_t)nextv(); if (v > hi) finish("assume-failed", "range", 20); return v; }
void hsx_assume_(int c) { if (!c) finish("assume-failed", "assume", 20); }
void hsx_assert_(int c, const char* l) { if (!c) finish("assert", l, 10); }
void hsx_reach_(const char*) {}
void hsx_freeze(void); void hsx_thaw(void);
void hsx_observe_(uint64_t v) { obs(v); }
void hsx_observe_bytes_(const void* p, std::size_t n) { obs(n); for (std::size_t i = 0; i < n; ++i) obs(((const unsigned char*)p)[i]); }
uint64_t hsx_concretize_(uint64_t v) { return v; }
void hsx_leak_ok(void) {}
void hsx_stop(void) { finish("stopped", "-", 0); }
int hsx_is_symbolic(void) { return 0; }
void hsx_print_(const char*) {}
}
#ifdef HSX_PLAIN
// Plain build (no sanitizer): a bump allocator whose pages become read-only at
// hsx_freeze, plus live-object counting, so that writes to frozen memory and
// leaks reported by the symbolic run can be reproduced.
#include <sys/mman.h>
#include <new>
static char *regionLo, *regionHi, *regionCur; static std::vector<std::pair<char*, char*>>* regions; static long live; static bool frozen, tracking; static std::vector<char>* dataSnap;
extern "C" char __data_start, _end;
static void newRegion() { regionLo = (char*)mmap(nullptr, 64u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); regionCur = regionLo; regionHi = regionLo + (64u << 20); if (regions) regions->push_back({regionLo, regionHi}); }
static bool inFrozen(void* p) { if (!frozen || !regions) return false; for (auto& r : *regions) if (r.first != regionLo && (char*)p >= r.first && (char*)p < r.second) return true; return false; }
static void* alloc(std::size_t n) { if (!tracking) return malloc(n ? n : 1); n = (n + 31) & ~15ul; if (regionCur + n > regionHi) newRegion(); char* p = regionCur; regionCur += n; ++live; return p; }
static void release(void* p) { if (!p) return; if (regions) for (auto& r : *regions) if ((char*)p >= r.first && (char*)p < r.second) { if (inFrozen(p)) finish("purity", "released frozen memory", 12); --live; return; } free(p); }
void* operator new(std::size_t n) { return alloc(n); } void* operator new[](std::size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { release(p); } void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); } void operator delete[](void* p, std::size_t) noexcept { release(p); }
extern "C" void hsx_freeze(void) {
  if (frozen) hsx_thaw(); bool t = tracking; tracking = false;
  newRegion(); for (auto& r : *regions) if (r.first != regionLo) mprotect(r.first, r.second - r.first, PROT_READ);
  frozen = true; if (!dataSnap) dataSnap = new std::vector<char>(&_end - &__data_start); tracking = t; dataSnap->assign(&__data_start, &_end); memcpy(dataSnap->data(), &__data_start, dataSnap->size());
}
extern "C" void hsx_thaw(void) {
  if (!frozen) return; long diff = 0; for (std::size_t i = 0; i < dataSnap->size(); ++i) { const char* a = &__data_start + i; if ((a >= (char*)&live && a < (char*)(&live + 1)) || (a >= (char*)&regionLo && a < (char*)(&regionLo + 1)) || (a >= (char*)&regionCur && a < (char*)(&regionCur + 1)) || (a >= (char*)&regionHi && a < (char*)(&regionHi + 1)) || (a >= (char*)&obsH && a < (char*)(&obsH + 1)) || (a >= (char*)&obsN && a < (char*)(&obsN + 1)) || (a >= (char*)&pos && a < (char*)(&pos + 1)) || (a >= (char*)&vals && a < (char*)(&vals + 1))) continue; if ((*dataSnap)[i] != *a) ++diff; }
  frozen = false; for (auto& r : *regions) mprotect(r.first, r.second - r.first, PROT_READ | PROT_WRITE);
  if (diff) finish("purity", "static data changed", 12);
}
static void onSegv(int) { finish("purity", "write to frozen memory", 12); }
static void plainSetup() { regions = new std::vector<std::pair<char*, char*>>; regions->reserve(64); newRegion(); static char stk[65536]; stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr); struct sigaction sa = {}; sa.sa_handler = onSegv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); }
static void plainRun() {
  plainSetup(); long l[3];
  for (int i = 0; i < 3; ++i) { pos = 0; tracking = true; hsx_main(); tracking = false; frozen = false; for (auto& r : *regions) mprotect(r.first, r.second - r.first, PROT_READ | PROT_WRITE); l[i] = live; }
  if (l[2] > l[1]) finish("leak", "live objects grow from run to run", 13);
  obsN = 0; finish("ok", nullptr, 0);
}
#else
extern "C" void hsx_freeze(void) {} extern "C" void hsx_thaw(void) {}
#endif
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::ifstream f(argv[1]); std::string line; int idx = 0, worst = 0; bool single = argc > 2 && !strcmp(argv[2], "--single");
  while (std::getline(f, line)) {
    std::istringstream is(line); vals.clear(); pos = 0; uint64_t v; while (is >> v) vals.push_back(v);
    if (single) { hsx_main(); finish("ok", nullptr, -1); return 0; }
    int pfd[2]; if (pipe(pfd)) return 2;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      close(pfd[0]); outfd = pfd[1];
      signal(SIGALRM, SIG_DFL); alarm(20);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      std::set_terminate([] { finish("terminate", "uncaught exception", 11); });
#ifdef HSX_PLAIN
      plainRun();
#endif
      hsx_main(); finish("ok", nullptr, -1); _exit(0);
    }
    close(pfd[1]); std::string out; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n); close(pfd[0]);
    int st; waitpid(p, &st, 0); if (out.empty()) out = "STATUS none OBS 0 0 LABEL -\n";
    out = out.substr(0, out.find('\n'));
    printf("RESULT %d %s %d %s\n", idx++, WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), out.c_str());
    fflush(stdout); if (st) worst = 1;
  }
  return worst;
}
