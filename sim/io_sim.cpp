// Simulated surroundings: files, clock, allocator, LAPACK, threads.
#include "core.hpp"
#include <cerrno>
#include <cmath>
#include <complex>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void __libc_free(void*);

static std::map<int, std::string> tracked;          // fd -> path
static std::map<FILE*, std::string> tracked_file;
static std::map<std::string, long> opn;             // op:path -> count
static long io_total = 0;
static std::vector<long> clock_reads;
static std::map<std::string, std::vector<long>> lapack_calls;
extern size_t g_evals_done;                         // host evaluations completed

static bool alloc_armed = false;
static long alloc_at[64], alloc_n[64], alloc_cnt[64];
static int alloc_call[64];
static long alloc_fired = 0;

static std::string base(const std::string& p) { auto i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }

struct CaptureBuf : std::streambuf
{
  long n = 0;
  std::streamsize put(const char* s, std::streamsize k)
  {
    if (!S || S->current < 0) return k;
    LibGuard lg(false);
    int r = S->current;
    if (fault_hit("stdout_fail", "", r, S->rank_call[r], n++)) return 0;
    S->out[r].append(s, k);
    return k;
  }
  std::streamsize xsputn(const char* s, std::streamsize k) override { return put(s, k); }
  int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return put(&ch, 1) == 1 ? c : EOF; }
};
static CaptureBuf* cap;

void io_reset()
{
  tracked.clear(); tracked_file.clear(); opn.clear(); io_total = 0;
  clock_reads.assign(S->nranks, 0);
  lapack_calls.clear();
  alloc_armed = false; alloc_fired = 0;
  for (int i = 0; i < 64; ++i) { alloc_at[i] = -1; alloc_n[i] = 0; alloc_cnt[i] = 1; alloc_call[i] = 0; }
  for (auto& f : S->spec.faults)
    if (f.kind == "alloc")
      for (int r = 0; r < S->nranks; ++r)
        if (f.rank == -1 || f.rank == r) { alloc_armed = true; alloc_at[r] = f.nth; alloc_cnt[r] = f.count; alloc_call[r] = f.call; }
  cap = new CaptureBuf;
  std::cout.rdbuf(cap);
  std::cout.clear();
}
void io_alloc_newcall(int r) { alloc_n[r] = 0; }
long io_alloc_fired() { return alloc_fired; }
long io_alloc_count(int r) { return alloc_n[r]; }
static bool count_allocs = false;
void io_count_allocs(bool v) { count_allocs = v; }

// one file operation.  Returns the fault errno (>0) or 0
static int io_op(const char* op, const std::string& path, long len, double* torn = nullptr)
{
  int r = S->current;
  std::string b = base(path);
  sim_yield(op);
  long k = opn[std::string(op) + ":" + b]++;
  sim_event(r, std::string(op) + " " + b, len);
  long n = io_total++;
  for (auto& f : S->spec.faults)
    if (f.kind == "crash_io" && f.nth == n && f.call == S->rank_call[r]) {
      S->fired["crash_io"]++;
      if (torn) { *torn = f.value; return -1; }
      sim_stop(RunEnd::crashed, std::string("injected crash at ") + op + " of " + b);
    }
  if (const Fault* f = fault_hit((std::string("io_") + op).c_str(), b, r, S->rank_call[r], k)) return f->value > 0 ? (int)f->value : EIO;
  return 0;
}
static void io_rec(const char* op, const std::string& path, long len, long res)
{
  S->io.push_back({S->current, base(path), op, len, res, S->rank_call[S->current], g_evals_done});
}

template <class F> static F next(const char* n, F)
{
  return (F)dlsym(RTLD_NEXT, n);
}

extern "C" {

static FILE* do_fopen(const char* path, const char* mode, const char* sym)
{
  static FILE* (*r1)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  static FILE* (*r2)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  bool six4 = sym[5] == '6';
  if (!sim_in_fiber()) return six4 ? r2(path, mode) : r1(path, mode);
  LibGuard lg(false);
  int e = io_op("open", path, 0);
  if (e) { io_rec("open", path, 0, -e); errno = e; return nullptr; }
  FILE* f = six4 ? r2(path, mode) : r1(path, mode);
  io_rec("open", path, mode[0] == 'a' ? 1 : (mode[0] == 'w' ? 2 : 0), f ? 0 : -errno);
  if (f) { tracked[fileno(f)] = path; tracked_file[f] = path; }
  return f;
}
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, "fopen64"); }

static ssize_t tracked_write(int fd, const std::string& path, const char* buf, size_t n)
{
  double torn = -1;
  int e = io_op("write", path, (long)n, &torn);
  if (e == -1) {
    size_t k = (size_t)std::floor(torn * n);
    if (k > n) k = n;
    if (k) { ssize_t w = syscall(SYS_write, fd, buf, k); (void)w; }
    io_rec("write", path, (long)n, (long)k);
    sim_stop(RunEnd::crashed, "injected crash inside a write of " + base(path));
  }
  if (e) { io_rec("write", path, (long)n, -e); errno = e; return -1; }
  std::string b = base(path);
  long k = opn["write:" + b] - 1;
  int r = S->current;
  if (const Fault* f = fault_hit("io_short", b, r, S->rank_call[r], k)) {
    (void)f;
    if (n > 1) n = n / 2;
  }
  if (const Fault* f = fault_hit("io_torn", b, r, S->rank_call[r], k)) {
    size_t h = n / 2;
    if (h) { ssize_t w = syscall(SYS_write, fd, buf, h); (void)w; }
    int er = f->value > 0 ? (int)f->value : ENOSPC;
    io_rec("write", path, (long)n, -er);
    errno = er;
    return -1;
  }
  ssize_t w = syscall(SYS_write, fd, buf, n);
  io_rec("write", path, (long)n, w);
  return w;
}

ssize_t write(int fd, const void* buf, size_t n)
{
  if (sim_in_fiber()) {
    auto it = tracked.find(fd);
    if (it != tracked.end()) { LibGuard lg(false); std::string p = it->second; return tracked_write(fd, p, (const char*)buf, n); }
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
  if (sim_in_fiber()) {
    auto it = tracked.find(fd);
    if (it != tracked.end()) {
      LibGuard lg(false);
      std::string all, p = it->second;
      for (int i = 0; i < cnt; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
      return tracked_write(fd, p, all.data(), all.size());
    }
  }
  return syscall(SYS_writev, fd, v, cnt);
}
int fclose(FILE* f)
{
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (sim_in_fiber()) {
    auto it = tracked_file.find(f);
    if (it != tracked_file.end()) {
      LibGuard lg(false);
      std::string p = it->second;
      int fd = fileno(f);
      int e = io_op("close", p, 0);
      tracked_file.erase(f);
      tracked.erase(fd);
      int rc = real(f);
      io_rec("close", p, 0, e ? -e : rc);
      if (e) { errno = e; return EOF; }
      return rc;
    }
  }
  return real(f);
}
int remove(const char* path)
{
  if (sim_in_fiber()) {
    LibGuard lg(false);
    int e = io_op("remove", path, 0);
    if (e) { io_rec("remove", path, 0, -e); errno = e; return -1; }
    if (path[0] == '/' || strstr(path, "..")) { io_rec("remove", path, 0, -EPERM); errno = EPERM; return -1; }  // stays inside the scratch directory
    int rc = (int)syscall(SYS_unlinkat, AT_FDCWD, path, 0);
    io_rec("remove", path, 0, rc ? -errno : 0);
    return rc;
  }
  static int (*real)(const char*) = (int (*)(const char*))dlsym(RTLD_NEXT, "remove");
  return real(path);
}
int unlink(const char* path)
{
  if (sim_in_fiber()) return remove(path);
  return (int)syscall(SYS_unlinkat, AT_FDCWD, path, 0);
}

// ---------------------------------------------------------------- time
static int64_t virtual_now()
{
  int r = S->current;
  LibGuard lg(false);
  long n = clock_reads[r]++;
  S->clock[r] += 200;
  if (const Fault* f = fault_hit("clock_jump", "", r, S->rank_call[r], n)) S->clock_off[r] += (int64_t)(f->value * 1e9);
  if (fault_hit("clock_freeze", "", r, S->rank_call[r], n)) {
    if (!S->clock_frozen[r]) { S->clock_frozen[r] = true; S->clock_frozen_at[r] = S->clock[r] + S->clock_off[r]; }
    return S->clock_frozen_at[r];
  }
  S->clock_frozen[r] = false;
  return S->clock[r] + S->clock_off[r];
}
int clock_gettime(clockid_t id, struct timespec* ts)
{
  if (sim_in_fiber()) {
    int64_t t = virtual_now();
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval* tv, void*)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// ---------------------------------------------------------------- memory
static inline bool alloc_fails()
{
  if (!(alloc_armed || count_allocs) || !S) return false;
  int r = S->current;
  if (r < 0 || !S->in_lib[r] || !sim_on_main_thread()) return false;
  long n = alloc_n[r]++;
  if (alloc_armed && alloc_at[r] >= 0 && n >= alloc_at[r] && n < alloc_at[r] + alloc_cnt[r] && S->rank_call[r] == alloc_call[r]) { alloc_fired++; return true; }
  return false;
}

// memory the library holds: blocks allocated in library code and not yet freed
struct MemEnt { void* p; size_t n; };
static MemEnt* mem_tab = nullptr;
static const size_t MEM_CAP = 1 << 20;
static size_t mem_live = 0;
static bool mem_on = false;
static inline size_t mem_slot(void* p) { return (size_t)(mix64((uint64_t)p) & (MEM_CAP - 1)); }
static inline void mem_add(void* p, size_t n)
{
  if (!mem_on || !p || !S) return;
  int r = S->current;
  if (r < 0 || !S->in_lib[r] || !sim_on_main_thread()) return;
  size_t i = mem_slot(p);
  while (mem_tab[i].p && mem_tab[i].p != (void*)1) i = (i + 1) & (MEM_CAP - 1);
  mem_tab[i] = {p, n};
  mem_live += n;
}
static inline void mem_del(void* p)
{
  if (!mem_on || !p) return;
  size_t i = mem_slot(p);
  while (mem_tab[i].p) {
    if (mem_tab[i].p == p) { mem_live -= mem_tab[i].n; mem_tab[i].p = (void*)1; return; }
    i = (i + 1) & (MEM_CAP - 1);
  }
}
void* malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_malloc(n); mem_add(p, n); return p; }
void* calloc(size_t a, size_t b) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); mem_add(p, a * b); return p; }
void free(void* p) { mem_del(p); __libc_free(p); }
void* realloc(void* q, size_t n)
{
  if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  mem_del(q);
  void* p = __libc_realloc(q, n);
  mem_add(p, n);
  return p;
}
int posix_memalign(void** p, size_t al, size_t n)
{
  if (alloc_fails()) return ENOMEM;
  *p = __libc_memalign(al, n);
  mem_add(*p, n);
  return *p ? 0 : ENOMEM;
}
void* aligned_alloc(size_t al, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_memalign(al, n); mem_add(p, n); return p; }
void* memalign(size_t al, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __libc_memalign(al, n); mem_add(p, n); return p; }

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) =
      (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  if (S) S->threads_created++;
  return real(t, a, f, arg);
}

// ---------------------------------------------------------------- LAPACK
static int lapack_fault(const char* name)
{
  if (!sim_in_fiber()) return 0;
  LibGuard lg(false);
  int r = S->current;
  auto& v = lapack_calls[name];
  v.resize(S->nranks);
  long n = v[r]++;
  if (const Fault* f = fault_hit("lapack", name, r, S->rank_call[r], n)) { sim_event(r, std::string("LAPACK failure injected in ") + name, n); return f->value != 0 ? (int)f->value : 1; }
  return 0;
}
typedef void cd;
#define REAL(name, sig) static int(*real) sig = (int(*) sig)dlsym(RTLD_NEXT, #name)
#define HOOK(name, sig, call) int name sig { REAL(name, sig); if (int e = lapack_fault(#name)) return e; return real call; }
HOOK(LAPACKE_zheevd, (int o, char j, char u, int n, cd* a, int lda, double* w), (o, j, u, n, a, lda, w))
HOOK(LAPACKE_zheev, (int o, char j, char u, int n, cd* a, int lda, double* w), (o, j, u, n, a, lda, w))
HOOK(LAPACKE_zpotrf, (int o, char u, int n, cd* a, int lda), (o, u, n, a, lda))
HOOK(LAPACKE_zpotrs, (int o, char u, int n, int nr, const cd* a, int lda, cd* b, int ldb), (o, u, n, nr, a, lda, b, ldb))
HOOK(LAPACKE_zposv, (int o, char u, int n, int nr, cd* a, int lda, cd* b, int ldb), (o, u, n, nr, a, lda, b, ldb))
HOOK(LAPACKE_zgetrf, (int o, int m, int n, cd* a, int lda, int* p), (o, m, n, a, lda, p))
HOOK(LAPACKE_zgetrs, (int o, char t, int n, int nr, const cd* a, int lda, const int* p, cd* b, int ldb), (o, t, n, nr, a, lda, p, b, ldb))
}
std::map<std::string, std::vector<long>>& lapack_counts() { return lapack_calls; }
long io_total_ops() { return io_total; }
size_t libmem_live() { return mem_live; }
void libmem_enable(bool v)
{
  if (v && !mem_tab) mem_tab = (MemEnt*)mmap(nullptr, MEM_CAP * sizeof(MemEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mem_on = v;
}
