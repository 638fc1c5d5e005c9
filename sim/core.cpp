#include "core.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#include <malloc.h>
#include <list>
#include <sys/syscall.h>

SimState* S = nullptr;

double Rng::logrange(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
double Rng::gauss()
{
  double a = u() + 1e-300, b = u();
  return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
}

const char* runend_name(RunEnd e)
{
  switch (e) {
    case RunEnd::running: return "running";
    case RunEnd::done: return "done";
    case RunEnd::deadlock: return "deadlock";
    case RunEnd::mismatch: return "mismatch";
    case RunEnd::aborted: return "aborted";
    case RunEnd::crashed: return "crashed";
    case RunEnd::steplimit: return "steplimit";
    case RunEnd::misuse: return "misuse";
  }
  return "?";
}

// ---------------------------------------------------------------- json
#define PUT(f) j[#f] = x.f
#define GET(f) if (j.contains(#f)) j.at(#f).get_to(x.f)
void to_json(json& j, const Fault& x)
{
  j = json::object(); PUT(kind);
  if (!x.target.empty()) PUT(target);
  if (x.rank != -1) PUT(rank);
  if (x.call) PUT(call);
  PUT(nth);
  if (x.count != 1) PUT(count);
  if (x.value != 0) PUT(value);
}
void from_json(const json& j, Fault& x) { x = Fault(); GET(kind); GET(target); GET(rank); GET(call); GET(nth); GET(count); GET(value); }
void to_json(json& j, const Problem& x)
{
  j = json::object(); PUT(seed); PUT(nk); PUT(nspin); PUT(occ); PUT(nb); PUT(nmin); PUT(nmax); PUT(nbvar); PUT(ne); PUT(smearing); PUT(T);
  PUT(ng); PUT(coupling); PUT(init); PUT(labels); PUT(landscape); PUT(lamp); PUT(overlap); PUT(shift);
}
void from_json(const json& j, Problem& x)
{
  x = Problem(); GET(seed); GET(nk); GET(nspin); GET(occ); GET(nb); GET(nmin); GET(nmax); GET(nbvar); GET(ne); GET(smearing); GET(T);
  GET(ng); GET(coupling); GET(init); GET(labels); GET(landscape); GET(lamp); GET(overlap); GET(shift);
}
void to_json(json& j, const Params& x) { j = json::object(); PUT(tol); PUT(kappa); PUT(tau); PUT(maxiter); PUT(restart); PUT(entry); }
void from_json(const json& j, Params& x) { x = Params(); GET(tol); GET(kappa); GET(tau); GET(maxiter); GET(restart); GET(entry); }
void to_json(json& j, const Layout& x) { j = json::object(); PUT(assign); PUT(comm); PUT(order); PUT(stride); PUT(reloc); }
void from_json(const json& j, Layout& x) { x = Layout(); GET(assign); GET(comm); GET(order); GET(stride); GET(reloc); }
void to_json(json& j, const Call& x) { j = json{{"problem", x.p}, {"params", x.a}, {"layout", x.l}}; }
void from_json(const json& j, Call& x) { j.at("problem").get_to(x.p); j.at("params").get_to(x.a); j.at("layout").get_to(x.l); }
void to_json(json& j, const RunSpec& x)
{
  j = json::object(); PUT(nranks); PUT(calls); PUT(faults); PUT(policy); PUT(sseed); PUT(decisions); PUT(perturb); PUT(files); PUT(skip_newton); PUT(reduce_perm); PUT(track_mem);
}
void from_json(const json& j, RunSpec& x)
{
  x = RunSpec(); GET(nranks); GET(calls); GET(faults); GET(policy); GET(sseed); GET(decisions); GET(perturb); GET(files); GET(skip_newton); GET(reduce_perm); GET(track_mem);
}

// ---------------------------------------------------------------- fibers
struct Fiber
{
  ucontext_t ctx;
  enum { ready, blocked, done } state = ready;
  std::function<bool()> pred;
  const char* why = "";
  void* stack = nullptr;
  size_t stacksize = 0;
  char eh[16] = {0};   // saved exception globals
  int prio = 0;
  long stalled_until = 0;
};
static ucontext_t main_ctx;
static char main_eh[16];
static std::vector<Fiber> fibers;
static std::function<void(int)> fiber_body;
static pthread_t main_thread;
static int last_rank = -1;

bool sim_on_main_thread() { return pthread_equal(pthread_self(), main_thread); }
bool sim_in_fiber() { return S && S->current >= 0 && sim_on_main_thread(); }

static void to_scheduler()
{
  int r = S->current;
  void* g = (void*)abi::__cxa_get_globals();
  std::memcpy(fibers[r].eh, g, 16);
  S->current = -1;
  std::memcpy(g, main_eh, 16);
  swapcontext(&fibers[r].ctx, &main_ctx);
}

static void fiber_entry()
{
  int r = S->current;
  fiber_body(r);
  fibers[r].state = Fiber::done;
  to_scheduler();
  abort();
}

void sim_stop(RunEnd e, const std::string& detail)
{
  if (S->end == RunEnd::running) {
    S->end = e;
    S->end_detail = detail;
    S->end_rank = S->current;
    sim_event(S->current, std::string("END ") + runend_name(e) + ": " + detail, 77);
  }
  if (sim_in_fiber()) {
    S->in_lib[S->current] = false;
    to_scheduler();
    abort();
  }
}

void sim_event(int rank, const std::string& what, uint64_t h, bool sched)
{
  S->trace_hash = hcomb(S->trace_hash, hcomb(hstr(what), hcomb(h, rank + 1)));
  if (sched) S->sched_hash = hcomb(S->sched_hash, hcomb(hstr(what), rank + 1));
  static const bool trace = getenv("SIM_TRACE") != nullptr;
  if (trace) S->log.push_back("[" + std::to_string(S->steps) + "] r" + std::to_string(rank) + " " + what);
}

void sim_probe(const std::string& name) { S->probes[name]++; }

bool has_fault(const char* kind)
{
  for (auto& f : S->spec.faults) if (f.kind == kind) return true;
  return false;
}

const Fault* fault_hit(const char* kind, const std::string& target, int rank, int call, long occ)
{
  for (auto& f : S->spec.faults) {
    if (f.kind != kind) continue;
    if (f.rank != -1 && f.rank != rank) continue;
    if (f.call != -1 && f.call != call) continue;
    if (!f.target.empty() && f.target != target) continue;
    if (occ < f.nth || occ >= f.nth + f.count) continue;
    S->fired[f.kind + (f.target.empty() ? "" : ":" + f.target)]++;
    return &f;
  }
  return nullptr;
}

static void advance_clock(int r)
{
  uint64_t h = hcomb(hcomb(S->spec.sseed, r), S->opcount[r]++);
  S->clock[r] += 1000 + (int64_t)(h % 2000000);  // 1 us .. 2 ms per step
}

void sim_yield(const char* why)
{
  if (!sim_in_fiber()) return;
  int r = S->current;
  bool lib = S->in_lib[r];
  S->in_lib[r] = false;
  advance_clock(r);
  fibers[r].why = why;
  S->steps++;
  // crash faults are placed on the global step counter
  if (const Fault* f = fault_hit("crash", "", r, S->rank_call[r], S->steps)) {
    (void)f;
    sim_stop(RunEnd::crashed, std::string("injected crash at ") + why);
  }
  to_scheduler();
  S->in_lib[r] = lib;
}

void sim_wait(const char* why, const std::function<bool()>& pred)
{
  int r = S->current;
  bool lib = S->in_lib[r];
  S->in_lib[r] = false;
  if (!pred()) {
    fibers[r].state = Fiber::blocked;
    fibers[r].pred = pred;
    fibers[r].why = why;
    S->steps++;
    to_scheduler();
  }
  S->in_lib[r] = lib;
}

LibGuard::LibGuard(bool v) : r(S && sim_in_fiber() ? S->current : -1), old(false)
{
  if (r >= 0) { old = S->in_lib[r]; S->in_lib[r] = v; }
}
LibGuard::~LibGuard() { if (r >= 0) S->in_lib[r] = old; }

// ---------------------------------------------------------------- rendezvous
static std::map<int, std::deque<std::shared_ptr<Rendezvous>>> rdv;
static std::map<int, std::map<int, long>> rdv_seq;
static std::map<int, long> rdv_base;

void sim_rendezvous(int commid, const std::vector<int>& members, const std::string& kind, uint64_t sig, void* arg,
                    const std::function<void(Rendezvous&)>& complete)
{
  int r = S->current;
  bool lib = S->in_lib[r];
  S->in_lib[r] = false;
  S->colls[r].push_back({kind, sig, (int)members.size()});
  sim_event(r, "arrive " + kind, sig, true);
  sim_yield(kind.c_str());
  int me = -1;
  for (size_t i = 0; i < members.size(); ++i) if (members[i] == r) me = (int)i;
  if (me < 0) sim_stop(RunEnd::misuse, "rank is not a member of the communicator in " + kind);
  long seq = rdv_seq[commid][r]++;
  auto& q = rdv[commid];
  while ((long)q.size() + rdv_base[commid] <= seq) q.push_back(std::make_shared<Rendezvous>());
  auto R = q[seq - rdv_base[commid]];
  if (R->narrived == 0) {
    R->kind = kind; R->sig = sig; R->members = members;
    R->arrived.assign(members.size(), false);
    R->args.assign(members.size(), nullptr);
  } else if (R->kind != kind || R->sig != sig) {
    sim_stop(RunEnd::mismatch, "rank " + std::to_string(r) + " calls " + kind + " where other ranks call " + R->kind +
                                   (R->kind == kind ? " (different arguments)" : "") + " (operation " + std::to_string(seq) + ")");
  }
  R->arrived[me] = true;
  R->args[me] = arg;
  R->narrived++;
  if (R->narrived == (int)members.size()) {
    int64_t t = 0;
    for (int m : members) t = std::max(t, S->clock[m]);
    for (int m : members) S->clock[m] = t + 5000;
    complete(*R);
    R->complete = true;
  } else {
    sim_wait(R->kind.c_str(), [R]() { return R->complete; });
  }
  sim_event(r, "leave " + kind, sig, true);
  if (++R->nleft == (int)members.size()) {
    while (!q.empty() && q.front()->nleft > 0 && q.front()->nleft == (int)q.front()->members.size()) { q.pop_front(); rdv_base[commid]++; }
  }
  sim_yield("after collective");
  S->in_lib[r] = lib;
}

// ---------------------------------------------------------------- scheduler
static int choose(const std::vector<int>& rd, Rng& rng, std::vector<long>& change_points)
{
  if (rd.size() == 1) return rd[0];
  const std::string& pol = S->spec.policy;
  int c = -1;
  if (pol == "explicit") {
    if (S->dpos < S->spec.decisions.size()) {
      int want = S->spec.decisions[S->dpos++];
      for (int r : rd) if (r == want) c = r;
    }
    if (c < 0) { for (int r : rd) if (r == last_rank) c = r; }
    if (c < 0) c = rd[0];
  } else if (pol == "rr") {
    for (int r : rd) if (r > last_rank) { c = r; break; }
    if (c < 0) c = rd[0];
  } else if (pol == "first") {
    c = rd[0];
  } else if (pol == "starve") {
    int victim = (int)(S->spec.sseed % S->nranks);
    std::vector<int> o;
    for (int r : rd) if (r != victim) o.push_back(r);
    c = o.empty() ? rd[0] : o[rng.below((int)o.size())];
  } else if (pol == "rush") {
    int fav = (int)(S->spec.sseed % S->nranks);
    for (int r : rd) if (r == fav) c = r;
    if (c < 0) c = rd[rng.below((int)rd.size())];
  } else if (pol == "pct") {
    if (!change_points.empty() && S->steps >= change_points.back()) {
      change_points.pop_back();
      if (last_rank >= 0) { int m = 1 << 30; for (auto& f : fibers) m = std::min(m, f.prio); fibers[last_rank].prio = m - 1; }
    }
    c = rd[0];
    for (int r : rd) if (fibers[r].prio > fibers[c].prio) c = r;
  } else {
    c = rd[rng.below((int)rd.size())];
  }
  S->decisions.push_back(c);
  return c;
}

void sim_run(const RunSpec& spec, const std::function<void(int)>& body)
{
  main_thread = pthread_self();
  int n = spec.nranks;
  S = new SimState;
  S->spec = spec;
  S->nranks = n;
  S->rank_call.assign(n, 0);
  S->clock.assign(n, 1700000000ll * 1000000000ll);
  S->clock_off.assign(n, 0);
  S->clock_frozen.assign(n, false);
  S->clock_frozen_at.assign(n, 0);
  S->opcount.assign(n, 0);
  S->colls.resize(n);
  S->out.resize(n);
  S->in_lib.assign(n, false);
  S->results.assign(spec.calls.size(), std::vector<RankResult>(n));
  rdv.clear(); rdv_seq.clear(); rdv_base.clear();
  mpi_reset();
  io_reset();
  for (auto& kv : spec.files) {
    int fd = open(kv.first.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { ssize_t k = ::write(fd, kv.second.data(), kv.second.size()); (void)k; close(fd); }
  }
  if (spec.perturb) mallopt(M_PERTURB, spec.perturb);
  fibers.clear();
  fibers.resize(n);
  fiber_body = body;
  Rng rng(hcomb(spec.sseed, 0x5c4ed));
  std::vector<int> pr(n);
  for (int i = 0; i < n; ++i) pr[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(pr[i], pr[rng.below(i + 1)]);
  std::vector<long> cps;
  for (int i = 0; i < 4; ++i) cps.push_back(rng.below(3000));
  std::sort(cps.rbegin(), cps.rend());
  for (int r = 0; r < n; ++r) {
    Fiber& f = fibers[r];
    f.stacksize = 8 << 20;
    f.stack = mmap(nullptr, f.stacksize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = f.stacksize;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, fiber_entry, 0);
    f.prio = 1000 + pr[r];
  }
  last_rank = -1;
  while (S->end == RunEnd::running) {
    std::vector<int> rd;
    bool alldone = true;
    for (int r = 0; r < n; ++r) {
      Fiber& f = fibers[r];
      if (f.state == Fiber::blocked && f.pred && f.pred()) { f.state = Fiber::ready; f.pred = nullptr; }
      if (f.state != Fiber::done) alldone = false;
      if (f.state == Fiber::ready) rd.push_back(r);
    }
    if (alldone) { S->end = RunEnd::done; break; }
    if (rd.empty()) {
      std::string d;
      for (int r = 0; r < n; ++r)
        d += "rank " + std::to_string(r) + (fibers[r].state == Fiber::done ? " left the call" : std::string(" waits in ") + fibers[r].why) + "; ";
      sim_stop(RunEnd::deadlock, d);
      break;
    }
    if (S->steps > S->maxsteps) { sim_stop(RunEnd::steplimit, "step limit"); break; }
    int c = choose(rd, rng, cps);
    last_rank = c;
    S->current = c;
    void* g = (void*)abi::__cxa_get_globals();
    std::memcpy(main_eh, g, 16);
    std::memcpy(g, fibers[c].eh, 16);
    swapcontext(&main_ctx, &fibers[c].ctx);
  }
  S->current = -1;
}

std::string read_file(const std::string& path, bool* exists)
{
  std::string s;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
  if (exists) *exists = fd >= 0;
  if (fd < 0) return s;
  char buf[65536];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0) s.append(buf, k);
  syscall(SYS_close, fd);
  return s;
}
