// Simulated MPI: the only transport the library sees.
#include "core.hpp"
#include <complex>
#include <cstdio>
#include <deque>
#include <list>
#include <mpi.h>
#include <unistd.h>

namespace {

enum Kind { K_F64, K_F32, K_I32, K_I64, K_U32, K_U64, K_I16, K_U16, K_I8, K_U8, K_BYTE, K_BOOL, K_C128, K_C64, K_DI, K_II };
struct Seg { ptrdiff_t disp; int size; int kind; };
struct TypeObj
{
  std::vector<Seg> map;
  ptrdiff_t extent = 0;
  size_t size = 0;
  bool committed = false, predefined = false, freed = false;
};
struct CommObj { int id; std::vector<int> members; bool freed = false; };
struct ReqObj { bool done = false; std::function<bool()> test; MPI_Status st{}; };
struct Msg { int src, dst, tag, comm; std::vector<char> data; };

std::map<void*, TypeObj> types;
std::map<void*, CommObj> comms;
std::map<void*, MPI_User_function*> user_ops;
std::list<Msg> msgs;
int next_comm = 1;
std::vector<long> commcalls;

void add_basic(void* h, int kind, int size)
{
  TypeObj t;
  t.map = {{0, size, kind}};
  t.extent = size; t.size = size; t.committed = true; t.predefined = true;
  types[h] = t;
}

int me() { return S->current < 0 ? 0 : S->current; }

bool foreign(const char* f, bool blocking)
{
  if (sim_on_main_thread()) return false;
  S->foreign_thread_calls++;
  if (blocking) { S->misuse.push_back(std::string(f) + " called from a thread the library started"); fprintf(stderr, "SIM: %s from foreign thread\n", f); _exit(98); }
  return true;
}

CommObj* comm_of(MPI_Comm c, CommObj& tmp)
{
  if (c == MPI_COMM_SELF) { tmp.id = -(me() + 1); tmp.members = {me()}; return &tmp; }
  auto it = comms.find((void*)c);
  if (it == comms.end() || it->second.freed) return nullptr;
  return &it->second;
}

int bad(const std::string& what)
{
  S->misuse.push_back(what);
  sim_event(me(), "MPI misuse: " + what, 3);
  sim_stop(RunEnd::misuse, what);
  return MPI_ERR_OTHER;
}

TypeObj* type_of(MPI_Datatype d, const char* f)
{
  auto it = types.find((void*)d);
  if (it == types.end()) { bad(std::string(f) + ": invalid datatype"); return nullptr; }
  if (it->second.freed) { bad(std::string(f) + ": datatype used after MPI_Type_free"); return nullptr; }
  if (!it->second.committed) { bad(std::string(f) + ": datatype is not committed"); return nullptr; }
  return &it->second;
}

uint64_t typesig(const TypeObj& t, long count)
{
  // sequence of basic types; homogeneous sequences of the same length are the same signature
  uint64_t h = 0;
  bool homo = true;
  for (auto& s : t.map) { h = hcomb(h, s.kind); if (s.kind != t.map[0].kind) homo = false; }
  if (homo && !t.map.empty()) return hcomb(hcomb(17, t.map[0].kind), count * (long)t.map.size());
  return hcomb(hcomb(h, 5), count);
}

std::vector<char> pack(const void* buf, long count, const TypeObj& t)
{
  std::vector<char> v(t.size * count);
  char* o = v.data();
  for (long i = 0; i < count; ++i)
    for (auto& s : t.map) { std::memcpy(o, (const char*)buf + i * t.extent + s.disp, s.size); o += s.size; }
  return v;
}
void unpack(const char* in, void* buf, long count, const TypeObj& t)
{
  for (long i = 0; i < count; ++i)
    for (auto& s : t.map) { std::memcpy((char*)buf + i * t.extent + s.disp, in, s.size); in += s.size; }
}

template <class T> void red(T* a, const T* b, MPI_Op op)
{
  if (op == MPI_SUM) *a = *a + *b;
  else if (op == MPI_PROD) *a = *a * *b;
  else if (op == MPI_MAX) *a = *b > *a ? *b : *a;
  else if (op == MPI_MIN) *a = *b < *a ? *b : *a;
  else if (op == MPI_LAND) *a = (T)((*a != T(0)) && (*b != T(0)));
  else if (op == MPI_LOR) *a = (T)((*a != T(0)) || (*b != T(0)));
  else if constexpr (std::is_integral<T>::value) {
    if (op == MPI_BAND) *a = *a & *b;
    else if (op == MPI_BOR) *a = *a | *b;
    else if (op == MPI_BXOR) *a = *a ^ *b;
    else bad("reduction operation");
  } else bad("reduction operation");
}
template <class T> void redc(T* a, const T* b, MPI_Op op)
{
  if (op == MPI_SUM) *a = *a + *b;
  else if (op == MPI_PROD) *a = *a * *b;
  else bad("reduction operation on complex");
}

// acc <- acc op in, on packed data
void reduce_packed(std::vector<char>& acc, const std::vector<char>& in, long count, MPI_Datatype dt, const TypeObj& t, MPI_Op op)
{
  auto u = user_ops.find((void*)op);
  if (u != user_ops.end()) {
    std::vector<char> a = in;  // user functions compute inout = in op inout
    int n = (int)count;
    MPI_Datatype d = dt;
    std::vector<char> x = acc;
    u->second(x.data(), a.data(), &n, &d);
    acc = a;
    return;
  }
  size_t off = 0;
  for (long i = 0; i < count; ++i)
    for (auto& s : t.map) {
      char* a = acc.data() + off;
      const char* b = in.data() + off;
      switch (s.kind) {
        case K_F64: red((double*)a, (const double*)b, op); break;
        case K_F32: red((float*)a, (const float*)b, op); break;
        case K_I32: red((int*)a, (const int*)b, op); break;
        case K_I64: red((int64_t*)a, (const int64_t*)b, op); break;
        case K_U32: red((uint32_t*)a, (const uint32_t*)b, op); break;
        case K_U64: red((uint64_t*)a, (const uint64_t*)b, op); break;
        case K_I16: red((int16_t*)a, (const int16_t*)b, op); break;
        case K_U16: red((uint16_t*)a, (const uint16_t*)b, op); break;
        case K_I8: red((int8_t*)a, (const int8_t*)b, op); break;
        case K_U8: case K_BYTE: red((uint8_t*)a, (const uint8_t*)b, op); break;
        case K_BOOL: red((uint8_t*)a, (const uint8_t*)b, op); break;
        case K_C128: redc((std::complex<double>*)a, (const std::complex<double>*)b, op); break;
        case K_C64: redc((std::complex<float>*)a, (const std::complex<float>*)b, op); break;
        default: bad("reduction type");
      }
      off += s.size;
    }
}

uint64_t opid(MPI_Op op)
{
  const MPI_Op k[] = {MPI_SUM, MPI_PROD, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_BXOR};
  for (int i = 0; i < 9; ++i) if (k[i] == op) return i + 1;
  return 99;
}

// communication fault?
bool comm_fault(const char* f)
{
  if (S->current < 0) return false;
  int r = me();
  long n = commcalls[r]++;
  if (const Fault* fl = fault_hit("mpi_error", "", r, S->rank_call[r], n)) {
    (void)fl;
    sim_event(r, std::string("MPI error injected in ") + f, 9);
    return true;
  }
  return false;
}

struct CollArgs
{
  const void* send = nullptr; long scount = 0; const TypeObj* st = nullptr;
  void* recv = nullptr; long rcount = 0; const TypeObj* rt = nullptr; MPI_Datatype rdt{};
  const int* counts = nullptr; const int* displs = nullptr;
  MPI_Op op{}; int root = 0; bool inplace = false;
};

uint64_t cnthash(const int* c, int n) { uint64_t h = 3; for (int i = 0; i < n; ++i) h = hcomb(h, c[i]); return h; }

}  // namespace

static void init_types();
void mpi_reset()
{
  types.clear(); comms.clear(); user_ops.clear(); msgs.clear();
  next_comm = 1;
  CommObj w;
  w.id = 0;
  for (int i = 0; i < S->nranks; ++i) w.members.push_back(i);
  comms[(void*)MPI_COMM_WORLD] = w;
  commcalls.assign(S->nranks, 0);
  init_types();
}

static void init_types()
{
#define B(T, K, N) add_basic((void*)T, K, N)
  B(MPI_DOUBLE, K_F64, 8); B(MPI_FLOAT, K_F32, 4); B(MPI_INT, K_I32, 4); B(MPI_LONG, K_I64, 8); B(MPI_LONG_LONG, K_I64, 8);
  B(MPI_UNSIGNED, K_U32, 4); B(MPI_UNSIGNED_LONG, K_U64, 8); B(MPI_UNSIGNED_LONG_LONG, K_U64, 8); B(MPI_SHORT, K_I16, 2);
  B(MPI_UNSIGNED_SHORT, K_U16, 2); B(MPI_CHAR, K_I8, 1); B(MPI_SIGNED_CHAR, K_I8, 1); B(MPI_UNSIGNED_CHAR, K_U8, 1); B(MPI_BYTE, K_BYTE, 1);
  B(MPI_C_BOOL, K_BOOL, 1); B(MPI_CXX_BOOL, K_BOOL, 1); B(MPI_C_DOUBLE_COMPLEX, K_C128, 16); B(MPI_CXX_DOUBLE_COMPLEX, K_C128, 16);
  B(MPI_C_FLOAT_COMPLEX, K_C64, 8); B(MPI_CXX_FLOAT_COMPLEX, K_C64, 8); B(MPI_INT32_T, K_I32, 4); B(MPI_INT64_T, K_I64, 8); B(MPI_UINT32_T, K_U32, 4);
  B(MPI_UINT64_T, K_U64, 8); B(MPI_INT8_T, K_I8, 1); B(MPI_UINT8_T, K_U8, 1); B(MPI_INT16_T, K_I16, 2); B(MPI_UINT16_T, K_U16, 2);
  B(MPI_DOUBLE_INT, K_DI, 12); B(MPI_2INT, K_II, 8); B(MPI_DOUBLE_COMPLEX, K_C128, 16); B(MPI_DOUBLE_PRECISION, K_F64, 8); B(MPI_INTEGER, K_I32, 4);
#undef B
  types[(void*)MPI_DOUBLE_INT].map = {{0, 8, K_F64}, {8, 4, K_I32}};
  types[(void*)MPI_DOUBLE_INT].extent = 16;
  types[(void*)MPI_2INT].map = {{0, 4, K_I32}, {4, 4, K_I32}};
  types[(void*)MPI_2INT].extent = 8;
}

std::vector<long> mpi_commcalls() { return commcalls; }
int world_comm_id() { return 0; }
void comm_members(void* c, int& id, std::vector<int>& members, int& myindex)
{
  CommObj tmp;
  CommObj* o = comm_of((MPI_Comm)c, tmp);
  id = o->id; members = o->members; myindex = -1;
  for (size_t i = 0; i < members.size(); ++i) if (members[i] == me()) myindex = (int)i;
}
static void* new_comm(const std::vector<int>& members)
{
  CommObj o;
  o.id = next_comm++;
  o.members = members;
  void* h = malloc(64);
  comms[h] = o;
  return h;
}
void* make_dup_comm() { return new_comm(comms[(void*)MPI_COMM_WORLD].members); }
void* make_reversed_comm()
{
  auto m = comms[(void*)MPI_COMM_WORLD].members;
  std::reverse(m.begin(), m.end());
  return new_comm(m);
}

extern "C" {

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int, int* p) { if (p) *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Is_thread_main(int* f) { *f = sim_on_main_thread(); return MPI_SUCCESS; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* l) { *l = sprintf(s, "simulated MPI error %d", e); return MPI_SUCCESS; }
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* e) { *e = MPI_ERRORS_ARE_FATAL; return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler*) { return MPI_SUCCESS; }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Topo_test(MPI_Comm, int* s) { *s = MPI_UNDEFINED; return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return MPI_SUCCESS; }
double MPI_Wtime() { return sim_in_fiber() ? S->clock[me()] * 1e-9 : 0.0; }
double MPI_Wtick() { return 1e-9; }

int MPI_Abort(MPI_Comm, int code)
{
  if (!S) _exit(97);
  foreign("MPI_Abort", true);
  sim_stop(RunEnd::aborted, "MPI_Abort(" + std::to_string(code) + ")");
  return MPI_SUCCESS;
}

int MPI_Comm_rank(MPI_Comm c, int* r)
{
  if (!S) { *r = 0; return MPI_SUCCESS; }
  foreign("MPI_Comm_rank", false);
  if (c != MPI_COMM_WORLD && comm_fault("MPI_Comm_rank")) return MPI_ERR_OTHER;   // the logger asks for its rank of the world without looking at the answer
  CommObj t, *o = comm_of(c, t);
  if (!o) return MPI_ERR_COMM;
  for (size_t i = 0; i < o->members.size(); ++i) if (o->members[i] == me()) { *r = (int)i; return MPI_SUCCESS; }
  return MPI_ERR_COMM;
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
  if (!S) { *n = 1; return MPI_SUCCESS; }
  foreign("MPI_Comm_size", false);
  if (comm_fault("MPI_Comm_size")) return MPI_ERR_OTHER;
  CommObj t, *o = comm_of(c, t);
  if (!o) return MPI_ERR_COMM;
  *n = (int)o->members.size();
  return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res)
{
  foreign("MPI_Comm_compare", false);
  if (comm_fault("MPI_Comm_compare")) return MPI_ERR_OTHER;
  CommObj t1, t2, *o1 = comm_of(a, t1), *o2 = comm_of(b, t2);
  if (!o1 || !o2) return MPI_ERR_COMM;
  if (a == b) *res = MPI_IDENT;
  else if (o1->members == o2->members) *res = MPI_CONGRUENT;
  else { auto x = o1->members, y = o2->members; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *res = x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
  return MPI_SUCCESS;
}

static int coll(MPI_Comm c, const char* name, uint64_t sig, CollArgs& a, const std::function<void(Rendezvous&)>& f)
{
  foreign(name, true);
  LibGuard lg(false);
  CommObj t, *o = comm_of(c, t);
  if (!o) return bad(std::string(name) + ": invalid communicator");
  if (comm_fault(name)) return MPI_ERR_OTHER;
  int id = o->id;
  std::vector<int> m = o->members;
  sim_rendezvous(id, m, name, sig, &a, f);
  return MPI_SUCCESS;
}

int MPI_Barrier(MPI_Comm c) { CollArgs a; return coll(c, "MPI_Barrier", 1, a, [](Rendezvous&) {}); }

int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
  LibGuard lg(false);
  TypeObj* t = type_of(dt, "MPI_Allreduce");
  if (!t) return MPI_ERR_TYPE;
  CollArgs a;
  a.inplace = s == MPI_IN_PLACE;
  a.send = a.inplace ? r : s; a.recv = r; a.scount = n; a.st = t; a.rdt = dt; a.op = op;
  return coll(c, "MPI_Allreduce", hcomb(typesig(*t, n), opid(op)), a, [n, dt, op](Rendezvous& R) {
    std::vector<char> acc;
    std::vector<size_t> ord(R.args.size());
    for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    if (S->spec.reduce_perm) for (size_t i = ord.size(); i-- > 1;) std::swap(ord[i], ord[hcomb(S->spec.reduce_perm, i) % (i + 1)]);
    for (size_t i = 0; i < R.args.size(); ++i) {
      auto* x = (CollArgs*)R.args[ord[i]];
      auto v = pack(x->send, n, *x->st);
      if (i == 0) acc = v; else reduce_packed(acc, v, n, dt, *x->st, op);
    }
    for (auto* p : R.args) { auto* x = (CollArgs*)p; unpack(acc.data(), x->recv, n, *x->st); }
  });
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c)
{
  LibGuard lg(false);
  TypeObj* t = type_of(dt, "MPI_Reduce");
  if (!t) return MPI_ERR_TYPE;
  CollArgs a;
  a.inplace = s == MPI_IN_PLACE;
  a.send = a.inplace ? r : s; a.recv = r; a.scount = n; a.st = t; a.op = op;
  return coll(c, "MPI_Reduce", hcomb(hcomb(typesig(*t, n), opid(op)), root), a, [n, dt, op, root](Rendezvous& R) {
    std::vector<char> acc;
    for (size_t i = 0; i < R.args.size(); ++i) {
      auto* x = (CollArgs*)R.args[i];
      auto v = pack(x->send, n, *x->st);
      if (i == 0) acc = v; else reduce_packed(acc, v, n, dt, *x->st, op);
    }
    auto* x = (CollArgs*)R.args[root];
    unpack(acc.data(), x->recv, n, *x->st);
  });
}
static int scan_impl(const char* name, bool excl, const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
  LibGuard lg(false);
  TypeObj* t = type_of(dt, name);
  if (!t) return MPI_ERR_TYPE;
  CollArgs a;
  a.inplace = s == MPI_IN_PLACE;
  a.send = a.inplace ? r : s; a.recv = r; a.scount = n; a.st = t;
  return coll(c, name, hcomb(typesig(*t, n), opid(op)), a, [n, dt, op, excl](Rendezvous& R) {
    std::vector<std::vector<char>> in;
    for (auto* p : R.args) { auto* x = (CollArgs*)p; in.push_back(pack(x->send, n, *x->st)); }
    std::vector<char> acc = in[0];
    for (size_t i = 0; i < R.args.size(); ++i) {
      auto* x = (CollArgs*)R.args[i];
      if (excl) { if (i > 0) unpack(acc.data(), x->recv, n, *x->st); if (i > 0) reduce_packed(acc, in[i], n, dt, *x->st, op); }
      else { if (i > 0) reduce_packed(acc, in[i], n, dt, *x->st, op); unpack(acc.data(), x->recv, n, *x->st); }
    }
  });
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { return scan_impl("MPI_Scan", false, s, r, n, dt, op, c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { return scan_impl("MPI_Exscan", true, s, r, n, dt, op, c); }

int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
  LibGuard lg(false);
  TypeObj* t = type_of(dt, "MPI_Bcast");
  if (!t) return MPI_ERR_TYPE;
  CollArgs a;
  a.recv = b; a.st = t; a.scount = n;
  return coll(c, "MPI_Bcast", hcomb(typesig(*t, n), root), a, [n, root](Rendezvous& R) {
    auto* x = (CollArgs*)R.args[root];
    auto v = pack(x->recv, n, *x->st);
    for (size_t i = 0; i < R.args.size(); ++i) if ((int)i != root) { auto* y = (CollArgs*)R.args[i]; unpack(v.data(), y->recv, n, *y->st); }
  });
}

// gather family; counts == null: equal counts.  root < 0: all receive
static int gather_impl(const char* name, const void* s, int sn, MPI_Datatype sdt, void* r, int rn, const int* counts, const int* displs, MPI_Datatype rdt,
                       int root, MPI_Comm c)
{
  LibGuard lg(false);
  CommObj tmp, *o = comm_of(c, tmp);
  if (!o) return bad(std::string(name) + ": invalid communicator");
  int np = (int)o->members.size(), my = -1;
  for (int i = 0; i < np; ++i) if (o->members[i] == me()) my = i;
  bool isroot = root < 0 || root == my;
  CollArgs a;
  a.inplace = s == MPI_IN_PLACE;
  uint64_t sig = hcomb(11, root + 7);
  if (isroot) {
    a.rt = type_of(rdt, name);
    if (!a.rt) return MPI_ERR_TYPE;
    a.recv = r; a.counts = counts; a.displs = displs; a.rcount = rn;
  }
  if (!a.inplace) {
    a.st = type_of(sdt, name);
    if (!a.st) return MPI_ERR_TYPE;
    a.send = s; a.scount = sn;
  } else {
    if (!isroot) return bad(std::string(name) + ": MPI_IN_PLACE on a non-root rank");
    a.st = a.rt;
    a.scount = counts ? counts[my] : rn;
    a.send = (char*)r + (long)(counts ? displs[my] : my * rn) * a.rt->extent;
  }
  if (root < 0) {
    if (counts) {
      uint64_t h = cnthash(counts, np);
      sig = hcomb(sig, hcomb(h, typesig(*a.rt, 1)));
    } else sig = hcomb(sig, typesig(*a.rt, rn));
  }
  return coll(c, name, sig, a, [root, name](Rendezvous& R) {
    std::vector<std::vector<char>> in;
    std::vector<uint64_t> sg;
    for (auto* p : R.args) { auto* x = (CollArgs*)p; in.push_back(pack(x->send, x->scount, *x->st)); sg.push_back(typesig(*x->st, x->scount)); }
    for (size_t q = 0; q < R.args.size(); ++q) {
      if (root >= 0 && (int)q != root) continue;
      auto* x = (CollArgs*)R.args[q];
      for (size_t i = 0; i < R.args.size(); ++i) {
        long n = x->counts ? x->counts[i] : x->rcount;
        long d = x->counts ? x->displs[i] : (long)i * x->rcount;
        if (typesig(*x->rt, n) != sg[i])
          sim_stop(RunEnd::mismatch, std::string(name) + ": rank " + std::to_string(i) + " sends another amount or type of data than rank " +
                                         std::to_string(q) + " expects");
        if (q == i && x->inplace) continue;
        unpack(in[i].data(), (char*)x->recv + d * x->rt->extent, n, *x->rt);
      }
    }
  });
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{ return gather_impl("MPI_Allgather", s, sn, st, r, rn, nullptr, nullptr, rt, -1, c); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* d, MPI_Datatype rt, MPI_Comm c)
{ return gather_impl("MPI_Allgatherv", s, sn, st, r, 0, rc, d, rt, -1, c); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ return gather_impl("MPI_Gather", s, sn, st, r, rn, nullptr, nullptr, rt, root, c); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* d, MPI_Datatype rt, int root, MPI_Comm c)
{ return gather_impl("MPI_Gatherv", s, sn, st, r, 0, rc, d, rt, root, c); }

static int scatter_impl(const char* name, const void* s, int sn, const int* counts, const int* displs, MPI_Datatype sdt, void* r, int rn, MPI_Datatype rdt,
                        int root, MPI_Comm c)
{
  LibGuard lg(false);
  CommObj tmp, *o = comm_of(c, tmp);
  if (!o) return bad(std::string(name) + ": invalid communicator");
  int my = -1;
  for (size_t i = 0; i < o->members.size(); ++i) if (o->members[i] == me()) my = (int)i;
  CollArgs a;
  if (my == root) {
    a.st = type_of(sdt, name);
    if (!a.st) return MPI_ERR_TYPE;
    a.send = s; a.scount = sn; a.counts = counts; a.displs = displs;
  }
  a.inplace = r == MPI_IN_PLACE;
  if (!a.inplace) { a.rt = type_of(rdt, name); if (!a.rt) return MPI_ERR_TYPE; a.recv = r; a.rcount = rn; }
  return coll(c, name, hcomb(13, root), a, [root, name](Rendezvous& R) {
    auto* x = (CollArgs*)R.args[root];
    for (size_t i = 0; i < R.args.size(); ++i) {
      auto* y = (CollArgs*)R.args[i];
      if (y->inplace) continue;
      long n = x->counts ? x->counts[i] : x->scount, d = x->counts ? x->displs[i] : (long)i * x->scount;
      if (typesig(*x->st, n) != typesig(*y->rt, y->rcount)) sim_stop(RunEnd::mismatch, std::string(name) + ": amounts or types differ");
      auto v = pack((const char*)x->send + d * x->st->extent, n, *x->st);
      unpack(v.data(), y->recv, y->rcount, *y->rt);
    }
  });
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ return scatter_impl("MPI_Scatter", s, sn, nullptr, nullptr, st, r, rn, rt, root, c); }
int MPI_Scatterv(const void* s, const int* cnt, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ return scatter_impl("MPI_Scatterv", s, 0, cnt, d, st, r, rn, rt, root, c); }

int MPI_Alltoall(const void* s, int sn, MPI_Datatype sdt, void* r, int rn, MPI_Datatype rdt, MPI_Comm c)
{
  LibGuard lg(false);
  TypeObj* rt = type_of(rdt, "MPI_Alltoall");
  if (!rt) return MPI_ERR_TYPE;
  CollArgs a;
  a.inplace = s == MPI_IN_PLACE;
  a.send = a.inplace ? r : s; a.scount = a.inplace ? rn : sn; a.st = a.inplace ? rt : type_of(sdt, "MPI_Alltoall"); a.recv = r; a.rcount = rn; a.rt = rt;
  return coll(c, "MPI_Alltoall", typesig(*rt, rn), a, [](Rendezvous& R) {
    size_t n = R.args.size();
    std::vector<std::vector<std::vector<char>>> in(n);
    for (size_t i = 0; i < n; ++i) { auto* x = (CollArgs*)R.args[i]; for (size_t q = 0; q < n; ++q) in[i].push_back(pack((const char*)x->send + (long)q * x->scount * x->st->extent, x->scount, *x->st)); }
    for (size_t q = 0; q < n; ++q) { auto* x = (CollArgs*)R.args[q]; for (size_t i = 0; i < n; ++i) unpack(in[i][q].data(), (char*)x->recv + (long)i * x->rcount * x->rt->extent, x->rcount, *x->rt); }
  });
}

// non-blocking collectives complete at once (the rendezvous happens at the call)
static int done_request(int rc, MPI_Request* q) { *q = MPI_REQUEST_NULL; return rc; }
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c, MPI_Request* q) { return done_request(MPI_Allreduce(s, r, n, dt, op, c), q); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { return done_request(MPI_Barrier(c), q); }
int MPI_Ibcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c, MPI_Request* q) { return done_request(MPI_Bcast(b, n, dt, root, c), q); }
int MPI_Iallgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { return done_request(MPI_Allgather(s, sn, st, r, rn, rt, c), q); }
int MPI_Iallgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* d, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { return done_request(MPI_Allgatherv(s, sn, st, r, rc, d, rt, c), q); }

// ---------------------------------------------------------------- point to point
int MPI_Send(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c)
{
  foreign("MPI_Send", true);
  LibGuard lg(false);
  TypeObj* t = type_of(dt, "MPI_Send");
  CommObj tmp, *o = comm_of(c, tmp);
  if (!t || !o) return MPI_ERR_COMM;
  if (comm_fault("MPI_Send")) return MPI_ERR_OTHER;
  if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
  int my = 0;
  for (size_t i = 0; i < o->members.size(); ++i) if (o->members[i] == me()) my = (int)i;
  msgs.push_back({my, o->members[dst], tag, o->id, pack(b, n, *t)});
  sim_event(me(), "send", hcomb(dst, tag), true);
  sim_yield("MPI_Send");
  return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, dt, dst, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status* st)
{
  foreign("MPI_Recv", true);
  LibGuard lg(false);
  TypeObj* t = type_of(dt, "MPI_Recv");
  CommObj tmp, *o = comm_of(c, tmp);
  if (!t || !o) return MPI_ERR_COMM;
  if (comm_fault("MPI_Recv")) return MPI_ERR_OTHER;
  if (src == MPI_PROC_NULL) return MPI_SUCCESS;
  int id = o->id, r = me();
  auto find = [=]() {
    for (auto it = msgs.begin(); it != msgs.end(); ++it)
      if (it->dst == r && it->comm == id && (src == MPI_ANY_SOURCE || it->src == src) && (tag == MPI_ANY_TAG || it->tag == tag)) return it;
    return msgs.end();
  };
  sim_yield("MPI_Recv");
  sim_wait("MPI_Recv", [=]() { return find() != msgs.end(); });
  auto it = find();
  long cnt = t->size ? (long)(it->data.size() / t->size) : 0;
  if (cnt > n) return bad("MPI_Recv: message truncated");
  unpack(it->data.data(), b, cnt, *t);
  if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = it->src; st->MPI_TAG = it->tag; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = it->data.size(); }
  msgs.erase(it);
  sim_event(r, "recv", hcomb(src, tag), true);
  return MPI_SUCCESS;
}
struct PendingRecv { void* b; int n; MPI_Datatype dt; int src, tag; MPI_Comm c; };
static std::map<void*, PendingRecv> pending;
int MPI_Isend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* q) { return done_request(MPI_Send(b, n, dt, dst, tag, c), q); }
int MPI_Irecv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request* q)
{
  LibGuard lg(false);
  void* h = malloc(16);
  pending[h] = {b, n, dt, src, tag, c};
  S->live_requests++;
  *q = (MPI_Request)h;
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
  LibGuard lg(false);
  if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
  auto it = pending.find((void*)*q);
  if (it == pending.end()) return bad("MPI_Wait: invalid request");
  PendingRecv p = it->second;
  pending.erase(it);
  S->live_requests--;
  *q = MPI_REQUEST_NULL;
  return MPI_Recv(p.b, p.n, p.dt, p.src, p.tag, p.c, st);
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
  for (int i = 0; i < n; ++i) { int e = MPI_Wait(q + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); if (e) return e; }
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s)
{
  int e = MPI_Send(sb, sn, st, dst, stag, c);
  return e ? e : MPI_Recv(rb, rn, rt, src, rtag, c, s);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype dt, int* n) { TypeObj* t = type_of(dt, "MPI_Get_count"); *n = t && t->size ? (int)(st->_ucount / t->size) : 0; return MPI_SUCCESS; }

// ---------------------------------------------------------------- communicators
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n)
{
  CollArgs a;
  struct X { MPI_Comm* out; } x{n};
  LibGuard lg(false);
  foreign("MPI_Comm_dup", true);
  CommObj t, *o = comm_of(c, t);
  if (!o) return bad("MPI_Comm_dup: invalid communicator");
  if (comm_fault("MPI_Comm_dup")) return MPI_ERR_OTHER;
  std::vector<int> m = o->members;
  sim_rendezvous(o->id, m, "MPI_Comm_dup", 1, &x, [m](Rendezvous& R) {
    void* h = new_comm(m);
    S->live_comms++;
    for (auto* p : R.args) *((X*)p)->out = (MPI_Comm)h;
  });
  return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n)
{
  LibGuard lg(false);
  foreign("MPI_Comm_split", true);
  struct X { int color, key; MPI_Comm* out; } x{color, key, n};
  CommObj t, *o = comm_of(c, t);
  if (!o) return bad("MPI_Comm_split: invalid communicator");
  if (comm_fault("MPI_Comm_split")) return MPI_ERR_OTHER;
  std::vector<int> m = o->members;
  sim_rendezvous(o->id, m, "MPI_Comm_split", 1, &x, [m](Rendezvous& R) {
    std::map<int, std::vector<std::pair<int, int>>> g;
    for (size_t i = 0; i < R.args.size(); ++i) { auto* y = (X*)R.args[i]; if (y->color != MPI_UNDEFINED) g[y->color].push_back({y->key, (int)i}); else *y->out = MPI_COMM_NULL; }
    for (auto& kv : g) {
      std::stable_sort(kv.second.begin(), kv.second.end());
      std::vector<int> mm;
      for (auto& e : kv.second) mm.push_back(m[e.second]);
      void* h = new_comm(mm);
      S->live_comms++;
      for (auto& e : kv.second) *((X*)R.args[e.second])->out = (MPI_Comm)h;
    }
  });
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c)
{
  LibGuard lg(false);
  auto it = comms.find((void*)*c);
  if (it == comms.end() || it->second.freed || *c == MPI_COMM_WORLD) return bad("MPI_Comm_free: invalid communicator");
  struct X { MPI_Comm* c; } x{c};
  int id = it->second.id;
  std::vector<int> m = it->second.members;
  void* h = (void*)*c;
  sim_rendezvous(id, m, "MPI_Comm_free", 1, &x, [h](Rendezvous&) { comms[h].freed = true; S->live_comms--; });
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}

// ---------------------------------------------------------------- datatypes
static int new_type(TypeObj t, MPI_Datatype* out)
{
  void* h = malloc(64);
  types[h] = t;
  S->live_types++;
  *out = (MPI_Datatype)h;
  return MPI_SUCCESS;
}
static void finish(TypeObj& t, bool align)
{
  ptrdiff_t hi = 0; int al = 1;
  t.size = 0;
  for (auto& s : t.map) {
    hi = std::max(hi, s.disp + s.size);
    t.size += s.size;
    int a = s.kind == K_C128 ? 8 : (s.size > 8 ? 8 : s.size);
    al = std::max(al, a);
  }
  t.extent = align ? (hi + al - 1) / al * al : hi;
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* ty, MPI_Datatype* out)
{
  foreign("MPI_Type_create_struct", true);
  LibGuard lg(false);
  if (comm_fault("MPI_Type_create_struct")) return MPI_ERR_OTHER;
  TypeObj t;
  for (int i = 0; i < n; ++i) {
    auto it = types.find((void*)ty[i]);
    if (it == types.end() || it->second.freed) return bad("MPI_Type_create_struct: invalid datatype");
    TypeObj e = it->second;
    for (int b = 0; b < bl[i]; ++b)
      for (auto s : e.map) t.map.push_back({s.disp + d[i] + b * e.extent, s.size, s.kind});
  }
  finish(t, true);
  sim_yield("MPI_Type_create_struct");
  return new_type(t, out);
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* out)
{
  LibGuard lg(false);
  if (comm_fault("MPI_Type_contiguous")) return MPI_ERR_OTHER;
  auto it = types.find((void*)o);
  if (it == types.end()) return bad("MPI_Type_contiguous: invalid datatype");
  TypeObj e = it->second, t;
  for (int b = 0; b < n; ++b) for (auto s : e.map) t.map.push_back({s.disp + b * e.extent, s.size, s.kind});
  finish(t, false);
  t.extent = n * e.extent;
  return new_type(t, out);
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype* out)
{
  LibGuard lg(false);
  auto it = types.find((void*)o);
  if (it == types.end()) return bad("MPI_Type_vector: invalid datatype");
  TypeObj e = it->second, t;
  for (int i = 0; i < n; ++i) for (int b = 0; b < bl; ++b) for (auto s : e.map) t.map.push_back({s.disp + (ptrdiff_t)(i * stride + b) * e.extent, s.size, s.kind});
  finish(t, false);
  return new_type(t, out);
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint, MPI_Aint ext, MPI_Datatype* out)
{
  LibGuard lg(false);
  auto it = types.find((void*)o);
  if (it == types.end()) return bad("MPI_Type_create_resized: invalid datatype");
  TypeObj t = it->second;
  t.predefined = false; t.committed = false; t.freed = false; t.extent = ext;
  return new_type(t, out);
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* out)
{
  LibGuard lg(false);
  auto it = types.find((void*)o);
  if (it == types.end()) return bad("MPI_Type_dup: invalid datatype");
  TypeObj t = it->second;
  t.predefined = false;
  return new_type(t, out);
}
int MPI_Type_commit(MPI_Datatype* d)
{
  LibGuard lg(false);
  if (comm_fault("MPI_Type_commit")) return MPI_ERR_OTHER;
  auto it = types.find((void*)*d);
  if (it == types.end() || it->second.freed) return bad("MPI_Type_commit: invalid datatype");
  it->second.committed = true;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* d)
{
  LibGuard lg(false);
  auto it = types.find((void*)*d);
  if (it == types.end() || it->second.freed || it->second.predefined) return bad("MPI_Type_free: invalid datatype");
  it->second.freed = true;
  S->live_types--;
  *d = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype d, int* n) { auto it = types.find((void*)d); if (it == types.end()) return MPI_ERR_TYPE; *n = (int)it->second.size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint* lb, MPI_Aint* e) { auto it = types.find((void*)d); if (it == types.end()) return MPI_ERR_TYPE; *lb = 0; *e = it->second.extent; return MPI_SUCCESS; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* op) { LibGuard lg(false); void* h = malloc(16); user_ops[h] = f; *op = (MPI_Op)h; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op* op) { LibGuard lg(false); user_ops.erase((void*)*op); *op = MPI_OP_NULL; return MPI_SUCCESS; }

}  // extern "C"
