// P12 Owned resources are released exactly once, borrowed ones never
//@ src: src/communication/communicator.cpp src/communication/communicator_impl.cpp src/communication/datatypes.cpp
//@ variants: Z=double | Z=float | Z=std::complex<float> | Z=std::complex<double> | Z=int
//@ flags: -DOMPI_SKIP_MPICXX
#include <mpi.h>
#define VERIF_DECL_ONLY
#include <umpire/Allocator.hpp>
// Reference resources: every creation gets a fresh identifier, every release must name a live one.
namespace res {
inline long created, released, bad;
inline long live;
static long make() { live |= 1L << created; return created++; }
static void drop(long k) {
  if (k < 0 || k >= created || !(live >> k & 1)) ++bad;
  else live &= ~(1L << k), ++released;
}
static void reset() { created = released = bad = live = 0; }
static bool clean(long n) { return bad == 0 && live == 0 && created == n && released == n; }
static bool alive(long k) { return live >> k & 1; }
constexpr long type_base = 0x70000, comm_base = 0x90000, mem_base = 0x1000000;
static long idof(MPI_Datatype t) { return (reinterpret_cast<long>(t) - type_base) / 64; }
static long idof(MPI_Comm c) { return (reinterpret_cast<long>(c) - comm_base) / 64; }
}
extern "C" {
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype* r) { *r = reinterpret_cast<MPI_Datatype>(res::type_base + 64 * res::make()); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype*) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) { res::drop(res::idof(*t)); *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* r) { *r = reinterpret_cast<MPI_Comm>(res::comm_base + 64 * res::make()); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { res::drop(res::idof(*c)); *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = 4; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* s) { *s = 1; return MPI_SUCCESS; }
}
namespace umpire {
void* Allocator::allocate(std::size_t) { return reinterpret_cast<void*>(res::mem_base * (1 + res::make())); }
void Allocator::deallocate(void* p) { if (p) res::drop(reinterpret_cast<long>(p) / res::mem_base - 1); }
}
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/type_handler.h>
#include <dlaf/memory/memory_view.h>
namespace dlaf::memory::internal {
static umpire::Allocator alloc;
umpire::Allocator& getUmpireHostAllocator() { return alloc; }
}
using namespace dlaf;
using H = comm::internal::type_handler<Z>;
//@ def T = include/dlaf/communication/type_handler.h: type_handler
//@ def C = src/communication/communicator_impl.cpp, include/dlaf/communication/communicator.h: Communicator
//@ def M = include/dlaf/memory/memory_chunk.h: MemoryChunk
//@ def V = include/dlaf/memory/memory_view.h: MemoryView
//@ def I = n=400 ; initial=1 ; unroll=6
static H make(bool owner) { return owner ? H(2, 3, 5) : H(); }
//@ law type_scope ; about: $T ; dom: a=bool ; $I
extern "C" bool law_type_scope(bool a) {
  res::reset();
  bool ok;
  {
    H h = make(a);
    ok = static_cast<bool>(h) == a && (!a || res::alive(res::idof(static_cast<MPI_Datatype>(h))));
  }
  return ok && res::clean(a);
}
//@ law type_move ; about: $T: move construction ; dom: a=bool, k=0..2 ; $I
extern "C" bool law_type_move(bool a, int k) {
  res::reset();
  bool ok;
  {
    H h = make(a);
    const MPI_Datatype t = h;
    H g(std::move(h));
    ok = static_cast<MPI_Datatype>(g) == t && !static_cast<bool>(h) && static_cast<bool>(g) == a;
    if (k == 1) { H f(std::move(g)); ok = ok && static_cast<MPI_Datatype>(f) == t; }
    if (k == 2) { H f(std::move(h)); ok = ok && !static_cast<bool>(f); }
  }
  return ok && res::clean(a);
}
//@ law type_assign ; about: $T: move assignment ; dom: a=bool, b=bool, c=bool, k=0..3 ; $I
extern "C" bool law_type_assign(bool a, bool b, bool c, int k) {
  res::reset();
  bool ok;
  {
    H h = make(a), g = make(b);
    const MPI_Datatype t = g;
    h = std::move(g);
    ok = static_cast<MPI_Datatype>(h) == t && static_cast<bool>(h) == b && res::released == a && !static_cast<bool>(g);
    if (k == 1) g = make(c);
    if (k == 2) h = make(c);
    if (k == 3) { H f = make(c); f = std::move(h); h = std::move(f); ok = ok && static_cast<MPI_Datatype>(h) == t; }
  }
  return ok && res::clean(long(a) + b + (k ? c : 0));
}
//@ law type_self ; about: $T: move assignment from itself ; dom: a=bool ; $I
extern "C" bool law_type_self(bool a) {
  res::reset();
  {
    H h = make(a);
    H& r = h;
    h = std::move(r);
  }
  return res::clean(a);
}
//@ law type_swap ; about: $T: exchange of two handles ; dom: a=bool, b=bool ; $I
extern "C" bool law_type_swap(bool a, bool b) {
  res::reset();
  bool ok;
  {
    H h = make(a), g = make(b);
    const MPI_Datatype t = h, u = g;
    std::swap(h, g);
    ok = static_cast<MPI_Datatype>(h) == u && static_cast<MPI_Datatype>(g) == t && res::released == 0;
  }
  return ok && res::clean(long(a) + b);
}
using Msg = comm::Message<common::DataDescriptor<Z>>;
static common::DataDescriptor<Z> data(Z* p, bool strided) { return strided ? common::DataDescriptor<Z>(p, 2, 3, 5) : common::DataDescriptor<Z>(p, 6); }
//@ law message ; about: include/dlaf/communication/message.h: Message: move construction and assignment ; dom: p=ptr, a=bool, b=bool, k=0..2 ; $I
extern "C" bool law_message(Z* p, bool a, bool b, int k) {
  res::reset();
  bool ok = true;
  {
    Msg m = comm::make_message(data(p, a));
    const MPI_Datatype t = m.mpi_type();
    const int n = m.count();
    if (k == 0) {
      Msg l(std::move(m));
      ok = l.mpi_type() == t && l.count() == n && l.data() == p;
    }
    else {
      Msg l = comm::make_message(data(p, b));
      l = std::move(m);
      ok = l.mpi_type() == t && l.count() == n && l.data() == p;
      if (k == 2) {
        m = std::move(l);
        ok = ok && m.mpi_type() == t && m.count() == n;
      }
    }
    ok = ok && (!a || k != 2 || res::alive(res::idof(t)));
  }
  return ok && res::clean(long(a) + (k ? b : 0));
}
//@ law comm_borrowed ; about: $C(MPI_Comm) ; dom: c=ptr, k=0..3 ; $I
extern "C" bool law_comm_borrowed(long c, int k) {
  res::reset();
  bool ok;
  {
    comm::Communicator a(reinterpret_cast<MPI_Comm>(c));
    ok = static_cast<MPI_Comm>(a) == reinterpret_cast<MPI_Comm>(c) && *&a == reinterpret_cast<MPI_Comm>(c);
    comm::Communicator b;
    if (k == 1) b = a;
    if (k == 2) b = std::move(a);
    if (k == 3) { comm::Communicator d(a); b = std::move(d); }
    ok = ok && static_cast<MPI_Comm>(b) == (k ? reinterpret_cast<MPI_Comm>(c) : MPI_COMM_NULL);
  }
  return ok && res::clean(0);
}
//@ law comm_owned ; about: $C: make_communicator_managed ; dom: k=0..5 ; $I
extern "C" bool law_comm_owned(int k) {
  res::reset();
  bool ok;
  {
    MPI_Comm c;
    MPI_Comm_dup(MPI_COMM_WORLD, &c);
    comm::Communicator a = comm::make_communicator_managed(c);
    ok = static_cast<MPI_Comm>(a) == c;
    {
      comm::Communicator b;
      if (k == 1) b = a;
      if (k == 2) b = std::move(a);
      if (k == 3) { comm::Communicator d(a); b = d; }
      if (k == 4) { comm::Communicator d(std::move(a)); a = d; }
      if (k == 5) a = b;
      ok = ok && static_cast<MPI_Comm>(b) == (k >= 1 && k <= 3 ? c : MPI_COMM_NULL);
      if (k >= 1 && k <= 4) ok = ok && res::alive(0);   // still used
      if (k == 5) ok = ok && !res::alive(0);
    }
    if (k == 1 || k == 3 || k == 4) ok = ok && res::alive(0) && static_cast<MPI_Comm>(a) == c;
  }
  return ok && res::clean(1);
}
//@ law comm_clone ; about: $C: clone ; dom: c=ptr, k=0..2 ; $I
extern "C" bool law_comm_clone(long c, int k) {
  res::reset();
  bool ok;
  {
    comm::Communicator x;
    {
      comm::Communicator a(reinterpret_cast<MPI_Comm>(c));
      comm::Communicator b = a.clone();
      ok = static_cast<MPI_Comm>(b) != static_cast<MPI_Comm>(a) && static_cast<MPI_Comm>(a) == reinterpret_cast<MPI_Comm>(c) && res::alive(0);
      if (k == 1) x = b;
      if (k == 2) x = b.clone();
    }
    ok = ok && (k == 1) == res::alive(0) && (k == 2) == res::alive(1);
  }
  return ok && res::clean(k == 2 ? 2 : 1);
}
//@ law comm_unmanageable ; about: $C: make_communicator_managed refuses communicators which must not be freed ; dom: k=0..1 ; initial=1 ; n=50
extern "C" void rej_comm_unmanageable(int k) {
  comm::Communicator a = comm::make_communicator_managed(k ? MPI_COMM_WORLD : MPI_COMM_NULL);
}
using Chunk = memory::MemoryChunk<Z, Device::CPU>;
using View = memory::MemoryView<Z, Device::CPU>;
using CView = memory::MemoryView<const Z, Device::CPU>;
// kind 0: empty, 1: owning, 2: borrowed
static Chunk chunk(int kind, Z* p, SizeType n) { return kind == 0 ? Chunk() : kind == 1 ? Chunk(n) : Chunk(p, n); }
//@ law chunk_scope ; about: $M ; dom: a=0..2, p=ptr, n=1..100 ; $I
extern "C" bool law_chunk_scope(int a, Z* p, SizeType n) {
  res::reset();
  bool ok;
  {
    Chunk h = chunk(a, p, n);
    ok = h.size() == (a ? n : 0) && (a != 2 || h() == p) && (a != 1 || (h() && res::alive(0) && h(n - 1) == h() + (n - 1))) && (a || !h());
  }
  return ok && res::clean(a == 1);
}
//@ law chunk_assign ; about: $M: move construction and assignment ; dom: a=0..2, b=0..2, p=ptr, n=1..100, k=0..3 ; $I
extern "C" bool law_chunk_assign(int a, int b, Z* p, SizeType n, int k) {
  res::reset();
  bool ok;
  {
    Chunk h = chunk(a, p, n), g = chunk(b, p + 200, n + 1);
    Z* const q = g();
    h = std::move(g);
    ok = h() == q && h.size() == (b ? n + 1 : 0) && res::released == (a == 1) && g.size() == 0 && !g();
    if (k == 1) { Chunk f(std::move(h)); ok = ok && f() == q && h.size() == 0 && !h(); }
    if (k == 2) g = Chunk(n);
    if (k == 3) { g = std::move(h); ok = ok && g() == q; }
  }
  return ok && res::clean((a == 1) + (b == 1) + (k == 2));
}
static View view(int kind, Z* p, SizeType n) { return kind == 0 ? View() : kind == 1 ? View(n) : View(p, n); }
//@ law view_shared ; about: $V: copies, sub views and const views keep the memory alive, and only that long ; dom: a=0..2, p=ptr, n=8..100, k=0..9 ; $I
extern "C" bool law_view_shared(int a, Z* p, SizeType n, int k) {
  res::reset();
  bool ok = true;
  {
    View y;
    CView z;
    Z* q;
    {
      View h = view(a, p, n);
      q = h();
      ok = h.size() == (a ? n : 0) && (a != 2 || q == p);
      if (k == 1) y = h;
      if (k == 2) y = std::move(h);
      if (k == 3) { View g(h); y = View(std::move(g)); }
      if (k == 4) y = a ? View(h, 3, 4) : View(h, 0, 0);
      if (k == 5) z = h;
      if (k == 6) z = std::move(h);
      if (k == 7) z = a ? CView(h, 3, 4) : CView(h, 0, 0);
      if (k == 8) { CView g(std::move(h)); z = g; }
      if (k == 9) { y = h; y = View(2); }
      if (k == 2 || k == 6 || k == 8) ok = ok && h.size() == 0 && !h();
    }
    if (a == 1) ok = ok && res::alive(0) == (k >= 1 && k <= 8);
    const SizeType o = (k == 4 || k == 7) && a ? 3 : 0, l = !a ? 0 : k == 4 || k == 7 ? 4 : n;
    if (k >= 1 && k <= 4) ok = ok && y() == (a ? q + o : nullptr) && y.size() == l;
    if (k >= 5 && k <= 8) ok = ok && z() == (a ? q + o : nullptr) && z.size() == l;
    if (k == 9) ok = ok && res::alive(a == 1) && y.size() == 2;
  }
  return ok && res::clean((a == 1) + (k == 9));
}
//@ law view_nested ; about: $V: a view of a view addresses the same memory ; dom: p=ptr, n=20..100, o=0..9, l=1..9, u=0..l-1 ; $I
extern "C" bool law_view_nested(Z* p, SizeType n, SizeType o, SizeType l, SizeType u) {
  res::reset();
  View a(p, n), b(a, o, l), c(b, u, l - u);
  CView d(c, 0, 1), e(b, u, 1), f(b);
  return b() == p + o && c() == p + o + u && c.size() == l - u && d() == p + o + u && e() == d() && f() == b() && b(u) == c(0) && f(u) == p + o + u;
}
//@ law view_outside ; about: $V: a view outside its parent is rejected ; dom: p=ptr, n=1..100, o=0..n, x=1..100, k=0..1 ; initial=1
extern "C" void rej_view_outside(Z* p, SizeType n, SizeType o, SizeType x, int k) {
  View a(p, n);
  if (k) View b(a, o, n - o + x);
  else CView b(a, o, n - o + x);
}
using Buf = common::Buffer<Z>;
//@ law buffer ; about: include/dlaf/common/data_descriptor.h: Buffer, make_contiguous ; dom: n=1..100, k=0..2 ; $I
extern "C" bool law_buffer(SizeType n, int k) {
  Buf a(n), b;
  if (static_cast<bool>(b) || !static_cast<bool>(a) || a.count() != n || !a.is_contiguous()) return false;
  Z* const q = a.data();
  if (k == 0) { Buf c(std::move(a)); return c.data() == q && c.count() == n && static_cast<bool>(c) && !static_cast<bool>(a); }
  if (k == 1) { b = std::move(a); return b.data() == q && b.count() == n && static_cast<bool>(b) && !static_cast<bool>(a); }
  return true;
}
//@ law comm_none ; about: $C(): no communicator ; dom: k=0..1 ; $I
extern "C" bool law_comm_none(int k) {
  res::reset();
  bool ok;
  {
    comm::Communicator a;
    const comm::Communicator b = a;
    const comm::Communicator& c = k ? a : b;
    ok = static_cast<MPI_Comm>(c) == MPI_COMM_NULL && *&c == MPI_COMM_NULL && c.size() == 0 && c.rank() == MPI_UNDEFINED;
  }
  return ok && res::clean(0);
}
//@ law comm_null ; about: $C(MPI_Comm) of no communicator is rejected ; dom: k=0..1 ; initial=1 ; n=50
extern "C" void rej_comm_null(int) { comm::Communicator a(MPI_COMM_NULL); }
template <class T> static constexpr bool move_only = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T> && std::is_move_constructible_v<T>;
//@ law ownership ; about: owners cannot be copied ; dom: x=0..1
extern "C" bool law_ownership(int) {
  return move_only<comm::internal::type_handler<Z>> && move_only<decltype(comm::make_message(std::declval<common::DataDescriptor<Z>>()))> && move_only<memory::MemoryChunk<Z, Device::CPU>> && move_only<common::Buffer<Z>> &&
         std::is_copy_constructible_v<comm::Communicator> && std::is_copy_constructible_v<memory::MemoryView<Z, Device::CPU>>;
}
