// P09 Rotating resource pools hand out every resource in cyclic order
#include <dlaf/common/round_robin.h>
using namespace dlaf::common;
using S = long;
//@ def F = include/dlaf/common/round_robin.h
struct Res { int id; Res(int x) : id(x) {} };
static int number(const RoundRobin<Res>& r, Res& x, Res& base) { (void) r; return static_cast<int>(&x - &base); }
// the pool of n resources is at position m mod n after m requests
//@ law cyclic ; about: $F: RoundRobin, currentResource, nextResource ; dom: n=1..5, m=0..7, v=0..100 ; unroll=9 ; ends=1
extern "C" bool law_cyclic(int n, int m, int v) {
  RoundRobin<Res> r(static_cast<std::size_t>(n), v);
  Res& first = r.currentResource();
  Res* last = &first;
  bool ok = r.size() == static_cast<std::size_t>(n);
  for (int i = 0; i < m; ++i) {
    last = &r.nextResource();
    ok = ok && number(r, *last, first) == (i + 1) % n;
  }
  return ok && &r.currentResource() == last && &r.currentResource() == last && r.size() == static_cast<std::size_t>(n);
}
//@ law built ; about: $F: RoundRobin(n, args...) ; dom: v=0..100 ; unroll=9 ; ends=1
extern "C" bool law_built(int v) {   // every resource is built from the arguments
  RoundRobin<Res> r(1, v);
  return r.size() == 1 && r.currentResource().id == v;
}
//@ law moved ; about: $F: RoundRobin(RoundRobin&&) ; dom: n=1..5, m=0..7, v=0..100, k=0..1 ; unroll=9 ; ends=1
extern "C" bool law_moved(int n, int m, int v, int k) {
  RoundRobin<Res> r(static_cast<std::size_t>(n), v);
  Res& first = r.currentResource();
  for (int i = 0; i < m; ++i) r.nextResource();
  RoundRobin<Res> s(std::move(r)), t;
  if (k) t = std::move(s);
  auto& u = k ? t : s;
  return u.size() == static_cast<std::size_t>(n) && &u.currentResource() - &first == m % n && &u.nextResource() - &first == (m + 1) % n;
}
//@ law empty_pool ; about: $F: currentResource, nextResource of an empty pool ; dom: k=0..3
extern "C" void rej_empty_pool(int k) {
  RoundRobin<Res> d, z(0, 1);
  auto& r = k & 1 ? d : z;
  if (k & 2) (void) r.currentResource();
  else (void) r.nextResource();
}
