// P06 2D ranges visit every index exactly once, in column-major order
#include <dlaf/common/range2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>
#include <iterator>
using namespace dlaf;
using namespace dlaf::common;
using S = SizeType;
//@ def F = include/dlaf/common/range2d.h
//@ def R = b=-3..5|0..1000|0..10**6, c=-3..5|0..1000|0..10**6, m=1..4|1..1000|1..10**6, n=1..4|1..1000|1..10**6
static GlobalTileIndex T(S r, S c) { return {r, c}; }
static auto range(int k, S b, S c, S m, S n) { return k ? iterate_range2d(T(b, c), GlobalTileSize(m, n)) : iterate_range2d(T(b, c), T(b + m, c + n)); }
// the k-th position of the range is (b + k mod m, c + k div m), and there are m*n positions
//@ law kth ; about: $F: IterableRange2D, IteratorRange2D ; dom: w=0..1, $R, k=0..m*n-1
extern "C" bool law_kth(int w, S b, S c, S m, S n, S k) {
  const auto r = range(w, b, c, m, n);
  auto i = r.begin();
  i += k;
  const auto e = T(b + k % m, c + k / m);
  return *i == e && r.begin()[k] == e && *(r.begin() + k) == e && *(k + r.begin()) == e && i->row() == e.row() && i->col() == e.col() && r.end() - r.begin() == m * n && i - r.begin() == k &&
         (i != r.end()) && !r.empty() && *r.begin() == T(b, c);
}
//@ law step ; about: $F: operator++, operator--, operator-=, operator- ; dom: w=0..1, $R, k=0..m*n-1
extern "C" bool law_step(int w, S b, S c, S m, S n, S k) {
  const auto r = range(w, b, c, m, n);
  const auto i = r.begin() + k;
  auto j = i, l = i, p = i + 1, q = i + 1;
  const auto& pre = ++j;
  const auto post = l++;
  const auto& pred = --p;
  const auto postd = q--;
  auto u = i + 1;
  u -= 1;
  return pre == i + 1 && *pre == i[1] && post == i && *post == *i && l == i + 1 && *l == i[1] && pred == i && *pred == *i && postd == i + 1 && *postd == i[1] && q == i && *q == *i && u == i && *u == *i &&
         (i + 1) - 1 == i && *((i + 1) - 1) == *i && (k + 1 == m * n) == (i + 1 == r.end());
}
// steps of any length, in both directions, between positions of the range (and its end)
//@ law jump ; about: $F: operator+=, operator-=, operator+, operator-, operator[] ; dom: w=0..1, $R, k=0..m*n, l=0..m*n-1|0..min(m*n-1,5)|max(0,k-4)..min(k+4,m*n-1)
extern "C" bool law_jump(int w, S b, S c, S m, S n, S k, S l) {
  const auto r = range(w, b, c, m, n);
  const auto i = r.begin() + k, j = r.begin() + l;
  const auto e = T(b + l % m, c + l / m);
  auto x = i, y = i;
  auto& rx = x += l - k;
  auto& ry = y -= k - l;
  return &rx == &x && &ry == &y && x == j && *x == e && y == j && *y == e && *(i + (l - k)) == e && *((l - k) + i) == e && *(i - (k - l)) == e && i[l - k] == e && x->row() == e.row() && y->col() == e.col();
}
//@ law order ; about: $F: comparison operators ; dom: w=0..1, $R, k=0..m*n-1, l=0..m*n-1, t={0,1,2}
extern "C" bool law_order(int w, S b, S c, S m, S n, S k, S l, int t) {
  if (t == 0) l = k;
  const auto r = range(w, b, c, m, n);
  const auto i = r.begin() + k, j = r.begin() + l;
  return (i == j) == (k == l) && (i != j) == (k != l) && (i < j) == (k < l) && (i <= j) == (k <= l) && (i > j) == (k > l) && (i >= j) == (k >= l) && i - j == k - l;
}
//@ law visited ; about: $F: range loop over IterableRange2D ; dom: w=0..1, b=-3..5|0..1000, c=-3..5|0..1000, m=0..3, n=0..3, r=b-1..b+m, s=c-1..c+n ; unroll=10 ; ends=1
extern "C" bool law_visited(int w, S b, S c, S m, S n, S r, S s) {
  S count = 0, hit = 0;
  for (const auto& i : range(w, b, c, m, n)) {
    ++count;
    if (i == T(r, s)) ++hit;
  }
  return count == m * n && hit == (r >= b && s >= c && r < b + m && s < c + n ? 1 : 0);
}
//@ law empty ; about: $F: IterableRange2D ; dom: w=0..1, b=-3..5|0..1000, c=-3..5|0..1000, m=0..1000, n=0..1000, k=0..1, r=0..1000, s=0..1000
extern "C" bool law_empty(int w, S b, S c, S m, S n, int k, S r, S s) {
  if (k) m = 0; else n = 0;
  const auto x = range(w, b, c, m, n);
  return x.begin() == x.end() && x.empty() && !isIndexInRange(T(r, s), x);
}
//@ law member ; about: $F: isIndexInRange ; dom: w=0..1, $R, r=b-2..b+m+2, s=c-2..c+n+2
extern "C" bool law_member(int w, S b, S c, S m, S n, S r, S s) {
  return isIndexInRange(T(r, s), range(w, b, c, m, n)) == (r >= b && s >= c && r < b + m && s < c + n);
}
//@ law from_origin ; about: $F: iterate_range2d(Size2D), iterate_range2d(Index2D) ; dom: m=1..4|1..1000, n=1..4|1..1000, k=0..m*n-1
extern "C" bool law_from_origin(S m, S n, S k) {
  const auto a = iterate_range2d(GlobalTileSize(m, n));
  const auto b = iterate_range2d(T(m, n));
  return a.begin()[k] == T(k % m, k / m) && b.begin()[k] == T(k % m, k / m) && a.end() - a.begin() == m * n && b.end() - b.begin() == m * n;
}
//@ law narrow ; about: $F: with int coordinates ; dom: m=1..4|1..40000, n=1..4|1..40000, k=0..m*n-1
extern "C" bool law_narrow(int m, int n, S k) {
  const auto a = iterate_range2d(comm::Size2D(m, n));
  const auto b = iterate_range2d(comm::Index2D(0, 0), comm::Index2D(m, n));
  const comm::Index2D e(static_cast<int>(k % m), static_cast<int>(k / m));
  return a.begin()[k] == e && b.begin()[k] == e && a.end() - a.begin() == S(m) * n && b.end() - b.begin() == S(m) * n;
}
//@ law reversed ; about: $F: IterableRange2D(begin, end) ; dom: b=0..1000, c=0..1000, x=1..5|1..1000, k=0..1, y=0..1000
extern "C" void rej_reversed(S b, S c, S x, int k, S y) {
  (void) iterate_range2d(T(b, c), k ? T(b - x, c + y) : T(b + y, c - x));
}
