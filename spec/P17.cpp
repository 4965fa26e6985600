// P17 Mirrored matrices are synchronised with their source on every exit
// The mirror classes are instantiated with an element type of this file, whose matrices are small arrays of symbolic words.
#include <memory>
#include <optional>
#include <dlaf/matrix/matrix_mirror.h>
namespace dlaf::matrix {
struct El {};
struct content { long v[3]; };
template <Device D>
struct Store {
  content c;
  long dist;
  bool alive = true;
  explicit Store(long d) : c{{-1, -1, -1}}, dist(d) {}
  ~Store() { c = {{-7, -7, -7}}; alive = false; }
  Store(const Store&) = delete;
};
template <Device D> struct dist_of { static constexpr Device d = D; long id; };
#define MOCK(DEV) \
  template <> class Matrix<const El, DEV> { public: content c{{-1, -1, -1}}; long d; bool alive = true; Matrix(long dist) : d(dist) {} ~Matrix() { c = {{-7, -7, -7}}; alive = false; } Matrix(const Matrix&) = delete; \
    Matrix(Matrix&& o) : c(o.c), d(o.d) { o.c = {{-5, -5, -5}}; } long distribution() const { return d; } }; \
  template <> class Matrix<El, DEV> : public Matrix<const El, DEV> { public: using Matrix<const El, DEV>::Matrix; };
MOCK(Device::CPU)
MOCK(Device::GPU)
static int copies;
template <class A, class B> [[gnu::always_inline]] inline void copy_(A& a, B& b) { ++copies; if (a.alive && b.alive) b.c = a.c; }
inline void copy(Matrix<const El, Device::CPU>& a, Matrix<El, Device::GPU>& b) { copy_(a, b); }
inline void copy(Matrix<const El, Device::GPU>& a, Matrix<El, Device::CPU>& b) { copy_(a, b); }
inline void copy(Matrix<const El, Device::CPU>& a, Matrix<El, Device::CPU>& b) { copy_(a, b); }
inline void copy(Matrix<const El, Device::GPU>& a, Matrix<El, Device::GPU>& b) { copy_(a, b); }
}
using namespace dlaf;
using namespace dlaf::matrix;
using S = SizeType;
template <Device D> using MW = Matrix<El, D>;
template <Device D> using MR = Matrix<const El, D>;
constexpr auto C = Device::CPU;
constexpr auto G = Device::GPU;
template <class M> [[gnu::always_inline]] static void set(M& m, S a, S b, S c) { m.c.v[0] = a; m.c.v[1] = b; m.c.v[2] = c; }
template <class M> [[gnu::always_inline]] static bool is(const M& m, S a, S b, S c) { return (m.c.v[0] == a) & (m.c.v[1] == b) & (m.c.v[2] == c); }

//@ variants: TO=G,FROM=C | TO=C,FROM=G
//@ law starts ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror constructor ; dom: a=i64, b=i64, c=i64, d=i64
extern "C" bool law_starts(S a, S b, S c, S d) {
  MW<FROM> s(d); set(s, a, b, c);
  MatrixMirror<El, TO, FROM> w(s);
  MatrixMirror<const El, TO, FROM> r(s);
  return is(w.get(), a, b, c) && is(r.get(), a, b, c) && w.get().distribution() == d && r.get().distribution() == d && is(s, a, b, c);
}
//@ law written_back ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror destructor ; dom: a=i64, b=i64, c=i64, x=i64, y=i64, z=i64
extern "C" bool law_written_back(S a, S b, S c, S x, S y, S z) {
  MW<FROM> s(0); set(s, a, b, c);
  bool during;
  { MatrixMirror<El, TO, FROM> w(s); set(w.get(), x, y, z); during = is(s, a, b, c); }
  return during && is(s, x, y, z) && s.alive;
}
//@ law written_back_through_base ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror<const T> virtual destructor ; dom: a=i64, b=i64, c=i64, x=i64, y=i64, z=i64
extern "C" bool law_written_back_through_base(S a, S b, S c, S x, S y, S z) {
  MW<FROM> s(0); set(s, a, b, c);
  {
    auto w = new MatrixMirror<El, TO, FROM>(s);
    set(w->get(), x, y, z);
    std::unique_ptr<MatrixMirror<const El, TO, FROM>> p(w);
  }
  return is(s, x, y, z);
}
//@ law read_only ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror<const T> destructor ; dom: a=i64, b=i64, c=i64, x=i64, y=i64, z=i64
extern "C" bool law_read_only(S a, S b, S c, S x, S y, S z) {
  MW<FROM> s(0); set(s, a, b, c);
  { MatrixMirror<const El, TO, FROM> r(s); set(r.get(), x, y, z); }
  return is(s, a, b, c);
}
//@ law early_exit ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror destructor on every exit ; dom: a=i64, x=i64, y=i64, z=i64, k=0..3
extern "C" bool law_early_exit(S a, S x, S y, S z, S k) {
  MW<FROM> s(0); set(s, a, a, a);
  [&] {
    MatrixMirror<El, TO, FROM> w(s);
    if (k == 0) return;
    w.get().c.v[0] = x;
    if (k == 1) return;
    w.get().c.v[1] = y;
    if (k == 2) return;
    w.get().c.v[2] = z;
  }();
  return is(s, k > 0 ? x : a, k > 1 ? y : a, k > 2 ? z : a);
}
//@ law to_source ; about: include/dlaf/matrix/matrix_mirror.h copyTargetToSource ; dom: a=i64, b=i64, c=i64, x=i64, y=i64, z=i64
extern "C" bool law_to_source(S a, S b, S c, S x, S y, S z) {
  MW<FROM> s(0); set(s, a, b, c);
  bool synced, kept;
  {
    MatrixMirror<El, TO, FROM> w(s);
    set(w.get(), x, y, z);
    w.copyTargetToSource();
    synced = is(s, x, y, z) && is(w.get(), x, y, z);
    set(w.get(), a, x, b);
    kept = is(s, x, y, z);
  }
  return synced && kept && is(s, a, x, b);
}
//@ law to_target ; about: include/dlaf/matrix/matrix_mirror.h copySourceToTarget ; dom: a=i64, b=i64, c=i64, x=i64, y=i64, z=i64
extern "C" bool law_to_target(S a, S b, S c, S x, S y, S z) {
  MW<FROM> s(0); set(s, a, b, c);
  bool synced;
  {
    MatrixMirror<El, TO, FROM> w(s);
    set(w.getSource(), x, y, z);
    bool stale = is(w.get(), a, b, c);
    w.copySourceToTarget();
    synced = stale && is(w.get(), x, y, z) && is(s, x, y, z);
    w.get().c.v[1] = a;
  }
  return synced && is(s, x, a, z);
}
//@ law parts ; about: include/dlaf/matrix/matrix_mirror.h get, getSource ; dom: a=i64
extern "C" bool law_parts(S a) {
  MW<FROM> s(a);
  MatrixMirror<El, TO, FROM> w(s);
  MatrixMirror<const El, TO, FROM> r(s);
  MatrixMirror<const El, TO, FROM>& b = w;
  return &w.getSource() == &s && &r.getSource() == &s && static_cast<void*>(&w.get()) != static_cast<void*>(&s) && static_cast<void*>(&b.get()) == static_cast<void*>(&w.get()) && &b.getSource() == &s;
}
//@ law several ; about: include/dlaf/matrix/matrix_mirror.h mirrors in sequence ; dom: a=i64, b=i64, c=i64, x=i64, y=i64
extern "C" bool law_several(S a, S b, S c, S x, S y) {
  MW<FROM> s(0); set(s, a, b, c);
  { MatrixMirror<El, TO, FROM> w(s); w.get().c.v[0] = x; }
  bool ok;
  { MatrixMirror<const El, TO, FROM> r(s); ok = is(r.get(), x, b, c); }
  { MatrixMirror<El, TO, FROM> w(s); ok = ok && is(w.get(), x, b, c); w.get().c.v[2] = y; }
  return ok && is(s, x, b, y);
}
//@ law same_device ; about: include/dlaf/matrix/matrix_mirror.h MatrixMirror on the device of the source ; dom: a=i64, b=i64, c=i64, x=i64
extern "C" bool law_same_device(S a, S b, S c, S x) {
  MW<FROM> s(0); set(s, a, b, c);
  bool ok;
  {
    MatrixMirror<El, FROM, FROM> w(s);
    MatrixMirror<const El, FROM, FROM> r(s);
    MatrixMirror<const El, FROM, FROM>& q = w;
    ok = &w.get() == &s && &w.getSource() == &s && &r.get() == &s && &r.getSource() == &s && &q.get() == &s && &q.getSource() == &s;
    w.get().c.v[1] = x;
    w.copySourceToTarget();
    w.copyTargetToSource();
    ok = ok && is(s, a, x, c);
  }
  return ok && is(s, a, x, c) && s.alive;
}
