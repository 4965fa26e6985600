// P11 Strided data descriptors and copies cover exactly the described elements
//@ variants: Z=double | Z=int,mem=4 | Z=std::complex<float> | Z=std::complex<double>,mem=16 | Z=char,mem=1
#include <complex>
#include <dlaf/common/data_descriptor.h>
using namespace dlaf::common;
using dlaf::SizeType;
using S = long;
//@ def F = include/dlaf/common/data_descriptor.h
//@ def G = include/dlaf/common/data.h
//@ def SH = p=ptr, n=1..6|1..100000, b=1..6|1..100000, s=b..b+3|b..b+100000
// element k of a description
template <class D> static auto* at(const D& d, S k) {
  const S i = d.is_contiguous() ? 0 : k / d.blocksize(), j = d.is_contiguous() ? k : k % d.blocksize();
  return d.data() + i * d.stride() + j;
}
template <class D> static auto* at_free(const D& d, S k) {   // the same through the free functions of the concept
  const S i = data_iscontiguous(d) ? 0 : k / data_blocksize(d), j = data_iscontiguous(d) ? k : k % data_blocksize(d);
  return data_pointer(d) + i * data_stride(d) + j;
}
//@ law elements ; about: $F: DataDescriptor(ptr, num_blocks, blocksize, stride) ; dom: $SH, i=0..n-1, j=0..b-1
extern "C" bool law_elements(Z* p, S n, S b, S s, S i, S j) {
  const DataDescriptor<Z> d(p, n, b, s);
  const S k = i * b + j;
  return d.count() == n * b && at(d, k) == p + i * s + j && at_free(d, k) == p + i * s + j && data_count(d) == n * b && d.is_contiguous() == (n == 1 || s == b) && d.data() == p &&
         data_pointer(d) == d.data() && data_nblocks(d) == d.nblocks() && data_blocksize(d) == d.blocksize() && data_stride(d) == d.stride() && data_iscontiguous(d) == d.is_contiguous();
}
//@ law shape ; about: $F: nblocks, blocksize, stride of contiguous and strided descriptions ; dom: $SH
extern "C" bool law_shape(Z* p, S n, S b, S s) {
  const DataDescriptor<Z> d(p, n, b, s);
  if (n == 1 || s == b) return d.is_contiguous() && d.nblocks() == 1 && d.blocksize() == n * b && d.stride() == 0;
  return !d.is_contiguous() && d.nblocks() == n && d.blocksize() == b && d.stride() == s;
}
//@ law const_view ; about: $F: DataDescriptor(const Data&) ; dom: $SH, i=0..n-1, j=0..b-1
extern "C" bool law_const_view(Z* p, S n, S b, S s, S i, S j) {
  const DataDescriptor<Z> d(p, n, b, s);
  const DataDescriptor<const Z> c = d;
  const DataDescriptor<const Z> e = c;
  const S k = i * b + j;
  return c.count() == n * b && at(c, k) == p + i * s + j && e.count() == n * b && at(e, k) == p + i * s + j && c == e && c.is_contiguous() == d.is_contiguous();
}
//@ law copies ; about: $F: DataDescriptor copy, assignment ; dom: $SH, i=0..n-1, j=0..b-1
extern "C" bool law_copies(Z* p, S n, S b, S s, S i, S j) {
  const DataDescriptor<Z> d(p, n, b, s);
  DataDescriptor<Z> c(d), e;
  e = c;
  const S k = i * b + j;
  return e.count() == n * b && at(e, k) == p + i * s + j && c == d && e == d && !(e != d) && make_data(d) == d && create_data(p, n, b, s) == d && make_data(p, n, b, s) == d;
}
//@ law linear ; about: $F: DataDescriptor(ptr, n), DataDescriptor of an array, make_data, create_data ; dom: p=ptr, n=0..100000, k=0..7 ; ends=1
extern "C" bool law_linear(Z* p, S n, S k) {
  const DataDescriptor<Z> d(p, n), e;
  Z a[8];
  const DataDescriptor<Z[8]> x(a);
  return d.count() == n && d.is_contiguous() && d.data() == p && d.nblocks() == 1 && d.stride() == 0 && e.count() == 0 && e.data() == nullptr && e.nblocks() == 0 && e.blocksize() == 0 && e.stride() == 0 && e == DataDescriptor<Z>() && x.count() == 8 && x.is_contiguous() && at(x, k) == a + k &&
         create_data(p, n) == d && make_data(p, n) == d;
}
//@ law equality ; about: $F: operator==, operator!= ; dom: p=ptr, q={0,8}, n=1..3, b=1..3, s=b..b+2, n2=1..3, b2=1..3, s2=b2..b2+2
extern "C" bool law_equality(Z* p, S q, S n, S b, S s, S n2, S b2, S s2) {
  const DataDescriptor<Z> d(p, n, b, s), e(reinterpret_cast<Z*>(reinterpret_cast<S>(p) + q), n2, b2, s2);
  const bool cont = n == 1 || b == s, cont2 = n2 == 1 || b2 == s2;
  const bool eq = q == 0 && cont == cont2 && (cont ? n * b == n2 * b2 : n == n2 && b == b2 && s == s2);
  return (d == e) == eq && (d != e) == !eq && d == d;
}
//@ law rejects ; about: $F: DataDescriptor rejects negative counts ; dom: p=ptr, x=1..1000000, m=0..1000, k=0..2
extern "C" void rej_rejects(Z* p, S x, S m, S k) {
  DataDescriptor<Z> d(p, k == 0 ? -x : m + 1, k == 1 ? -x : m, k == 2 ? -x : m + 1);
}
// a description without blocks or without elements denotes nothing
//@ law nothing ; about: $F: empty descriptions ; dom: p=ptr, n=0..5, b=0..5, s=b..b+3
extern "C" bool law_nothing(Z* p, S n, S b, S s) {
  verif::assume(n * b == 0);
  const DataDescriptor<Z> d(p, n, b, s);
  return d.count() == 0;
}
//@ law temporary ; about: $F: create_temporary_buffer, make_contiguous ; dom: $SH
extern "C" bool law_temporary(Z* p, S n, S b, S s) {
  const DataDescriptor<Z> d(p, n, b, s);
  Buffer<Z> buf;
  const bool before = static_cast<bool>(buf);
  const auto c = make_contiguous(d, buf);
  if (n == 1 || s == b) return !before && !buf && c == d;
  return !before && buf && c.is_contiguous() && c.count() == n * b && c.data() == buf.data() && buf.count() == n * b && c.data() != p;
}
//@ law temporary_const ; about: $F: create_temporary_buffer, make_contiguous of read-only data ; dom: $SH
extern "C" bool law_temporary_const(const Z* p, S n, S b, S s) {
  const DataDescriptor<const Z> d(p, n, b, s);
  const auto t = create_temporary_buffer(d);
  Buffer<Z> buf;
  const auto c = make_contiguous(d, buf);
  const bool ok = t.is_contiguous() && t.count() == n * b && t;
  if (n == 1 || s == b) return ok && !buf && c == d;
  return ok && buf && c.is_contiguous() && c.count() == n * b && c.data() == buf.data();
}
//@ law buffer ; about: $F: Buffer ; dom: n=1..100000
extern "C" bool law_buffer(S n) {
  Buffer<Z> e, a(n), b(n);
  const Z* x = a.data();
  Buffer<Z> c(std::move(a));
  e = std::move(c);
  return b.count() == n && b.is_contiguous() && b && b.data() != x && e.count() == n && e.data() == x && e && !a && !c;
}
//@ law is_data_concept ; about: $G: is_data
extern "C" bool law_is_data_concept() {
  return is_data_v<DataDescriptor<int>> && is_data_v<DataDescriptor<const int>> && is_data_v<Buffer<int>> && !is_data_v<int*> && !is_data_v<int> && std::is_const_v<data_traits<DataDescriptor<const int>>::element_t> &&
         std::is_same_v<data_traits<Buffer<int>>::element_t, int> && std::is_same_v<data_traits<DataDescriptor<int[3]>>::element_t, int>;
}
// ---- copies: element k to element k, nothing else is written
static void ref(const Z* p, S n, S b, S s, Z* q, S n2, S b2, S s2) {
  (void) n2;
  for (S k = 0; k < n * b; ++k) q[k / b2 * s2 + k % b2] = p[k / b * s + k % b];
}
//@ def CP = p=ptr, q=ptr
//@ law copy_cc ; about: $G: copy contiguous to contiguous ; dom: $CP, n=0..8 ; mem=8 ; unroll=10 ; n=4000 ; events=none
extern "C" void impl_copy_cc(const Z* p, Z* q, S n) { copy(DataDescriptor<const Z>(p, n), DataDescriptor<Z>(q, n)); }
extern "C" void spec_copy_cc(const Z* p, Z* q, S n) { ref(p, 1, n, n, q, 1, n ? n : 1, n); }
//@ law copy_sc ; about: $G: copy strided to contiguous ; dom: $CP, n=1..3, b=1..3, s=b..b+2 ; mem=8 ; unroll=10 ; n=4000 ; events=none ; ends=1
extern "C" void impl_copy_sc(const Z* p, Z* q, S n, S b, S s) { copy(DataDescriptor<const Z>(p, n, b, s), DataDescriptor<Z>(q, n * b)); }
extern "C" void spec_copy_sc(const Z* p, Z* q, S n, S b, S s) { ref(p, n, b, s, q, 1, n * b, n * b); }
//@ law copy_cs ; about: $G: copy contiguous to strided ; dom: $CP, n=1..3, b=1..3, s=b..b+2 ; mem=8 ; unroll=10 ; n=4000 ; events=none ; ends=1
extern "C" void impl_copy_cs(const Z* p, Z* q, S n, S b, S s) { copy(DataDescriptor<Z>(const_cast<Z*>(p), n * b), DataDescriptor<Z>(q, n, b, s)); }
extern "C" void spec_copy_cs(const Z* p, Z* q, S n, S b, S s) { ref(p, 1, n * b, n * b, q, n, b, s); }
//@ law copy_ss ; about: $G: copy strided to strided with different block sizes ; dom: $CP, n=1..4, b=1..4, s=b..b+2, b2=1..4, s2=b2..b2+2 ; mem=8 ; unroll=10 ; n=4000 ; events=none ; ends=1
extern "C" void impl_copy_ss(const Z* p, Z* q, S n, S b, S s, S b2, S s2) {
  verif::assume((n * b) % b2 == 0 && n * b <= 8);
  copy(DataDescriptor<const Z>(p, n, b, s), DataDescriptor<Z>(q, n * b / b2, b2, s2));
}
extern "C" void spec_copy_ss(const Z* p, Z* q, S n, S b, S s, S b2, S s2) {
  verif::assume((n * b) % b2 == 0 && n * b <= 8);
  ref(p, n, b, s, q, n * b / b2, b2, s2);
}
//@ law copy_mismatch ; about: $G: copies between descriptions with different numbers of elements are rejected ; dom: $CP, k=0..3, n=2..3, b=1..3, s=1..3, x=-3..3, m=2..3, c=1..3, t=1..3 ; unroll=12
extern "C" void rej_copy_mismatch(const Z* p, Z* q, int k, S n, S b, S s, S x, S m, S c, S t) {
  s += b; t += c;
  if (k == 0) { verif::assume(x != 0 && b + x >= 0); copy(DataDescriptor<const Z>(p, b + x), DataDescriptor<Z>(q, b)); }
  else if (k == 1) { verif::assume(x != 0 && n * b + x >= 0); copy(DataDescriptor<const Z>(p, n, b, s), DataDescriptor<Z>(q, n * b + x)); }
  else if (k == 2) { verif::assume(x != 0 && n * b + x >= 0); copy(DataDescriptor<const Z>(p, n * b + x), DataDescriptor<Z>(q, n, b, s)); }
  else { verif::assume(n * b != m * c); copy(DataDescriptor<const Z>(p, n, b, s), DataDescriptor<Z>(q, m, c, t)); }
}
//@ law no_temporary ; about: $F: create_temporary_buffer of nothing is rejected ; dom: p=ptr, n=0..5, b=0..5, s=b..b+3 ; if=!complex
extern "C" void rej_no_temporary(Z* p, S n, S b, S s) {
  verif::assume(n * b == 0);
  (void) create_temporary_buffer(DataDescriptor<Z>(p, n, b, s));
}
