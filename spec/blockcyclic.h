// Reference definition of the 2D block-cyclic distribution, one coordinate at a time, written from the property text.
#pragma once
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>
#include <dlaf/matrix/util_distribution.h>
namespace ref {
using S = dlaf::SizeType;
using dlaf::Coord;
using dlaf::matrix::Distribution;
// n elements, tiles of t elements, k tiles per block, g processes, own rank r, source s, offset o (may exceed a block)
struct Axis {
  S n, t, k;
  int g, r, s;
  S o;
  constexpr S blk() const { return t * k; }
  constexpr S off() const { return o % blk(); }                                    // offset inside the first block
  constexpr int src() const { return static_cast<int>((s + o / blk()) % g); }       // owner of the first block
  constexpr S pos(S e) const { return e + off(); }                                  // position counted from the begin of the first block
  constexpr S block(S e) const { return pos(e) / blk(); }
  constexpr int owner(S e) const { return static_cast<int>((block(e) + src()) % g); }
  constexpr S tile(S e) const { return pos(e) / t - off() / t; }
  constexpr S in_tile(S e) const { return tile(e) == 0 ? e : pos(e) % t; }
  constexpr S tiles() const { return n == 0 ? 0 : tile(n - 1) + 1; }
  constexpr S tile_begin(S i) const { return i == 0 ? 0 : (i + off() / t) * t - off(); }
  constexpr S tile_end(S i) const { const S x = (i + 1 + off() / t) * t - off(); return x < n ? x : n; }
  constexpr S tile_size(S i) const { return tile_end(i) - tile_begin(i); }
  constexpr int tile_owner(S i) const { return static_cast<int>(((i + off() / t) / k + src()) % g); }
  // the first block that rank q owns, and what the offset hides of it
  constexpr S dist(int q) const { return q >= src() ? q - src() : q - src() + g; }
  constexpr S local_tile(S i) const {  // on its owner
    const S b = (i + off() / t) / k;
    return b / g * k + (i + off() / t) % k - (b % g == 0 ? off() / t : 0);
  }
  constexpr S local_element(S e) const {
    const S b = block(e);
    return b / g * blk() + pos(e) % blk() - (b % g == 0 ? off() : 0);
  }
  // number of elements of the first m elements that rank q owns
  constexpr S count(S m, int q) const {
    const S p = m + off(), full = p / blk(), rest = p % blk(), d = dist(q);
    const S blocks = full / g + (full % g > d ? 1 : 0);
    return blocks * blk() + (full % g == d ? rest : 0) - (d == 0 ? (m + off() < off() ? 0 : off()) : 0);
  }
  // number of tiles of the first m tiles that rank q owns
  constexpr S count_tiles(S m, int q) const {
    const S ot = off() / t, p = m + ot, full = p / k, rest = p % k, d = dist(q);
    const S blocks = full / g + (full % g > d ? 1 : 0);
    return blocks * k + (full % g == d ? rest : 0) - (d == 0 ? ot : 0);
  }
};
inline Distribution make(const Axis& a, const Axis& b) {
  using namespace dlaf;
  return Distribution(GlobalElementSize{a.n, b.n}, GlobalElementSize{a.blk(), b.blk()}, TileElementSize{a.t, b.t}, comm::Size2D{a.g, b.g},
                      comm::Index2D{a.r, b.r}, comm::Index2D{a.s, b.s}, GlobalElementIndex{a.o, b.o});
}
template <Coord rc>
const Axis& axis(const Axis& a, const Axis& b) { if constexpr (rc == Coord::Row) return a; else return b; }
}
#define AX(p) S p##n, S p##t, S p##k, int p##g, int p##r, int p##s, S p##o
#define MK(p) ref::Axis{p##n, p##t, p##k, p##g, p##r, p##s, p##o}
