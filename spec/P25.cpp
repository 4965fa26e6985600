// P25 Ranks and coordinates of the process grid are consistent
//@ src: src/communication/communicator.cpp src/communication/communicator_impl.cpp src/communication/datatypes.cpp
//@ flags: -DOMPI_SKIP_MPICXX
#include <mpi.h>
#include <dlaf/common/round_robin.h>
#include <dlaf/communication/communicator_pipeline.h>
namespace dlaf::common {   // the pools of pipelines are the subject of P09 and P27
template <comm::CommunicatorType CT>
class RoundRobin<comm::CommunicatorPipeline<CT>> {
  std::size_t n = 0;
public:
  RoundRobin() = default;
  template <class... A> RoundRobin(std::size_t k, A...) : n(k) {}
  comm::CommunicatorPipeline<CT>& currentResource();
  comm::CommunicatorPipeline<CT>& nextResource();
  std::size_t size() const noexcept { return n; }
};
}
#include <dlaf/communication/communicator_grid.h>
#include <communication/communicator_grid.cpp>
// Reference MPI: a communicator handle is 0x10000 * identifier + 256 * size + rank.
namespace split {
inline int size, rank, calls, key[3], color[3];
inline long parent[3];
static MPI_Comm handle(long id, int s, int r) { return reinterpret_cast<MPI_Comm>(0x10000 * id + 256 * s + r); }
}
extern "C" {
int MPI_Comm_size(MPI_Comm c, int* s) { *s = static_cast<int>(reinterpret_cast<long>(c) >> 8 & 255); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* s) { *s = static_cast<int>(reinterpret_cast<long>(c) & 255); return MPI_SUCCESS; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) {
  const int k = split::calls++;
  split::color[k] = color;
  split::key[k] = key;
  split::parent[k] = reinterpret_cast<long>(c);
  *n = color == MPI_UNDEFINED ? MPI_COMM_NULL : split::handle(100 + k, 40 + k, 20 + k);
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { *n = reinterpret_cast<MPI_Comm>(reinterpret_cast<long>(c) + 0x1000000); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
}
using namespace dlaf;
using comm::CommunicatorGrid;
namespace {
struct Probe : CommunicatorGrid {
  using CommunicatorGrid::CommunicatorGrid;
  MPI_Comm comm(int k) { return k == 0 ? full_ : k == 1 ? row_ : col_; }
  int shift(int) const { return 0; }
};
// what one process does to take part in the grid
struct View {
  bool in;
  int row, col, color[3], key[3], grid_rows, grid_cols;
  MPI_Comm comms[3], via[3];
  int number;   // rank of the own position
};
}
static View join(int z, int r, int rows, int cols, int ord, int way) {
  split::calls = 0;
  const auto o = ord ? common::Ordering::RowMajor : common::Ordering::ColumnMajor;
  comm::Communicator c(split::handle(7, z, r));
  Probe g = way ? Probe(c, std::array<int, 2>{rows, cols}, o, 0) : Probe(c, rows, cols, o, 0);
  View v;
  v.in = r < rows * cols;
  v.row = g.rank().row();
  v.col = g.rank().col();
  v.grid_rows = g.size().rows();
  v.grid_cols = g.size().cols();
  for (int k = 0; k < 3; ++k) {
    v.comms[k] = g.comm(k);
    v.color[k] = split::color[k];
    v.key[k] = split::key[k];
    if (v.in)
      for (int i = 0; i < 3; ++i)   // the split which created it
        if ((reinterpret_cast<long>(v.comms[k]) >> 16 & 255) == 100 + i) {
          v.color[k] = split::color[i];
          v.key[k] = split::key[i];
        }
  }
  v.via[0] = g.fullCommunicator();
  v.via[1] = g.rowCommunicator();
  v.via[2] = g.colCommunicator();
  v.number = v.in ? g.rankFullCommunicator(g.rank()) : -1;
  return v;
}
//@ def G = src/communication/communicator_grid.cpp: CommunicatorGrid, include/dlaf/communication/communicator_grid.h
//@ def D = z=1..24, r=0..z-1, a=1..6, b=1..6, o=0..1, w=0..1
//@ def O = n=6000 ; initial=1 ; unroll=4
//@ law splits ; about: $G: all processes take part in the same splits of the given communicator ; dom: $D, q=0..z-1 ; $O ; ends=1
extern "C" bool law_splits(int z, int r, int a, int b, int o, int w, int q) {
  verif::assume(a * b <= z);
  join(z, r, a, b, o, w);
  const int n = split::calls;
  bool ok = true;
  for (int k = 0; k < n; ++k) ok = ok && split::parent[k] == reinterpret_cast<long>(split::handle(7, z, r));
  join(z, q, a, b, o, w);
  return ok && n == split::calls && n == 3;
}
//@ law position ; about: $G: position of a rank in the grid ; dom: $D ; $O ; ends=1
extern "C" bool law_position(int z, int r, int a, int b, int o, int w) {
  verif::assume(a * b <= z);
  const View v = join(z, r, a, b, o, w);
  if (!v.in) return v.grid_rows == 0 && v.grid_cols == 0 && v.color[0] == MPI_UNDEFINED && v.color[1] == MPI_UNDEFINED && v.color[2] == MPI_UNDEFINED;
  return v.grid_rows == a && v.grid_cols == b && v.row == (o ? r / b : r % a) && v.col == (o ? r % b : r / a) && v.color[0] != MPI_UNDEFINED;
}
//@ law members ; about: $G: two processes share the row (column) communicator exactly when they are in the same grid row (column) ; dom: $D, q=0..z-1 ; $O ; ends=1
extern "C" bool law_members(int z, int r, int a, int b, int o, int w, int q) {
  verif::assume(r < a * b && q < a * b && a * b <= z && q != r);
  const View u = join(z, r, a, b, o, w), v = join(z, q, a, b, o, 0);
  return u.color[0] == v.color[0] && (u.color[1] == v.color[1]) == (u.row == v.row) && (u.color[2] == v.color[2]) == (u.col == v.col) && u.color[1] >= 0 && u.color[2] >= 0 && u.color[0] >= 0;
}
static bool before(const View& u, int r, const View& v, int q, int k) { return u.key[k] < v.key[k] || (u.key[k] == v.key[k] && r < q); }
//@ law order ; about: $G: ranks inside the row, column and full communicators are the column index, the row index and rankFullCommunicator ; dom: $D, q=0..z-1 ; $O ; ends=1
extern "C" bool law_order(int z, int r, int a, int b, int o, int w, int q) {
  verif::assume(r < a * b && q < a * b && a * b <= z && q != r);
  const View u = join(z, r, a, b, o, w), v = join(z, q, a, b, o, 0);
  return before(u, r, v, q, 0) == (u.number < v.number) && u.number != v.number && u.number >= 0 && u.number < a * b && (u.row != v.row || before(u, r, v, q, 1) == (u.col < v.col)) &&
         (u.col != v.col || before(u, r, v, q, 2) == (u.row < v.row));
}
//@ law accessors ; about: $G: fullCommunicator, rowCommunicator, colCommunicator ; dom: $D ; $O ; ends=1
extern "C" bool law_accessors(int z, int r, int a, int b, int o, int w) {
  verif::assume(r < a * b && a * b <= z);
  const View v = join(z, r, a, b, o, w);
  return v.comms[0] == v.via[0] && v.comms[1] == v.via[1] && v.comms[2] == v.via[2] && v.comms[0] != v.comms[1] && v.comms[0] != v.comms[2] && v.comms[1] != v.comms[2];
}
//@ law sub_communicator ; about: $G: subCommunicator ; dom: $D ; $O
extern "C" bool law_sub_communicator(int z, int r, int a, int b, int o, int w) {
  verif::assume(r < a * b && a * b <= z);
  Probe g(comm::Communicator(split::handle(7, z, r)), a, b, o ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 0);
  return static_cast<MPI_Comm>(g.subCommunicator(Coord::Row)) == static_cast<MPI_Comm>(g.rowCommunicator()) &&
         static_cast<MPI_Comm>(g.subCommunicator(Coord::Col)) == static_cast<MPI_Comm>(g.colCommunicator());
}
//@ law numbering ; about: $G: rankFullCommunicator is a bijection ; dom: $D, i=0..a-1, j=0..b-1, k=0..a-1, l=0..b-1 ; $O
extern "C" bool law_numbering(int z, int r, int a, int b, int o, int w, int i, int j, int k, int l) {
  verif::assume(r < a * b && a * b <= z);
  Probe g(comm::Communicator(split::handle(7, z, r)), a, b, o ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 0);
  const int x = g.rankFullCommunicator({i, j}), y = g.rankFullCommunicator({k, l});
  return x >= 0 && x < a * b && (x == y) == (i == k && j == l);
}
//@ law too_small ; about: $G: a grid with more processes than the communicator is rejected ; dom: z=1..200, r=0..z-1, a=1..100, b=1..100, o=0..1, w=0..1 ; $O ; ends=1
extern "C" void rej_too_small(int z, int r, int a, int b, int o, int w) {
  verif::assume(a * b > z);
  join(z, r, a, b, o, w);
}
// a pipeline of a communicator carries what the communicator and the grid say about the own process
static_assert(comm::CommunicatorPipeline<comm::CommunicatorType::Full>::communicator_type == comm::CommunicatorType::Full);
static_assert(comm::coord_to_communicator_type(Coord::Row) == comm::CommunicatorType::Row && comm::coord_to_communicator_type(Coord::Col) == comm::CommunicatorType::Col);
//@ def P = include/dlaf/communication/communicator_pipeline.h
//@ def PD = z=1..24, r=0..z-1, a=1..6, b=1..6, i=0..a-1, j=0..b-1
//@ law pipeline ; about: $P: rank, size, rank_2d, size_2d, also of sub pipelines ; dom: $PD, k=0..1 ; $O
extern "C" bool law_pipeline(int z, int r, int a, int b, int i, int j, int k) {
  comm::CommunicatorPipeline<comm::CommunicatorType::Row> p(comm::Communicator(split::handle(7, z, r)), comm::Index2D{i, j}, comm::Size2D{a, b});
  auto says = [&](const auto& x) { return x.rank() == r && x.size() == z && x.rank_2d() == comm::Index2D{i, j} && x.size_2d() == comm::Size2D{a, b}; };
  if (k == 0) return says(p);
  auto q = p.sub_pipeline();
  return says(q);
}
//@ law pipeline_numbering ; about: $P: rank_full_communicator is the one of the grid ; dom: $PD, o=0..1, k=0..1 ; $O
extern "C" bool law_pipeline_numbering(int z, int r, int a, int b, int i, int j, int o, int k) {
  verif::assume(r < a * b && a * b <= z);
  Probe g(comm::Communicator(split::handle(7, z, r)), a, b, o ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 0);
  comm::CommunicatorPipeline<comm::CommunicatorType::Full> p(comm::Communicator(split::handle(9, a * b, 0)), comm::Index2D{0, 0}, comm::Size2D{a, b});
  if (k == 0) return p.rank_full_communicator({i, j}) == g.rankFullCommunicator({i, j});
  auto q = p.sub_pipeline();
  return q.rank_full_communicator({i, j}) == g.rankFullCommunicator({i, j});
}
