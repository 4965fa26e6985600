// P47 Grid contexts are unique while they are alive
// The real registry of grids; the grids themselves only remember what they were made from (they are the subject of P25).
//@ stubs: capi
//@ flags: -DDLAF_WITH_SCALAPACK -DOMPI_SKIP_MPICXX
#include <map.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/col_major_layout.h>
#include <c_api/utils.cpp>
#include <c_api/grid.cpp>
using dlaf::common::Ordering;
namespace {
int barriers, asked_rank, my_rank, land[2], lands;
bool all_row, all_col;   // what the other processes say
int bl_rows, bl_cols, bl_r, bl_c, bl_ctx;
[[gnu::always_inline]] inline MPI_Comm comm(long i) { return reinterpret_cast<MPI_Comm>(64 * i + 64); }
[[gnu::always_inline]] inline bool is(int ctx, long c, int r, int s, bool col) {
  if (dlaf_grids.count(ctx) == 0) return false;
  const auto& g = dlaf_grids.at(ctx);
  return (g.comm == comm(c)) & (g.rows == r) & (g.cols == s) & (g.order == (col ? Ordering::ColumnMajor : Ordering::RowMajor));
}
}
extern "C" {
int MPI_Barrier(MPI_Comm) { ++barriers; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = my_rank; return MPI_SUCCESS; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op op, MPI_Comm) {
  const bool mine = *static_cast<const bool*>(s);
  if (n != 1 || op != MPI_LAND) verif_stop();
  *static_cast<bool*>(r) = mine && (lands == 0 ? all_row : all_col);
  ++lands;
  return MPI_SUCCESS;
}
MPI_Comm Cblacs2sys_handle(int c) { return comm(c); }
void Cblacs_get(int c, int what, int* v) { *v = what == 10 && c == bl_ctx ? 3 : 9; }
void Cblacs_gridinfo(int c, int* np, int* mp, int* px, int* py) { const bool k = c == bl_ctx; *np = k ? bl_rows : -1; *mp = k ? bl_cols : -1; *px = k ? bl_r : -1; *py = k ? bl_c : -1; }
}
//@ def C = o={67,99,82,114}, r=i32, s=i32
//@ law created ; about: src/c_api/grid.cpp dlaf_create_grid ; dom: o={67,99,82,114}, r=i32, s=i32
extern "C" bool law_created(int o, int r, int s) {
  dlaf_grids.clear();
  const int k = dlaf_create_grid(comm(1), r, s, static_cast<char>(o));
  return dlaf_grids.size() == 1 && is(k, 1, r, s, o == 67 || o == 99) && &grid_from_context(k) == &dlaf_grids.at(k);
}
// whatever was created and freed before: the new context designates the new grid, and the others keep theirs
//@ law history ; about: src/c_api/grid.cpp dlaf_create_grid ; dom: f0=bool, f1=bool, f2=bool, g=bool, r=i32, s=i32
extern "C" bool law_history(bool f0, bool f1, bool f2, bool g, int r, int s) {
  dlaf_grids.clear();
  const int a = dlaf_create_grid(comm(1), 2, 3, 'R'), b = dlaf_create_grid(comm(2), 3, 2, 'C'), c = dlaf_create_grid(comm(3), 1, 6, 'R');
  bool ok = a != b && b != c && a != c && is(a, 1, 2, 3, false) && is(b, 2, 3, 2, true) && is(c, 3, 1, 6, false);
  if (f0) dlaf_free_grid(a);
  if (f1) dlaf_free_grid(b);
  if (f2) dlaf_free_grid(c);
  const int d = dlaf_create_grid(comm(4), r, s, 'R');
  ok = ok && is(d, 4, r, s, false) && (f0 || (d != a && is(a, 1, 2, 3, false))) && (f1 || (d != b && is(b, 2, 3, 2, true))) && (f2 || (d != c && is(c, 3, 1, 6, false)));
  if (g) dlaf_free_grid(d);
  const int e = dlaf_create_grid(comm(5), s, r, 'C');
  ok = ok && is(e, 5, s, r, true) && (g || (d != e && is(d, 4, r, s, false))) && (f0 || (e != a && is(a, 1, 2, 3, false))) && (f1 || (e != b && is(b, 2, 3, 2, true))) && (f2 || (e != c && is(c, 3, 1, 6, false)));
  return ok && dlaf_grids.size() == 4u - f0 - f1 - f2 + (g ? 0 : 1);
}
//@ law freed ; about: src/c_api/grid.cpp dlaf_free_grid ; dom: x={0,1,2}
extern "C" bool law_freed(int x) {
  dlaf_grids.clear();
  const int a = dlaf_create_grid(comm(1), 2, 3, 'R'), b = dlaf_create_grid(comm(2), 3, 2, 'C'), c = dlaf_create_grid(comm(3), 1, 6, 'R');
  const int f = x == 0 ? a : x == 1 ? b : c;
  dlaf_free_grid(f);
  return dlaf_grids.count(f) == 0 && dlaf_grids.size() == 2 && (x == 0 || is(a, 1, 2, 3, false)) && (x == 1 || is(b, 2, 3, 2, true)) && (x == 2 || is(c, 3, 1, 6, false));
}
//@ law freed_unknown ; about: src/c_api/grid.cpp dlaf_free_grid ; dom: k=i32
extern "C" bool law_freed_unknown(int k) {
  dlaf_grids.clear();
  const int a = dlaf_create_grid(comm(1), 2, 3, 'R'), b = dlaf_create_grid(comm(2), 3, 2, 'C');
  if (k == a || k == b) return true;
  dlaf_free_grid(k);
  return dlaf_grids.size() == 2 && is(a, 1, 2, 3, false) && is(b, 2, 3, 2, true);
}
//@ law freed_all ; about: src/c_api/grid.cpp dlaf_free_all_grids ; dom: k=bool
extern "C" bool law_freed_all(bool k) {
  dlaf_grids.clear();
  const int a = dlaf_create_grid(comm(1), 2, 3, 'R');
  if (k) dlaf_create_grid(comm(2), 3, 2, 'C');
  dlaf_free_all_grids();
  const bool none = dlaf_grids.size() == 0 && dlaf_grids.count(a) == 0;
  const int c = dlaf_create_grid(comm(3), 1, 6, 'R');
  return none && is(c, 3, 1, 6, false) && dlaf_grids.size() == 1;
}
//@ law blacs ; about: src/c_api/grid.cpp dlaf_create_grid_from_blacs ; dom: k=0..1000, r=1..5, s=1..5, i=0..4, j=0..4, col=bool
extern "C" bool law_blacs(int k, int r, int s, int i, int j, bool col) {
  i %= r; j %= s;
  dlaf_grids.clear();
  const int a = dlaf_create_grid(comm(1), 2, 3, 'R');
  bl_ctx = k; bl_rows = r; bl_cols = s; bl_r = i; bl_c = j; lands = 0;
  my_rank = col ? j * r + i : i * s + j; all_row = !col; all_col = col;
  dlaf_create_grid_from_blacs(k);
  return a != k && is(a, 1, 2, 3, false) && is(k, 3, r, s, col) && dlaf_grids.size() == 2;
}
//@ law order ; about: src/c_api/grid.cpp grid_ordering ; dom: r=1..5, s=1..5, i=0..4, j=0..4, q=0..24, x=bool, y=bool
extern "C" bool law_order(int r, int s, int i, int j, int q, bool x, bool y) {
  i %= r; j %= s;
  lands = 0; my_rank = q; all_row = x; all_col = y;
  const bool row = x && q == i * s + j, col = y && q == j * r + i;
  if (!row && !col) return true;
  return grid_ordering(comm(1), r, s, i, j) == (col ? 'C' : 'R');
}
