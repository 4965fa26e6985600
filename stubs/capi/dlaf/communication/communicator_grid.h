#pragma once
#include <mpi.h>
#include <dlaf/common/index2d.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/index.h>
namespace capi { inline int rank_row, rank_col; }
namespace dlaf::comm {
class CommunicatorGrid {
public:
  MPI_Comm comm; int rows, cols; common::Ordering order;
  CommunicatorGrid(Communicator c, int r, int s, common::Ordering o) : comm(c), rows(r), cols(s), order(o) {}
  CommunicatorGrid() : comm(), rows(0), cols(0), order() {}
  CommunicatorGrid(CommunicatorGrid&&) = default;
  CommunicatorGrid& operator=(CommunicatorGrid&&) = default;
  Size2D size() const noexcept { return {rows, cols}; }
  Index2D rank() const noexcept { return {capi::rank_row, capi::rank_col}; }
};
}
