#pragma once
#include <mpi.h>
namespace dlaf::comm {
struct Communicator { MPI_Comm c; Communicator(MPI_Comm c) : c(c) {} operator MPI_Comm() const { return c; } };
}
