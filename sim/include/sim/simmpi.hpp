// Simulation-side interface of the simulated MPI
#pragma once
#include <cstdint>
#include <functional>
#include <string>

#include <mpi.h>

namespace simmpi {
// runs f (on the request's rank, as a kernel task) when the request has completed; consumes the request
void on_done(MPI_Request req, std::function<void()> f);
bool done(MPI_Request req);

// objects alive (of the whole simulated job)
struct Alive {
  long comms = 0, types = 0, requests = 0, ops = 0, groups = 0;
};
Alive alive();
// whether a handle refers to a live object
bool comm_alive(MPI_Comm c);
bool type_alive(MPI_Datatype t);
// objects still alive at the end of a run are violations unless switched off (reset by every run)
void check_leaks(bool on);
// identity of the communication context of a communicator (equal on all members)
std::uint64_t context_id(MPI_Comm c);
// number of errors reported through MPI_Abort is not counted: abort fails the case. With
// set_abort_hook a harness sees it first.
}  // namespace simmpi

namespace simmpi {
// Fault injection: the n-th (0-based) MPI call made from now on by the given rank returns an error instead
// of doing its work; negative: off. After it fired, calls() stops counting.
void inject_error(int rank, long n);
bool injected();
long calls(int rank);  // MPI calls made by the rank in this run
// called by MPI_Abort; if it returns, the case fails
void set_abort_hook(void (*hook)(int rank));
// start and end of MPI in the process
struct Process {
  int supported = MPI_THREAD_MULTIPLE;  // highest thread level this MPI provides
  int level = MPI_THREAD_MULTIPLE;      // level in effect
  int inits = 0, finalizes = 0;
  int abort_code = -12345;
};
Process& process();
}  // namespace simmpi
