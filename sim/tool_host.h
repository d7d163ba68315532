// Runs a command line tool inside the simulator: its main() in a forked
// process whose files, pipes, clock and allocator are simulated.
#pragma once
#include "sim.h"

namespace tool {

enum Kind { F_NONE, F_READ_EIO, F_READ_ONCE, F_ENOSPC, F_WRITE_EIO, F_WRITE_ONCE, F_CLOSE, F_SEEK, F_OPEN_IN, F_OPEN_OUT,
            F_ALLOC, F_KILL, F_STALL, F_NUM };
extern const char *const kind_name[F_NUM];

struct Inv {
    int (*main)(int, char **) = nullptr;
    std::vector<std::string> args;         // "%in" and "%out" are the simulated files
    std::vector<uint8_t> in;
    bool in_stdin = false, in_pipe = false, out_stdout = false, out_pipe = false;
    uint64_t seed = 0;                     // splitting, buffering, clock
    bool split = false, clock_jumps = false;
    int fault = F_NONE; int64_t at = 0;
    size_t limit = 8 << 20;                // output beyond this is not simulated
    int cpu_s = 20;
};

struct Res {
    int exit = -1, sig = 0; bool limit = false, killed = false, fired = false, hang = false;
    std::vector<uint8_t> out; std::string err;
    int reads = 0, writes = 0, seeks = 0, allocs = 0, in_closes = 0, out_closes = 0; bool out_opened = false;
    int64_t written = 0;
};

// A crash of the tool ends the run of the simulation the same way
Res run(sim::Ctx &x, const Inv &i);

}
