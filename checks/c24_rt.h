// Controlled scheduler behind the compiler's thread instrumentation (see c24_rt.cc).
#pragma once
#include <cstdint>
#include <cstddef>
namespace rt {
struct Access { uint64_t granule; uint8_t rd, wr, at; };  // byte masks: plainly read, plainly written, atomically accessed
enum { MAXACC = 1 << 16, MAXPRE = 4 };
struct Result { uint64_t len, h1, h2; int done; char text[200]; };
struct Shared {                       // one per exploring process, mapped shared with its children
    Result res[4];
    uint64_t nacc; int overflow;
    Access acc[MAXACC];
    // exploration of one schedule
    uint64_t steps, preempted;
    struct Done { uint64_t object; uint64_t step; uint8_t thread, write; };
    enum { MAXDONE = 1 << 13 };
    Done done[MAXDONE]; uint64_t ndone;  // synchronizing operations in the order in which they were executed
    int deadlock, race; char raceText[200];
    uint64_t cross;                   // accesses to memory allocated by the other thread
    uint64_t objects;                 // digest of the shared objects afterwards
    int finished;
};
typedef void (*Body)(int which);      // runs operation number `which` and stores its result
// Runs one operation in this process with recording of the memory it shares with the world.
void record(Shared * s, Body b, int which);
// Runs operations 0 and 1 on two threads. `first` starts; control changes hands at the given steps.
void store(Shared *, int, uint8_t const *, size_t, char const *);
struct Conflict { uint64_t granule; uint8_t mask; };
void explore(Shared * s, Body b, int first, uint64_t const * pre, int npre, Conflict const * c, size_t nc);
}
