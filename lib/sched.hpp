/* Controlled scheduler and happens-before race monitor for real code.
 *
 * A harness translation unit is compiled with the compiler's memory-access
 * instrumentation (-fsanitize=thread) but linked with sched_rt.cpp instead of
 * the ThreadSanitizer runtime.  Model threads are coroutines in one OS thread,
 * so the scheduler below decides every interleaving:
 *
 *  - a scheduling point precedes every atomic operation and every access to a
 *    watched range (the locations threads are expected to share);
 *  - every access is checked against every earlier access of another thread by
 *    vector clocks that respect the memory order of the atomics (a relaxed
 *    operation orders nothing), so two conflicting accesses that are not both
 *    atomic and not ordered are reported in whatever schedule they occur.
 *
 * Without a race on unwatched memory, interleaving at the scheduling points is
 * enough: all other accesses commute. */
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
struct Options
{
  bool mixedIsRace = true;     // a plain read unordered with an atomic write is reported too
  int maxPreemptions = 1000000;
};
struct Result
{
  bool race = false;
  std::string text;
  uint64_t points = 0, accesses = 0, switches = 0;
};
/* choose(n) picks the next thread to run among n runnable ones; index 0 is the running one if it can go on. */
Result run( std::vector< std::function< void() > > const & threads, std::function< int( int ) > const & choose, Options const & opt );
void watch( void const * p, size_t n, char const * name );
void clearWatch();
bool inThread();
int self();          // index of the running model thread, -1 outside
}
