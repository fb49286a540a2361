// Controlled scheduler: see DESIGN.md (C20).
//
// The code under test is compiled with -fsanitize=thread, but linked against mc/sched.cpp, which implements the
// compiler's memory-access callbacks. Exactly one thread runs at a time. Before every access to memory outside of the
// running thread's own stack, and at every point(), the explorer chooses whether to let another thread run; switches
// away from a thread that could go on are bounded. Vector clocks detect conflicting accesses that nothing orders.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched
{
struct Report { long points = 0; long switches = 0; std::vector< std::string > races; };
// writesOnly: no switches at reads of memory that nobody has written; such reads commute with everything but a write
// that comes later, which the race detector reports in any order.
// Runs the bodies as threads to completion under one schedule, chosen with mc::choose().
Report run( std::vector< std::function< void() > > const & bodies, int preemptions, bool writesOnly = false );
void point();                // a scheduling point of the driver (user callbacks)
void enter();                // accesses of this thread count from here ...
void leave();                // ... to here
}
