// A controlled scheduler: all threads of the program under test run one at a
// time; at every pthread call (linker --wrap) and at every entry and exit of an
// instrumented function the next thread to run is chosen from a seed.  Mutexes
// and condition variables are emulated, so a lost wake-up shows as the state in
// which no thread can run.
#pragma once
#include <string>
#include <functional>
namespace sched {
// policy 0: switch with probability prob/1000 at every point; 1: priorities with change points
void begin(unsigned long seed, int policy, int prob, bool spurious);
// Runs until main calls end(); returns "" or a description of a misuse.
std::string end();
bool active();
unsigned long steps();
// called when no thread can run (the process must end then)
extern std::function<void(const std::string&)> on_hang;
void point();
}
