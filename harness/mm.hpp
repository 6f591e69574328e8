// A scheduler and memory model for two threads.  The code under test is compiled with -fsanitize=thread, but linked
// with the hooks in mm.cpp instead of the sanitizer: every access to the tracked memory and every atomic operation,
// with its memory order, passes through them.  They choose which thread goes on and which store an atomic load reads
// (release/acquire views), and record everything as events.
#pragma once
#include <cstddef>
#include <string>
namespace mm {
void track(const void* base, std::size_t size);    // memory shared by the threads
void untrack_all();
void ev(const std::string& s);                     // records an event
int thread();                                      // 0 outside of run, 1 producer, 2 consumer
using Body = void (*)(void*);
struct Plan {                                      // how choices are made
    const int* prefix = nullptr; int n_prefix = 0; // choices to repeat
    int preemptions = 2, stale = 1;                // budgets
    bool random = false; unsigned seed = 1;        // choose at random instead of the first option
    int bias = 8;                                  // random: go on with the same thread bias-1 times out of bias
};
struct Choice { int taken, options; };
// Runs the two bodies to their end; returns the number of choices made (readable with choice()).
int run(Body p, void* pa, Body c, void* ca, const Plan& plan);
Choice choice(int i);
bool stuck();
std::string& events();                             // events recorded so far
void quiet(bool on);
}
