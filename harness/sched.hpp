// Controlled scheduler for C17: runs threads of the real library one at a time, explores every schedule with a bounded number of
// preemptions, detects data races (vector clocks), uses of freed memory, deadlocks, leaks and confused descriptors on each.
#pragma once
#include "vf.hpp"
#include <errno.h>
#include <set>
#include <functional>
namespace sch {
struct Result { long schedules = 0, points = 0, preempted = 0; bool complete = true; };
// a program: what one thread does; returns a printable result
typedef std::function<std::string()> Prog;
struct Spec {
    std::function<void()> setup, finish;      // before the threads start, after they ended (library still started)
    std::vector<Prog> threads;
    int bound = 2;                            // preemptions
    long cap = 1L << 40;                      // schedules
    std::function<std::vector<const void *>()> quietmd;   // addresses of mutexes whose locking is no scheduling point (known after setup)
    std::function<void()> after;              // after every execution, outside of the library
};
// Real descriptors: open, dup and close reach the system (the layer works on real files); otherwise they are numbers only.
extern bool real;
void own(int fd);                             // a descriptor that the library got
void syscall_point();                         // a scheduling point at a system call of the library
// all outcomes (one string per thread, and last what fin returns) when only whole operations are interleaved (scheduling points: point())
std::set<std::vector<std::string>> serial(Spec &s, std::function<std::string()> fin);
Result explore_in(Spec &s, const std::set<std::vector<std::string>> &want, std::function<std::string()> fin);
// results of the threads alone: one execution each
std::vector<std::string> alone(Spec &s);
// explores; every thread must return what it returned alone
Result explore(Spec &s, const std::vector<std::string> &want);
void *alloc(size_t n);                        // memory watched like the library's own
void point();                                 // a scheduling point of the application
int app_dup(); void app_close(int fd);        // the application's real descriptors (virtual numbers shared with the library)
void fill(int upto);                          // the application occupies all free numbers below upto
void opened(int fd); void closing(int fd);    // bookkeeping of the descriptors the library handed out
[[noreturn]] void bad(const std::string &m);  // a thread noticed a violation
extern long rand_value;
}
