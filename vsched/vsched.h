// vsched: deterministic, exhaustive/preemption-bounded scheduler for real code.
// The code under test is compiled with -fsanitize=thread, but linked against this
// runtime instead of the ThreadSanitizer one: every memory access, atomic and
// synchronisation call of the code becomes a scheduling point that this runtime owns.
#ifndef VSCHED_H
#define VSCHED_H
#include <functional>
#include <string>
#include <vector>

namespace vs {

// -- scenario registry ----------------------------------------------------
struct Scenario {
	std::string name;
	std::string cfg;               // JSON object: constants of the spec for this scenario
	std::function<void()> body;    // runs in a fresh forked process, as LightSpeed's master thread
};
void add(const std::string &name, const std::string &cfg, std::function<void()> body);

// -- used by scenario bodies ------------------------------------------------
// start a worker (thread index returned: 1,2,..); it waits for go()
int spawn(std::function<void()> fn);
// called by a worker once it is set up: wait for go() (returns at once after go)
void parkForGo();
// let the workers run under the explorer; returns when all workers are finished
void go();
// begin / end exploration by hand (for scenarios where the main thread takes part)
void exploreOn();
void exploreOff();
void joinAll();
// thread index of the caller
int self();
// append an event: JSON members without braces, e.g.  "\"e\":\"call\",\"t\":1"
void evraw(const std::string &members);
// events with typical shapes
void call(const char *op, const std::string &extra = std::string());
void ret(const char *op, const std::string &extra = std::string());
std::string kv(const char *k, long v);
std::string kvs(const char *k, const std::string &v);
// advance virtual time by ms (runs as a plain blocking delay)
void delay(unsigned ms);
// virtual clock in ms since start
unsigned long nowMs();
// true when Block events should be emitted
void emitBlock(bool on);
// plain reads of memory already freed are part of the algorithm under test (its result is thrown away)
void staleReads(bool on);
// scheduling point by hand
void point();
// stop this execution now, keeping the trace
void finishNow();
// disable scheduling points in a region of the harness itself
struct Quiet { Quiet(); ~Quiet(); };
// mark worker as a helper whose being blocked at the end is no "stuck" (daemon)
void daemon();

void registerScenarios();   // provided by the harness

}
#endif
