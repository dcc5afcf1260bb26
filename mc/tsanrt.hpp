// Controlled scheduler for two threads of code compiled with -fsanitize=thread: the runtime
// behind the compiler's instrumentation is rt/tsanrt.cpp. One thread runs at a time.
#pragma once
#include <cstdint>
#include <cstddef>
namespace rt {
enum { MAXHOT = 4096, MAXPOINTS = 1 << 16 };
struct Hot { uintptr_t granule; uint8_t mask; uintptr_t pc[2]; bool write[2]; };   // data used by both threads, at least one writes it
struct Info {                        // in shared memory: written by the process that executes
	uint32_t nhot; Hot hot[MAXHOT];
	uint64_t accesses[2];            // recorded accesses
	uint32_t points;                 // scheduling points met
	uint8_t pointThread[MAXPOINTS];
	uint32_t races; Hot race[16];    // accesses not ordered by any synchronisation
	uint32_t deadlock, switches, leftover;
	char result[2][4096]; uint32_t done[2];
};
struct Schedule { int first; uint32_t n; uint32_t at[8]; };   // who starts; points (in order of execution) at which the other thread continues
/** Runs the two functions as two threads. With record, finds the data both use (info->hot);
  * otherwise info->hot is given, and every access to it is a scheduling point. */
void run(void (*f)(int, void*), void* arg, Info* info, bool record, const Schedule& s);
}
