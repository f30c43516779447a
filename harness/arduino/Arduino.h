// Stand-in for the Arduino core: virtual time; interrupts are signals delivered to the polling thread.
#pragma once
#include <cstdint>
#include <cstddef>
#include <signal.h>
#include <pthread.h>
namespace ardu {
inline unsigned long nowMs = 1000;     // virtual time, owned by the polling thread
inline unsigned long pollMs = 0;         // virtual time which passes between two polls of the loop
inline bool useSignals = false;        // interrupts are simulated by SIGUSR1
inline long sections = 0;
inline void mask(int how) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); pthread_sigmask(how, &s, nullptr); }
}
inline unsigned long millis() { return ardu::nowMs; }
inline void noInterrupts() { ++ardu::sections; if (ardu::useSignals) ardu::mask(SIG_BLOCK); }
inline void interrupts() { if (ardu::useSignals) ardu::mask(SIG_UNBLOCK); }
