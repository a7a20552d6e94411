// Makes every sleep of the process two hundred times shorter.  Include in one
// source file of a program.  Waiting is only ever used to poll, so nothing but
// the speed changes.
#ifndef VERIF_HARNESS_FASTSLEEP_H_
#define VERIF_HARNESS_FASTSLEEP_H_
#include <errno.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdint>

namespace fastsleep {
inline int Sleep(int64_t ns) {
  ns /= 200;
  if (ns < 20000) ns = 20000;
  struct timespec t;
  t.tv_sec = ns / 1000000000;
  t.tv_nsec = ns % 1000000000;
  syscall(SYS_nanosleep, &t, nullptr);
  return 0;
}
}  // namespace fastsleep

extern "C" {
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return fastsleep::Sleep(t->tv_sec * 1000000000ll + t->tv_nsec);
}
int clock_nanosleep(clockid_t clock, int flags, const struct timespec* t, struct timespec* rem) {
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    struct timespec now;
    clock_gettime(clock, &now);
    ns -= now.tv_sec * 1000000000ll + now.tv_nsec;
  }
  return fastsleep::Sleep(ns);
}
int usleep(useconds_t us) { return fastsleep::Sleep(us * 1000ll); }
}
#endif  // VERIF_HARNESS_FASTSLEEP_H_
