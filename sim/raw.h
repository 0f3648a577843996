// Direct access to the real libc functions, past the simulator's own definitions.
#pragma once
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
long raw_syscall6(long n, long a, long b, long c, long d, long e, long f);
inline long raw_fix(long r);
ssize_t raw_write(int fd, const void* p, size_t n);
ssize_t raw_read(int fd, void* p, size_t n);
off_t raw_lseek(int fd, off_t o, int w);
int raw_close(int fd);
int raw_clock_gettime(clockid_t c, timespec* t);
int raw_nanosleep(const timespec* a, timespec* b);
