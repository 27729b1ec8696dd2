/* Preloaded into the example programs: answers getrandom() from PC_ENTROPY, so that a session can be repeated
   and rare hands can be reached. Requests of 32 bytes (the seed of the default generator) have their own
   stream. Everything else is passed on. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static long fill(void *buf, size_t n) {
    static uint64_t seeds, others;
    const char *e = getenv("PC_ENTROPY");
    uint64_t s = e ? strtoull(e, 0, 10) : 0;
    uint64_t k = n == 32 ? mix(s ^ mix(__sync_fetch_and_add(&seeds, 1)))
                         : mix(~s ^ mix(__sync_fetch_and_add(&others, 1)));
    for (size_t i = 0; i < n; i++) {
        ((unsigned char *)buf)[i] = (unsigned char)(mix(k ^ (i / 8)) >> (8 * (i % 8)));
    }
    return (long)n;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    return fill(buf, n);
}
int getentropy(void *buf, size_t n) {
    fill(buf, n);
    return 0;
}

long syscall(long number, ...) {
    va_list ap;
    long a[6];
    va_start(ap, number);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (number == SYS_getrandom) return a[1] == 0 ? 0 : fill((void *)a[0], (size_t)a[1]);
    long ret;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(ret) : "a"(number), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}
