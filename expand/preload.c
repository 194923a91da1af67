// The seam between rustc (and the proc macros in it) and the outside world:
// randomness, clocks and the process id come from a seeded generator.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>

static uint64_t state, clock_ns, pid;
static int ready;
static char *(*real_getenv)(const char *);
static void init(void) {
    if (ready) return;
    real_getenv = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    const char *s = real_getenv("WORLD_SEED");
    state = s ? strtoull(s, NULL, 10) : 1;
    clock_ns = 1000000000ull * (1000000000ull + (state * 2654435761u) % 900000000u);
    pid = 300 + state % 30000;
    ready = 1;
}
static uint64_t next(void) {
    init();
    uint64_t z = __atomic_add_fetch(&state, 0x9e3779b97f4a7c15ull, __ATOMIC_SEQ_CST);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    uint8_t *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(next() >> 24);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    init();
    uint64_t v = __atomic_add_fetch(&clock_ns, 1000, __ATOMIC_SEQ_CST);
    t->tv_sec = v / 1000000000ull;
    t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    (void)z;
    struct timespec s;
    clock_gettime(0, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
pid_t getpid(void) { init(); return (pid_t)pid; }

// Addresses: with address space randomisation off (setarch -R), the world's seed
// decides where everything mapped from here on lies.
__attribute__((constructor)) static void shift(void) {
    init();
    size_t n = 1 + (state * 0x9e3779b97f4a7c15ull >> 33) % 65521;
    mmap(NULL, n * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// Environment: a variable the macros ask for (rustc and other libraries are
// not affected) may have any value, or none.
char *getenv(const char *name) {
    Dl_info d;
    init();
    if (strncmp(name, "RUST", 4) && strncmp(name, "WORLD_SEED", 10) &&
        dladdr(__builtin_return_address(0), &d) && d.dli_fname && strstr(d.dli_fname, "mockall")) {
        const char *w = real_getenv("WORLD_SEED");
        uint64_t h = w ? strtoull(w, NULL, 10) : 1;
        for (const char *c = name; *c; c++) h = (h ^ (uint8_t)*c) * 0x100000001b3ull;
        h = (h ^ (h >> 29)) * 0x94d049bb133111ebull;
        h ^= h >> 32;
        static const char *const V[] = {"", "0", "1", "true", "x", "/nonexistent", "release"};
        if (h & 1) return NULL;
        return (char *)V[(h >> 1) % 7];
    }
    return real_getenv(name);
}
