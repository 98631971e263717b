/* Preloaded into simulator processes: makes the k-th malloc made by the C++
   extensions under test fail.  Off unless armed; counts only calls whose return
   address lies in an extension module of the package. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);

static volatile int armed;
static long count, fired, nat;
static long at[64];
static void *lo[16], *hi[16];
static int nregions;

void sim_native_region(void *a, void *b) {
    if (nregions < 16) { lo[nregions] = a; hi[nregions] = b; nregions++; }
}
void sim_native_reset(void) { count = fired = nat = 0; armed = 0; }
void sim_native_add(long k) { if (nat < 64) at[nat++] = k; }
void sim_native_clear(void) { nat = 0; }
void sim_native_arm(int on) { armed = on; }
long sim_native_count(void) { return count; }
long sim_native_fired(void) { return fired; }

static int fail(void *ra) {
    for (int i = 0; i < nregions; i++)
        if (ra >= lo[i] && ra < hi[i]) {
            count++;
            for (long j = 0; j < nat; j++)
                if (at[j] == count) { fired++; return 1; }
            return 0;
        }
    return 0;
}

void *malloc(size_t n) {
    if (armed && fail(__builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return __libc_malloc(n);
}

/* rand() of the extensions: values from the simulator while there are any. */
static int rnd[1024];
static long nrnd, irnd;

void sim_native_rand(const int *v, long n) {
    nrnd = n < 1024 ? n : 1024;
    irnd = 0;
    for (long i = 0; i < nrnd; i++) rnd[i] = v[i];
}

int rand(void) {
    if (nrnd) return rnd[irnd++ % nrnd];
    return (int) random();
}

void *calloc(size_t a, size_t b) {
    if (armed && fail(__builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return __libc_calloc(a, b);
}
