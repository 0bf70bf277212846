/* Takes the place of rand(): every call is a choice among K equally spaced numbers (or, with ends
 * set, also the smallest and largest possible ones), made by the explorer. */
#include <stdlib.h>
#define EXPORT __attribute__((visibility("default")))
enum { MAXD = 4096 };
static int prefix[MAXD], trace[MAXD], Ks[MAXD], nprefix, depth, ends, free_run = 1, maxd;
static unsigned long state = 1;
EXPORT int mc_rand_begin(const int *p, int n, const int *k, int e, int m)
{
    for (int i = 0; i < n && i < MAXD; ++i) prefix[i] = p[i];
    nprefix = n; depth = 0; ends = e; free_run = 0; maxd = m < MAXD ? m : MAXD;
    for (int i = 0; i < maxd; ++i) Ks[i] = k[i];
    state = 1;
    return 0;
}
EXPORT int mc_rand_end(int *t)
{
    int n = depth < maxd ? depth : maxd;
    for (int i = 0; i < n; ++i) t[i] = trace[i];
    free_run = 1;
    return depth;
}
int __wrap_rand(void)
{
    int j = 0;
    if (free_run || depth >= maxd) {       /* beyond the bound: some fixed sequence */
        state = state * 6364136223846793005UL + 1442695040888963407UL;
        ++depth;
        return (int)((state >> 33) & 0x7fffffff);
    }
    if (depth < nprefix) j = prefix[depth];
    int K = Ks[depth];
    trace[depth++] = j;
    if (j == K) return 0;
    if (j == K + 1) return RAND_MAX;
    return (int)((double)RAND_MAX * (j + 0.5) / K);
}
void __wrap_srand(unsigned s) { state = s; }
