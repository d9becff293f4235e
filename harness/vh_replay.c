/* native side of vh.h */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static FILE *vh_f;
uint64_t vh_next(void)
{
    unsigned long long v;
    if (!vh_f) {
        const char *p = getenv("VH_INPUT");
        vh_f = p ? fopen(p, "r") : NULL;
        if (!vh_f) { fprintf(stderr, "VHNOINPUT\n"); _Exit(78); }
    }
    if (fscanf(vh_f, "%llx", &v) != 1) { fprintf(stderr, "VHEXHAUSTED\n"); _Exit(78); }
    return v;
}
void vh_fail(const char *msg, const char *file, int line)
{
    fflush(stdout);
    fprintf(stderr, "VHFAIL: %s (%s:%d)\n", msg, file, line);
    fflush(stderr);
    _Exit(99);
}
void vh_discard(void) { fprintf(stderr, "VHDISCARD\n"); _Exit(77); }
void vh_exit0(void) { _Exit(0); }
