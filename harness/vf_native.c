/* Native driver: replays one counterexample, or samples random inputs. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define VF_MAXIN 65536
typedef struct {
    uint64_t n, cases, skipped, done, distinct;
    uint64_t vals[VF_MAXIN];
    char fail[512];
} Shared;
static Shared *S;
static int replay, nreplay, pos;
static uint64_t rv[VF_MAXIN];
static uint64_t rng;
static jmp_buf skipjmp;

static uint64_t rnd(void)
{
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint64_t vf_next(uint64_t bits)
{
    uint64_t v;
    if (replay) {
        v = pos < nreplay ? rv[pos] : 0;
        pos++;
        return bits < 64 ? v & ((1ull << bits) - 1) : v;
    }
    switch (rnd() % 9) {
    case 8: { /* doubles with a fraction, as bits */
        double d = (double)(int64_t)(rnd() % 65) / 8.0 - 4.0;
        memcpy(&v, &d, sizeof(v));
        break;
    }
    case 0:
        v = rnd() % 4;
        break;
    case 1:
        v = rnd() % 16;
        break;
    case 2:
        v = (uint64_t)0 - (rnd() % 4);
        break;
    case 3: {
        v = 1ull << (rnd() % 64);
        v += (rnd() % 3);
        v -= 1;
        break;
    }
    case 4:
        v = rnd() % 128;
        break;
    case 5:
        v = rnd() >> (rnd() % 64);
        break;
    default:
        v = rnd();
        break;
    }
    if (bits < 64)
        v &= (1ull << bits) - 1;
    if (S->n < VF_MAXIN)
        S->vals[S->n++] = v;
    return v;
}

void vf_skip(void)
{
    if (replay) {
        fprintf(stderr, "VF-SKIP: a precondition does not hold\n");
        _exit(3);
    }
    longjmp(skipjmp, 1);
}

void vf_fail(const char *text, const char *file, int line)
{
    fprintf(stderr, "VF-FAIL: %s (%s:%d)\n", text, file, line);
    snprintf(S->fail, sizeof(S->fail), "%s (%s:%d)", text, file, line);
    _exit(10);
}
int vf_replaying(void) { return replay; }
void vf_reach(const char *text) { (void)text; }

#ifndef VF_ENTRIES
#error "VF_ENTRIES"
#endif
#define X(n) void n(void);
VF_ENTRIES
#undef X
static const struct {
    const char *name;
    void (*f)(void);
} entries[] = {
#define X(n) {#n, n},
    VF_ENTRIES
#undef X
};

/* usage: native ENTRY replay FILE | native ENTRY random SEED COUNT SECONDS OUT
 * exit: 0 held, 10 a postcondition failed, 11 crash/sanitizer, 3 skipped */
int main(int argc, char **argv)
{
    void (*f)(void) = NULL;
    for (size_t i = 0; i < sizeof(entries) / sizeof(*entries); i++)
        if (!strcmp(entries[i].name, argv[1]))
            f = entries[i].f;
    if (!f || argc < 4)
        return 2;
    S = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!strcmp(argv[2], "replay")) {
        FILE *fp = fopen(argv[3], "r");
        if (!fp)
            return 2;
        unsigned long long v;
        while (nreplay < VF_MAXIN && fscanf(fp, "%llu", &v) == 1)
            rv[nreplay++] = v;
        fclose(fp);
        replay = 1;
        alarm(20);
        f();
        fprintf(stderr, "VF-HELD\n");
        return 0;
    }
    uint64_t seed = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
    double limit = atof(argv[5]);
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int rc = 0;
    uint64_t k = 0;
    while (k < count && !rc) {
        pid_t pid = fork();
        if (pid == 0) {
            uint64_t end = k + 2000 < count ? k + 2000 : count;
            for (volatile uint64_t i = k; i < end; i++) {
                rng = seed * 1000003ull + i * 7919ull;
                S->n = 0;
                S->cases++;
                alarm(20);
                if (setjmp(skipjmp) == 0) {
                    f();
                    S->done++;
                }
                else
                    S->skipped++;
                clock_gettime(CLOCK_MONOTONIC, &t);
                if (t.tv_sec - t0.tv_sec > limit)
                    _exit(0);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10)
            rc = 10;
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            rc = 11;
        k += 2000;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > limit)
            break;
    }
    if (rc) {
        FILE *fp = fopen(argv[6], "w");
        for (uint64_t i = 0; i < S->n; i++)
            fprintf(fp, "%llu\n", (unsigned long long)S->vals[i]);
        fclose(fp);
    }
    printf("{\"cases\": %llu, \"completed\": %llu, \"skipped\": %llu, \"rc\": %d}\n",
           (unsigned long long)S->cases, (unsigned long long)S->done,
           (unsigned long long)S->skipped, rc);
    return rc;
}
