/*
 * Native execution of a contract harness, on the real code:
 *   prog replay FILE       inputs of a counterexample, one `name hex` by line
 *   prog random SEED SEC   inputs drawn at random, during SEC seconds
 * Exit status: 0 nothing failed, 1 an obligation failed (printed),
 *   3 precondition not met by the replayed inputs.
 */
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

extern void VC_ENTRY(void);

static FILE *replay_fp;
static jmp_buf skip_env;
static uint64_t rng = 88172645463325252ull;
static long reached;

#define LOG_MAX (1 << 20)
static char log_buf[LOG_MAX];
static size_t log_len;

static void record(const char *name, const void *p, size_t n)
{
    const uint8_t *b = p;
    if (log_len + strlen(name) + 2*n + 8 >= LOG_MAX)
        return;
    log_len += sprintf(log_buf + log_len, "%s ", name);
    for (size_t i = 0; i < n; i++)
        log_len += sprintf(log_buf + log_len, "%02x", b[i]);
    log_len += sprintf(log_buf + log_len, "\n");
}

const char *vc_inputs(void) { return log_buf; }

static uint64_t rnd(void)
{
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng * 2685821657736338717ull;
}

static void fetch(const char *name, void *p, size_t n)
{
    static char line[1 << 22];
    memset(p, 0, n);
    if (!fgets(line, sizeof(line), replay_fp))
        return;
    char *sp = strchr(line, ' ');
    if (!sp) return;
    *sp++ = 0;
    if (strcmp(line, name)) {
        printf("replay: expected input `%s`, got `%s`\n", name, line);
        exit(3);
    }
    uint8_t *b = p;
    for (size_t i = 0; i < n && sp[0] > ' ' && sp[1] > ' '; i++, sp += 2) {
        unsigned v; sscanf(sp, "%2x", &v); b[i] = v;
    }
}

uint64_t vc_input(const char *name, int nbits)
{
    uint64_t v = 0;
    if (replay_fp) {
        fetch(name, &v, (nbits + 7) / 8);
    } else {
        static const uint64_t hot[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 20, 31, 32,
            400, 2500, 5000, 7500, 10000, 8000, 16000, 24000, 32000, 48000,
            96000, 0x7fff, 0x8000, 0xffff, 0xffffff, 0x800000, 0x7fffffff };
        switch (rnd() & 3) {
            case 0: v = hot[rnd() % (sizeof(hot)/sizeof(*hot))]; if (rnd() & 1) v = -v; break;
            case 1: v = rnd() >> (rnd() & 63); if (rnd() & 1) v = -v; break;
            default: v = rnd();
        }
    }
    if (nbits < 64) v &= ((uint64_t)1 << nbits) - 1;
    record(name, &v, (nbits + 7) / 8);
    return v;
}

int vc_range(const char *name, int lo, int hi)
{
    int v;
    if (replay_fp) {
        fetch(name, &v, 4);
    } else {
        uint64_t n = (uint64_t)((int64_t)hi - lo) + 1;
        switch (rnd() & 7) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            default: v = (int)(lo + (int64_t)(rnd() % n));
        }
    }
    record(name, &v, 4);
    return v;
}

void vc_bytes(const char *name, void *p, size_t n)
{
    if (replay_fp) {
        fetch(name, p, n);
    } else {
        uint8_t *b = p;
        int m = rnd() & 7;
        for (size_t i = 0; i < n; i++)
            b[i] = m == 0 ? 0 : m == 1 ? 0xff : rnd() >> 24;
    }
    record(name, p, n);
}

void vc_noise(void *p, size_t n)
{
    for (uint8_t *b = p; n; n--)
        *(b++) = rnd() >> 24;
}

static void dump(void)
{
    const char *f = getenv("VC_INPUTS");
    FILE *fp = f ? fopen(f, "w") : NULL;
    if (fp) fputs(log_buf, fp), fclose(fp);
}

void vc_fail(const char *name)
{
    dump();
    printf("FAILED ensures: %s\n", name);
    fflush(stdout);
    _Exit(1);
}

void vc_skip(void)
{
    if (replay_fp) {
        printf("precondition not met\n");
        fflush(stdout);
        _Exit(3);
    }
    longjmp(skip_env, 1);
}

void vc_reached(const char *name) { (void)name, reached++; }

/* Sanitizers report */
void __asan_on_error(void) { dump(); }
void __ubsan_on_report(void) { dump(); }
const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=1:handle_abort=1"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=1:print_stacktrace=0"; }

static void hang(int sig) { (void)sig; vc_fail("terminates"); }

int main(int argc, char *argv[])
{
    signal(SIGALRM, hang);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        if (!(replay_fp = fopen(argv[2], "r")))
            return 2;
        alarm(60);
        VC_ENTRY();
        printf("no failure\n");
        return 0;
    }

    if (argc < 4)
        return 2;
    rng ^= (uint64_t)strtoull(argv[2], NULL, 0) * 0x9e3779b97f4a7c15ull;
    time_t end = time(NULL) + atoi(argv[3]);
    volatile long n = 0, skipped = 0;

    for (; (n & 255) || time(NULL) < end; n++) {
        log_len = 0;
        if (!(n & 255)) alarm(60);
        if (setjmp(skip_env)) { skipped++; continue; }
        VC_ENTRY();
    }
    printf("random: %ld runs, %ld skipped, %ld reached\n", (long)n, (long)skipped, reached);
    return 0;
}
