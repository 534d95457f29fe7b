/* Native side of the harness API: replays one recorded assignment of the symbolic inputs.
   exit codes: 0 ok, 10 assumption not met, 20 check failed, 30 observations differ, 40 usage */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static uint64_t in[1 << 16], exp_obs[1 << 20], args_[64];
static int nin, pos, nexp, nobs, nargs, have_obs, verbose, expect_panic;

static void say(const char *s) { long r = syscall(SYS_write, 2, s, strlen(s)); (void)r; }

uint64_t v_in(uint32_t w) {
    uint64_t v = pos < nin ? in[pos] : 0;
    pos++;
    if (w < 64) v &= (1ull << w) - 1;
    return v;
}
void v_assume(uint8_t c) { if (!c) { if (verbose) say("assumption not met\n"); _exit(10); } }
void v_check_raw(uint8_t c, const char *m, uint64_t n) {
    if (!c) {
        char b[700];
        snprintf(b, sizeof b, "CHECK-FAILED %.*s\n", (int)(n > 600 ? 600 : n), m);
        say(b);
        _exit(20);
    }
}
void v_obs(uint64_t v) {
    if (have_obs) {
        if (nobs >= nexp || exp_obs[nobs] != v) {
            char b[200];
            snprintf(b, sizeof b, "OBS-DIFF #%d engine=%llx native=%llx\n", nobs, nobs < nexp ? (unsigned long long)exp_obs[nobs] : 0ull, (unsigned long long)v);
            say(b);
            _exit(30);
        }
    } else if (verbose > 1) {
        char b[100];
        snprintf(b, sizeof b, "obs %llx\n", (unsigned long long)v);
        say(b);
    }
    nobs++;
}
uint64_t v_arg(uint32_t i) { return (int)i < nargs ? args_[i] : 0; }
uint64_t v_conc(uint64_t v) { return v; }
void v_reach_raw(const char *m, uint64_t n) { (void)m; (void)n; }
void v_expect_panic(uint8_t on) { expect_panic = on; }
/* numbers are never symbolic here */
uint64_t v_token(uint64_t v) { (void)v; return 0; }
uint64_t v_token_value(uint64_t k) { (void)k; return 0; }
void v_forkhint(uint8_t on) { (void)on; }
uint64_t v_ext_write(uint32_t fd, const char *p, uint64_t n) { return syscall(SYS_write, fd, p, n); }

static void on_abort(int s) { (void)s; if (expect_panic) _exit(0); _exit(134); }

static int parse_hex(const char *s, uint64_t *out, int max) {
    int n = 0;
    while (*s && n < max) {
        while (*s == ' ' || *s == ',') s++;
        if (!*s || *s == '\n' || *s == '|') break;
        char *e;
        out[n++] = strtoull(s, &e, 16);
        if (e == s) break;
        s = e;
    }
    return n;
}

/* file: one line per run "hex,hex,... | obs,obs,..." ; the obs part is optional */
int v_native(void (*f)(void), const char *args, const char *file) {
    const char *a = args;
    while (*a) {
        char *e;
        args_[nargs++] = strtoull(a, &e, 10);
        if (e == a) { nargs--; break; }
        a = *e == ',' ? e + 1 : e;
    }
    signal(SIGABRT, on_abort);
    verbose = getenv("V_VERBOSE") ? atoi(getenv("V_VERBOSE")) : 1;
    FILE *fp = fopen(file, "r");
    if (!fp) return 40;
    char *line = NULL;
    size_t cap = 0;
    int bad = 0, runs = 0;
    int single = getenv("V_SINGLE") != NULL;
    while (getline(&line, &cap, fp) > 0) {
        if (line[0] == '#') continue;
        nin = parse_hex(line, in, 1 << 16);
        char *bar = strchr(line, '|');
        have_obs = 0;
        if (bar) { nexp = parse_hex(bar + 1, exp_obs, 1 << 20); have_obs = 1; }
        pos = nobs = 0;
        if (single) {
            f();
            if (have_obs && nobs != nexp) { say("OBS-COUNT\n"); return 30; }
            return 0;
        }
        pid_t p = fork();
        if (p == 0) {
            alarm(120);
            f();
            if (have_obs && nobs != nexp) { say("OBS-COUNT\n"); _exit(30); }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        runs++;
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (code) {
            bad++;
            char b[100];
            snprintf(b, sizeof b, "run %d: code %d\n", runs, code);
            say(b);
        }
    }
    char b[100];
    snprintf(b, sizeof b, "runs %d bad %d\n", runs, bad);
    say(b);
    return bad ? 1 : 0;
}
