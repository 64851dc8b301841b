/* Native replay of a counterexample with threads: runs the instrumented module itself, one thread at a time, in the
 * recorded order.  threads <entry> <file> <params>: exit 0 completed, 1 assertion, 2 assumption, 3/4 diverged */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static struct { unsigned char *b; size_t n; } objs[1 << 16];
static size_t nobj, next, nlog, nwlog, nlive;
static uint64_t logs[4096], wlog[4096], params[32];
static unsigned char cov[1024], wcov[1024];
static void out(int rc, const char *s) { printf("REPLAY %s\n", s); fflush(stdout); _exit(rc); }
void __sym_make(unsigned char *p, size_t n, const char *name, size_t nl) {
    if (next >= nobj) out(3, "diverged: more symbolic objects than recorded");
    if (objs[next].n != n) out(3, "diverged: object size");
    memcpy(p, objs[next++].b, n);
}
void __sym_assume(_Bool c) { if (!c) out(2, "assumption not met"); }
void __sym_assert(_Bool c, uint32_t id) { if (!c) { printf("REPLAY assertion %u failed\n", id); fflush(stdout); _exit(1); } }
void __sym_cover(uint32_t id) { cov[id] = 1; }
uint64_t __sym_conc(uint64_t x) { return x; }
void __sym_clock(uint64_t s, uint64_t n) {}
void __sym_log(uint64_t x) { logs[nlog++] = x; }
uint64_t __sym_param(uint32_t i) { return params[i]; }
uint64_t __sym_live(void) { return 0; }
void __sym_merge(void) {}
/* baton */
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static size_t baton, nthreads = 1;
static __thread size_t me;
struct start { void (*f)(size_t); size_t arg, id; };
static void *body(void *v) {
    struct start *s = v;
    me = s->id;
    pthread_mutex_lock(&mu);
    while (baton != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    s->f(s->arg);
    return 0;
}
size_t __sym_spawn(void (*f)(size_t), size_t arg) {
    struct start *s = malloc(sizeof *s);
    pthread_attr_t a;
    pthread_t t;
    s->f = f; s->arg = arg; s->id = nthreads++;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 64 << 20);
    pthread_create(&t, &a, body, s);
    return s->id;
}
void __sym_switch(size_t t) {
    pthread_mutex_lock(&mu);
    baton = t;
    pthread_cond_broadcast(&cv);
    while (baton != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
}
static void *root(void *v) { me = 0; ((void (*)(void))v)(); return 0; }
int main(int c, char **v) {
    FILE *f = fopen(v[2], "r");
    static char line[1 << 20];
    int witness = 0;
    void *e = 0;
#define X(n) extern void n(void); if (!strcmp(v[1], #n)) e = (void *)n;
    ENTRIES
    if (!f || !e) out(3, "no entry");
    while (fgets(line, sizeof line, f)) {
        char k[16], a[256], *h;
        if (!strncmp(line, "# witness", 9)) witness = 1;
        if (sscanf(line, "%15s %255s", k, a) < 2) continue;
        if (!strcmp(k, "obj")) {
            h = strchr(line + 4, ' ');
            h = h ? h + 1 : "";
            size_t n = strcspn(h, " \n") / 2;
            objs[nobj].n = n;
            objs[nobj].b = malloc(n + 1);
            for (size_t i = 0; i < n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); objs[nobj].b[i] = x; }
            nobj++;
        } else if (!strcmp(k, "log")) wlog[nwlog++] = strtoull(a, 0, 10);
        else if (!strcmp(k, "cover")) wcov[atoi(a)] = 1;
    }
    if (c > 3) { int i = 0; for (char *p = strtok(v[3], ","); p; p = strtok(0, ",")) params[i++] = strtoull(p, 0, 10); }
    pthread_attr_t a;
    pthread_t t;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 256 << 20);
    pthread_create(&t, &a, root, e);
    pthread_join(t, 0);
    if (witness && (next != nobj || nlog != nwlog || memcmp(logs, wlog, nlog * 8) || memcmp(cov, wcov, sizeof cov))) out(4, "diverged from the symbolic run");
    out(0, "completed");
}
