/* A C client of the shared library, with declarations of its own (the published interface, frozen).

   usage: cdriver LIB IN OUT [HANDLE]     (with HANDLE: only the operations on that handle)

   IN is as for the Rust harness.  OUT receives a line "S <id>" for each scenario and then one JSON object for each
   operation:
     c     what the function returned: a bit pattern, or the name of an error code, "code<n>" for an unknown code,
           "unwritten" / "overrun" when the error variable was not written, or more than it
     f     the 18 fields (as in the Rust harness; "" for d2p_dtd), then the density in the property record
     rec   the property record, in order
     at    the address returned by new
     oth   other live handles with changed values
     heap  blocks and bytes that the library held before and after the operation
     bad   errors in its use of memory that were found during the operation
   Operation on: the operations after it run on the given thread (0: the main thread).
   Flag T: the operations of each handle on a thread of its own, all at once.
   Further operations: free of any handle, "null - <kind> <function>" (calls it with a null handle, in a process of its
   own), "spin" and "swing" (repeat operations, and tell whether they gave the same) and "sym - <name>" (whether the library
   exports it), "compact" (set_composition from a record at the end of a mapping, so that reading past it fails).                                                                        */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

/* ------------------------------------------------ the interface ------------------------------------------------ */
typedef struct {
    double methane, nitrogen, carbon_dioxide, ethane, propane, isobutane, n_butane, isopentane, n_pentane, hexane,
        heptane, octane, nonane, decane, hydrogen, oxygen, carbon_monoxide, water, hydrogen_sulfide, helium, argon;
} composition;
typedef struct {
    double d, mm, z, dp_dd, d2p_dd2, dp_dt, u, h, s, cv, cp, w, g, jt, kappa;
} properties;
_Static_assert(sizeof(composition) == 21 * 8 && sizeof(properties) == 15 * 8, "records");

/* ---------------------------------------------- memory of the library ---------------------------------------------- */
extern void *__libc_malloc(size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);
#define TBL 65536
#define TAIL 16
static struct block { void *p; size_t n; } tbl[TBL];
static __thread volatile int inside;
static long blocks, bytes, bad;
static pthread_mutex_t heap = PTHREAD_MUTEX_INITIALIZER; /* of all that is below, up to free */
#define QN 512
static struct block quarantine[QN];
static int qpos;

static unsigned slot(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % TBL; }
static void *track(void *p, size_t n, int zero) {
    if (!p) return p;
    memset(p, zero ? 0 : 0xa5, n);
    memset((char *)p + n, 0x5c, TAIL);
    pthread_mutex_lock(&heap);
    for (unsigned i = slot(p), k = 0; k < TBL; i = (i + 1) % TBL, k++)
        if (!tbl[i].p) {
            tbl[i].p = p;
            tbl[i].n = n;
            break;
        }
    blocks++;
    bytes += (long)n;
    pthread_mutex_unlock(&heap);
    return p;
}
static struct block *find(void *p) {
    for (unsigned i = slot(p); tbl[i].p; i = (i + 1) % TBL)
        if (tbl[i].p == p) return &tbl[i];
    return NULL;
}
static void untrack(struct block *b) {
    unsigned i = (unsigned)(b - tbl);
    tbl[i].p = NULL;
    for (unsigned j = (i + 1) % TBL; tbl[j].p; j = (j + 1) % TBL) {
        struct block m = tbl[j];
        tbl[j].p = NULL;
        for (unsigned k = slot(m.p);; k = (k + 1) % TBL)
            if (!tbl[k].p) {
                tbl[k] = m;
                break;
            }
    }
}
static int filled(const unsigned char *p, int v, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (p[i] != v) return 0;
    return 1;
}
static void release(struct block *q) {
    if (q->p) {
        if (!filled(q->p, 0xdd, q->n + TAIL)) bad++; /* written to after it was freed */
        __libc_free(q->p);
        q->p = NULL;
    }
}
void *malloc(size_t n) { return inside ? track(__libc_malloc(n + TAIL), n, 0) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
    return inside ? track(__libc_malloc(a * b + TAIL), a * b, 1) : __libc_calloc(a, b);
}
void *memalign(size_t al, size_t n) { return inside ? track(__libc_memalign(al, n + TAIL), n, 0) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) {
    *r = memalign(al, n);
    return *r ? 0 : ENOMEM;
}
void free(void *p) {
    if (!p) return;
    pthread_mutex_lock(&heap);
    struct block *b = find(p);
    int mine = b != NULL;
    if (b) {
        struct block q = *b;
        if (!filled((unsigned char *)p + q.n, 0x5c, TAIL)) bad++; /* written past its end */
        untrack(b);
        blocks--;
        bytes -= (long)q.n;
        memset(p, 0xdd, q.n + TAIL);
        release(&quarantine[qpos]);
        quarantine[qpos] = q;
        qpos = (qpos + 1) % QN;
    } else {
        for (int i = 0; i < QN; i++)
            if (quarantine[i].p == p) mine = 1; /* freed twice */
        if (mine || inside) bad++;              /* or not a block of the library */
        if (inside) mine = 1;
    }
    pthread_mutex_unlock(&heap);
    if (!mine) __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    pthread_mutex_lock(&heap);
    struct block *b = find(p);
    size_t old = b ? b->n : 0;
    if (!b && inside) bad++;
    pthread_mutex_unlock(&heap);
    if (!b) return __libc_realloc(p, n);
    int was = inside;
    inside = 1;
    void *r = malloc(n);
    inside = was;
    if (r) {
        memcpy(r, p, old < n ? old : n);
        free(p);
    }
    return r;
}
#define LIB(stmt) \
    do {          \
        inside = 1; \
        stmt;     \
        inside = 0; \
    } while (0)

/* ------------------------------------------------- the functions ------------------------------------------------- */
static void *lib;
static void missing(void) { abort(); } /* stands for a function that the library does not export */
static void *fn(const char *kind, const char *name) {
    static __thread struct { char key[64]; void *f; } cache[64];
    char full[64];
    snprintf(full, sizeof full, "%s_%s", *kind == 'D' ? "aga8" : "gerg", name);
    int i = 0;
    for (; i < 63 && cache[i].key[0]; i++)
        if (!strcmp(cache[i].key, full)) return cache[i].f;
    void *f = dlsym(lib, full);
    if (!f) {
        fprintf(stderr, "missing function %s\n", full);
        f = (void *)missing;
    }
    strcpy(cache[i].key, full);
    cache[i].f = f;
    return f;
}
#define CALL(type, k, name) ((type)fn(k, name))
typedef void *(*f_new)(void);
typedef void (*f_void)(void *);
typedef void (*f_comp)(void *, const composition *, int *);
typedef void (*f_set)(void *, double);
typedef double (*f_get)(void *);
typedef properties (*f_props)(const void *);
typedef void *(*f_into)(properties *, const void *); /* the same, as the System V ABI passes large results */
typedef void (*f_dens)(void *, int *);

struct handle {
    char name[16];
    char kind[2];
    void *p;
    double last[18];
    composition x; /* accepted last */
};
static struct session { /* the handles in use and where their operations are recorded */
    struct handle hs[1024];
    int nh;
    FILE *out;
} first_session;
static __thread struct session *at_work = &first_session;
#define hs (at_work->hs)
#define nh (at_work->nh)
#define out (at_work->out)
static struct handle *handle(const char *n) {
    for (int i = 0; i < nh; i++)
        if (!strcmp(hs[i].name, n)) return &hs[i];
    return NULL;
}
static void observe(struct handle *h, double v[18], properties *r) {
    LIB(v[0] = CALL(f_get, h->kind, "get_temperature")(h->p));
    LIB(v[1] = CALL(f_get, h->kind, "get_pressure")(h->p));
    LIB(v[2] = CALL(f_get, h->kind, "get_density")(h->p));
    /* the record is written into memory of the caller, which has room for 15 doubles */
    struct { properties r; unsigned char guard[256]; } b;
    memset(&b, 0x77, sizeof b);
#ifdef __x86_64__
    LIB(CALL(f_into, h->kind, "get_properties")(&b.r, h->p));
#else
    LIB(b.r = CALL(f_props, h->kind, "get_properties")(h->p));
#endif
    for (size_t i = 0; i < sizeof b.guard; i++)
        if (b.guard[i] != 0x77) memset(&b.r, 0x55, sizeof b.r); /* it wrote more */
    *r = b.r;
    double w[15] = {r->z, r->mm, r->dp_dd, r->d2p_dd2, 0, r->dp_dt, r->u, r->h, r->s, r->cv, r->cp, r->w, r->g, r->jt, r->kappa};
    memcpy(v + 3, w, sizeof w);
}

static int close_to(double a, double b) { /* two repetitions of a calculation */
    return a == b || (a != a && b != b) || (fabs(a - b) <= 1e-9 * (1 + fmax(fabs(a), fabs(b))) && (a == 0) == (b == 0));
}
static double num(const char *s) {
    uint64_t u = strtoull(s, NULL, 16);
    double v;
    memcpy(&v, &u, 8);
    return v;
}
static void put(FILE *o, double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    fprintf(o, "\"%016llx\"", (unsigned long long)u);
}
static __thread char word[64];
static const char *code(const char *names[3], const int *b) {
    if (b[0] == 0x4d4d4d4d) return "unwritten";
    if (b[1] != 0x4d4d4d4d) return "overrun";
    if (b[0] >= 0 && b[0] < 3) return names[b[0]];
    snprintf(word, sizeof word, "code%d", b[0]);
    return word;
}
static const char *COMPOSITION[3] = {"ok", "empty", "badsum"}, *DENSITY[3] = {"ok", "fail", "low"};

/* A composition record whose end is the end of a mapping. */
static composition *edge(void) {
    static composition *c;
    if (!c) {
        char *m = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m + 4096, 4096, PROT_NONE);
        c = (composition *)(m + 4096 - sizeof(composition));
    }
    return c;
}
static void fill(composition *c, char **a, int n) {
    double *f[21] = {&c->methane, &c->nitrogen, &c->carbon_dioxide, &c->ethane, &c->propane, &c->isobutane, &c->n_butane,
                     &c->isopentane, &c->n_pentane, &c->hexane, &c->heptane, &c->octane, &c->nonane, &c->decane, &c->hydrogen,
                     &c->oxygen, &c->carbon_monoxide, &c->water, &c->hydrogen_sulfide, &c->helium, &c->argon};
    for (int i = 0; i < 21 && i < n; i++) *f[i] = num(a[i]);
}

static void null_call(const char *k, const char *name) {
    composition c;
    memset(&c, 0, sizeof c);
    c.methane = 1;
    int err[2] = {0, 0};
    if (!strcmp(name, "free")) CALL(f_void, k, name)(NULL);
    else if (!strcmp(name, "set_composition")) CALL(f_comp, k, name)(NULL, &c, err);
    else if (!strncmp(name, "set_", 4)) CALL(f_set, k, name)(NULL, 1.0);
    else if (!strcmp(name, "get_properties")) CALL(f_props, k, name)(NULL);
    else if (!strcmp(name, "calculate_density")) CALL(f_dens, k, name)(NULL, err);
    else if (!strcmp(name, "calculate_properties")) CALL(f_void, k, name)(NULL);
    else CALL(f_get, k, name)(NULL);
}

/* Operation warm: on every thread, first use everything once, so that what the library keeps for itself, once or for
   each thread, is not taken for the memory of a handle. */
static int warmed;
static void warm(void) {
    for (int i = 0; i < 6; i++) {
        const char *k = i % 2 ? "G" : "D";
        int err[4];
        composition c;
        double *f = (double *)&c;
        for (int j = 0; j < 21; j++) f[j] = 1.0 / 21;
        void *q;
        LIB(q = CALL(f_new, k, "new")());
        if (!q) return;
        LIB(CALL(f_comp, k, "set_composition")(q, &c, err));
        static const double t[3] = {300, 300, 20}, p[3] = {4000, 0, 1e13};
        for (int j = 0; j < 3; j++) {
            LIB(CALL(f_set, k, "set_temperature")(q, t[j]));
            LIB(CALL(f_set, k, "set_pressure")(q, p[j]));
            LIB(CALL(f_dens, k, "calculate_density")(q, err));
            LIB(CALL(f_get, k, "calculate_molar_mass")(q));
            LIB(CALL(f_get, k, "calculate_pressure")(q));
            LIB(CALL(f_void, k, "calculate_properties")(q));
            LIB(CALL(f_props, k, "get_properties")(q));
        }
        f[0] = 7;
        LIB(CALL(f_comp, k, "set_composition")(q, &c, err));
        LIB(CALL(f_void, k, "free")(q));
        LIB(CALL(f_void, k, "free")(NULL));
    }
}

static int parallel; /* operations run on several threads at once */
#define THREADS 8
static int current; /* thread that operations run on */
static int op(char **w, int n) { /* one entry of OUT */
    const char *o = w[0], *h = w[1];
    char **a = w + 2;
    char ret[64] = "";
    struct handle *me = handle(h);
    int err[4];
    static const int before[4] = {0x4d4d4d4d, 0, 1, 2}; /* the error variable before the call */
    static unsigned calls;
    memset(err, 0x4d, sizeof err);
    err[0] = before[__atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED) % 4];
    double v;
    void *at = NULL;
    int isval = 0;
    long blocks0 = blocks, bytes0 = bytes, bad0 = bad;
    if (!parallel) alarm(20);
    if (!strcmp(o, "new")) {
        struct handle *q = &hs[nh];
        memset(q, 0, sizeof *q);
        snprintf(q->name, sizeof q->name, "%s", h);
        snprintf(q->kind, sizeof q->kind, "%s", a[0]);
        LIB(q->p = CALL(f_new, a[0], "new")());
        at = q->p;
        if (!at) {
            strcpy(ret, "null");
        } else {
            nh++;
            me = q;
        }
    } else if (!strcmp(o, "free")) {
        LIB(CALL(f_void, me->kind, "free")(me->p));
        *me = hs[--nh];
        me = NULL;
    } else if (!strcmp(o, "setx") || !strcmp(o, "compact")) {
        composition c, *p = *o == 'c' ? edge() : &c;
        fill(p, a, n - 2);
        LIB(CALL(f_comp, me->kind, "set_composition")(me->p, p, err));
        strcpy(ret, code(COMPOSITION, err));
        if (!strcmp(ret, "ok")) fill(&me->x, a, n - 2);
    } else if (!strcmp(o, "raw")) {
        const char *s = *a[0] == 't' ? "set_temperature" : *a[0] == 'p' ? "set_pressure" : "set_density";
        if (strlen(a[0]) != 1 || !strchr("tpd", *a[0])) return 5;
        LIB(CALL(f_set, me->kind, s)(me->p, num(a[1])));
    } else if (!strcmp(o, "scale")) {
        const char *g = *a[0] == 't' ? "get_temperature" : *a[0] == 'p' ? "get_pressure" : "get_density";
        const char *s = *a[0] == 't' ? "set_temperature" : *a[0] == 'p' ? "set_pressure" : "set_density";
        LIB(v = CALL(f_get, me->kind, g)(me->p));
        LIB(CALL(f_set, me->kind, s)(me->p, v * num(a[1])));
    } else if (!strcmp(o, "mm") || !strcmp(o, "pressure")) {
        LIB(v = CALL(f_get, me->kind, *o == 'm' ? "calculate_molar_mass" : "calculate_pressure")(me->p));
        isval = 1;
    } else if (!strcmp(o, "density")) {
        if (n > 2 && strcmp(a[0], "0")) return 5;
        LIB(CALL(f_dens, me->kind, "calculate_density")(me->p, err));
        strcpy(ret, code(DENSITY, err));
    } else if (!strcmp(o, "props")) {
        LIB(CALL(f_void, me->kind, "calculate_properties")(me->p));
    } else if (!strcmp(o, "spin")) {
        double first[20], now[20];
        strcpy(ret, "same");
        for (int i = 0, m = atoi(a[0]); i < m; i++) {
            static const char *turn[4] = {"pressure", "props", "mm", "density"};
            const char *s = strcmp(a[1], "all") ? a[1] : turn[i % 4];
            properties r;
            v = err[0] = 0;
            if (!strcmp(s, "density")) LIB(CALL(f_dens, me->kind, "calculate_density")(me->p, err));
            else if (!strcmp(s, "props")) LIB(CALL(f_void, me->kind, "calculate_properties")(me->p));
            else if (!strcmp(s, "setx")) LIB(CALL(f_comp, me->kind, "set_composition")(me->p, &me->x, err));
            else LIB(v = CALL(f_get, me->kind, *s == 'm' ? "calculate_molar_mass" : "calculate_pressure")(me->p));
            if (!i || !strcmp(a[1], "all")) continue;
            observe(me, now, &r);
            now[18] = v;
            now[19] = err[0];
            if (i == 1) memcpy(first, now, sizeof now);
            for (int j = 0; j < 20; j++)
                if (!close_to(first[j], now[j])) strcpy(ret, "differs");
        }
    } else if (!strcmp(o, "swing")) {
        double t, first[2][20], now[20];
        composition y = me->x;
        double *f = (double *)&y, *g = (double *)&me->x;
        for (int i = 0; i < 21; i++) f[i] = g[20 - i];
        LIB(t = CALL(f_get, me->kind, "get_temperature")(me->p));
        strcpy(ret, "same");
        for (int i = 0, m = 2 * atoi(a[0]); i < m; i++) {
            properties r;
            v = err[0] = 0;
            if (*a[1] == 't') LIB(CALL(f_set, me->kind, "set_temperature")(me->p, i % 2 ? t : num(a[2])));
            else LIB(CALL(f_comp, me->kind, "set_composition")(me->p, i % 2 ? &me->x : &y, err));
            if (!strcmp(a[3], "props")) LIB(CALL(f_void, me->kind, "calculate_properties")(me->p));
            else if (!strcmp(a[3], "density")) LIB(CALL(f_dens, me->kind, "calculate_density")(me->p, err));
            else LIB(v = CALL(f_get, me->kind, "calculate_pressure")(me->p));
            if (i < 2) continue;
            observe(me, now, &r);
            now[18] = v;
            now[19] = err[0];
            if (i < 4) memcpy(first[i % 2], now, sizeof now);
            for (int j = 0; j < 20; j++)
                if (!close_to(first[i % 2][j], now[j])) strcpy(ret, "differs");
        }
    } else if (!strcmp(o, "on")) {
        current = atoi(a[0]);
        if (current >= THREADS) return 5;
    } else if (!strcmp(o, "warm")) {
        warmed = 1;
        warm();
    } else if (!strcmp(o, "sym")) {
        strcpy(ret, dlsym(lib, a[0]) ? "found" : "missing");
    } else if (!strcmp(o, "null")) {
        pid_t pid = fork();
        if (!pid) {
            alarm(10);
            fclose(stderr);
            close(2);
            null_call(a[0], a[1]);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) snprintf(ret, sizeof ret, "signal%d", WTERMSIG(st));
        else if (WEXITSTATUS(st)) snprintf(ret, sizeof ret, "exit%d", WEXITSTATUS(st));
        else strcpy(ret, "returned");
    } else if (strcmp(o, "note") && strcmp(o, "move") && strcmp(o, "check") && strcmp(o, "norm") && strcmp(o, "sum"))
        return 5;
    fprintf(out, "{\"op\":\"%s\",\"c\":", o);
    if (isval) put(out, v);
    else fprintf(out, "\"%s\"", ret);
    fprintf(out, ",\"at\":\"%lx\",\"f\":[", (unsigned long)at);
    properties r;
    if (me) {
        observe(me, me->last, &r);
        for (int i = 0; i < 18; i++) {
            if (i == 7) fputs("\"\"", out);
            else put(out, me->last[i]);
            fputc(',', out);
        }
        put(out, r.d);
    }
    fprintf(out, "],\"rec\":[");
    if (me) {
        const double *q = (const double *)&r;
        for (int i = 0; i < 15; i++) {
            if (i) fputc(',', out);
            put(out, q[i]);
        }
    }
    fprintf(out, "],\"oth\":[");
    int first = 1;
    for (int i = 0; i < nh; i++)
        if (&hs[i] != me) {
            double now[18];
            observe(&hs[i], now, &r);
            if (memcmp(now, hs[i].last, sizeof now)) {
                fprintf(out, "%s\"%s\"", first ? "" : ",", hs[i].name);
                first = 0;
                memcpy(hs[i].last, now, sizeof now);
            }
        }
    fprintf(out, "],\"heap\":[%ld,%ld,%ld,%ld],\"bad\":%ld}\n", blocks0, bytes0, blocks, bytes, bad - bad0);
    if (!parallel) alarm(0);
    return 0;
}

/* Operations on other threads, one at a time. */
static struct worker {
    pthread_t id;
    sem_t go, done;
    char **w;
    int n, r, started;
    struct session *at_work;
} workers[THREADS];
static void *work(void *p) {
    struct worker *me = p;
    if (warmed) warm();
    for (;;) {
        sem_wait(&me->go);
        at_work = me->at_work;
        me->r = op(me->w, me->n);
        sem_post(&me->done);
    }
    return NULL;
}
static int op_on(char **w, int n) {
    struct worker *q = &workers[current];
    if (!current || !strcmp(w[0], "on")) return op(w, n);
    if (!q->started) {
        sem_init(&q->go, 0, 0);
        sem_init(&q->done, 0, 0);
        if (pthread_create(&q->id, NULL, work, q)) return 5;
        q->started = 1;
    }
    q->at_work = at_work;
    q->w = w;
    q->n = n;
    sem_post(&q->go);
    while (sem_wait(&q->done)) {}
    return q->r;
}

/* The operations of each handle on a thread of its own, all at once. */
struct line {
    char *w[64];
    int n;
};
static struct part {
    pthread_t id;
    const char *h;
    struct line *l;
    int n, e;
    char *text;
    size_t size;
} parts[THREADS];
static pthread_barrier_t gate;
static volatile int there, expected;
static void *run_part(void *p) {
    struct part *me = p;
    at_work = calloc(1, sizeof *at_work);
    out = open_memstream(&me->text, &me->size);
    pthread_barrier_wait(&gate);
    __atomic_fetch_add(&there, 1, __ATOMIC_SEQ_CST); /* and once more, closer together */
    for (int n = 0; n < 20000 && there < expected; n++)
        if (n % 64 == 63) sched_yield();
    for (int i = 0; i < me->n && !me->e; i++)
        if (!strcmp(me->l[i].w[1], me->h)) me->e = op(me->l[i].w, me->l[i].n);
    while (nh) {
        nh--;
        LIB(CALL(f_void, hs[nh].kind, "free")(hs[nh].p));
    }
    fclose(out);
    free(at_work);
    return NULL;
}
static int run_parallel(struct line *l, int n) {
    int m = 0, e = 0;
    for (int i = 0; i < n; i++) {
        int k = 0;
        while (k < m && strcmp(parts[k].h, l[i].w[1])) k++;
        if (k == m && m < THREADS) parts[m++] = (struct part){.h = l[i].w[1], .l = l, .n = n};
    }
    if (!m) return 0;
    parallel = 1;
    alarm(60);
    pthread_barrier_init(&gate, NULL, m);
    there = 0;
    expected = m;
    for (int k = 0; k < m; k++)
        if (pthread_create(&parts[k].id, NULL, run_part, &parts[k])) return 5;
    for (int k = 0; k < m; k++) {
        pthread_join(parts[k].id, NULL);
        if (parts[k].e) e = parts[k].e;
        fwrite(parts[k].text, 1, parts[k].size, out);
        free(parts[k].text);
    }
    pthread_barrier_destroy(&gate);
    alarm(0);
    parallel = 0;
    return e;
}

int main(int argc, char **argv) {
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    if (argc < 4) return 2;
    lib = dlopen(argv[1], RTLD_NOW);
    if (!lib) {
        fprintf(stderr, "%s\n", dlerror());
        return 4;
    }
    FILE *in = fopen(argv[2], "r");
    out = fopen(argv[3], "w");
    if (!in || !out) return 2;
    const char *only = argc > 4 ? argv[4] : NULL;
    static char line[1 << 16];
    static struct line kept[4096];
    int nkept = 0, together = 0, e = 0;
    while (fgets(line, sizeof line, in)) {
        struct line l = {.n = 0};
        for (char *s = strtok(line, " \n"); s && l.n < 64; s = strtok(NULL, " \n")) l.w[l.n++] = s;
        if (!l.n) continue;
        if (!strcmp(l.w[0], "S")) {
            fprintf(out, "S %s\n", l.w[1]);
            current = 0;
            together = !only && l.n > 2 && strchr(l.w[2], 'T') != NULL;
        } else if (!strcmp(l.w[0], "E")) {
            if (together) {
                fflush(out);
                if ((e = run_parallel(kept, nkept))) return e;
                while (nkept) {
                    nkept--;
                    for (int i = 0; i < kept[nkept].n; i++) free(kept[nkept].w[i]);
                }
            }
            while (nh) {
                nh--;
                LIB(CALL(f_void, hs[nh].kind, "free")(hs[nh].p));
            }
        } else if (together) {
            if (nkept == 4096 || l.n < 2) return 5;
            for (int i = 0; i < l.n; i++) l.w[i] = strdup(l.w[i]);
            kept[nkept++] = l;
        } else if (!only || (l.n > 1 && !strcmp(l.w[1], only))) {
            fflush(out); /* what was recorded survives if the operation ends the process */
            if ((e = op_on(l.w, l.n))) {
                fprintf(stderr, "operation %s %s\n", l.w[0], l.n > 2 ? l.w[2] : "");
                return e;
            }
        }
    }
    for (int i = 0; i < QN; i++) release(&quarantine[i]);
    if (bad) fprintf(out, "S -end-\n{\"op\":\"end\",\"bad\":%ld}\n", bad);
    fclose(out);
    return 0;
}
