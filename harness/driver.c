/*
 * Fork-server driver around the public API of JPStream.
 * Reads framed requests on fd 0, runs each in a forked child (so that a crash,
 * exit() or hang is an observation and not the end of the run), and writes a
 * framed response on the original fd 1.  Everything the library prints goes to
 * /dev/null; stderr of the child (sanitizer reports) is returned.
 *
 * Request : u32 n, n * (u32 len, bytes).  field 0 = op, field 1 = time limit (ms)
 * Response: u32 kind(0 exit,1 signal,2 timeout) u32 code u32 plen payload u32 elen err
 * Payload : records  (u8 tag, u32 len, bytes)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ctype.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <malloc.h>
#include "path_processor.h"

#ifdef JPSTREAM_VERIF
int jpstream_memory_footprint = 250000000;
#endif
/* sched.c */
extern unsigned long jps_sched_seed, jps_fail_mask;
extern int jps_threads_refused, jps_threads_started;
void jps_sched_reset(void); void jps_thread_reset(void);
unsigned long jps_sched_finger(void); unsigned jps_sched_switches(void); unsigned jps_sched_entries(void);
/* alloc.c, plain build only */
long jps_live_blocks(void) __attribute__((weak)); long jps_live_bytes(void) __attribute__((weak));
long jps_peak_bytes(void) __attribute__((weak)); void jps_peak_reset(void) __attribute__((weak));
static int counted(void) { return jps_live_blocks != 0; }

static int out_fd = -1;   /* response stream of the driver */
static int rec_fd = -1;   /* record pipe of the child      */
static char scratch[256]; /* directory for input files     */

/* ------------------------------------------------------------------ io */
static void die(const char* m) { fprintf(stderr, "driver: %s\n", m); _exit(90); }
static int rd(int fd, void* p, size_t n) {
    char* c = p; size_t got = 0;
    while (got < n) { ssize_t r = read(fd, c + got, n - got);
        if (r == 0) return 0; if (r < 0) { if (errno == EINTR) continue; return -1; } got += r; }
    return 1;
}
static void wr(int fd, const void* p, size_t n) {
    const char* c = p; size_t put = 0;
    while (put < n) { ssize_t r = write(fd, c + put, n - put);
        if (r < 0) { if (errno == EINTR) continue; _exit(91); } put += r; }
}
static char* obuf; static size_t olen, ocap;
static void oflush(void) { if (olen) wr(rec_fd, obuf, olen); olen = 0; }
static void oput(const void* p, size_t n) {
    if (!obuf) { ocap = 1 << 16; obuf = malloc(ocap); }
    if (olen + n > ocap) oflush();
    if (n > ocap) { wr(rec_fd, p, n); return; }
    memcpy(obuf + olen, p, n); olen += n;
}
static void rec(char tag, const void* p, size_t n) {
    uint32_t l = (uint32_t)n; oput(&tag, 1); oput(&l, 4); oput(p, n);
}
static void recs(char tag, const char* s) { if (s == NULL) rec(toupper(tag), "", 0); else rec(tag, s, strlen(s)); }
static void reci(char tag, long v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", v); rec(tag, b, n); }

typedef struct { char* p; uint32_t n; } F;
static F f[4096]; static uint32_t nf;

/* exact-size, NUL-terminated heap copy: one byte past it is a red zone */
static char* dup_field(int i) { char* c = malloc(f[i].n + 1); memcpy(c, f[i].p, f[i].n); c[f[i].n] = 0; return c; }
static long ifield(int i) { char b[32]; uint32_t n = f[i].n < 31 ? f[i].n : 31; memcpy(b, f[i].p, n); b[n] = 0; return atol(b); }
static char fpath[2][300];
static char* file_field(int slot, int i) {
    snprintf(fpath[slot], sizeof fpath[slot], "%s/in%d.json", scratch, slot);
    int fd = open(fpath[slot], O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) die("scratch file");
    wr(fd, f[i].p, f[i].n); close(fd);
    return fpath[slot];
}

/* ----------------------------------------------------------- emitters */
static void emit_output(Output* o) {
    if (o == NULL) { rec('N', "", 0); return; }
    int n = getOutputSize(o);
    reci('c', n);
    for (int i = 0; i < n; i++) recs('o', getOutputElement(o, i));
}
static void emit_from(Output* o, int* from) {   /* only what was added since */
    if (o == NULL) { rec('N', "", 0); return; }
    int n = getOutputSize(o);
    reci('c', n - *from);
    for (int i = *from; i < n; i++) recs('o', getOutputElement(o, i));
    *from = n;
}

static char opname[64];
static int is(const char* s) { return strcmp(opname, s) == 0; }

/* op@key=value,...  fp: bytes per load, seed: schedule, fail: threads to refuse,
   tab: what every further chunk does about the constraints (keep, new table, none given, plain function) */
static char tables[64];
static void settings(void) {
    char b[256]; uint32_t n = f[0].n < 255 ? f[0].n : 255; memcpy(b, f[0].p, n); b[n] = 0;
    char* at = strchr(b, '@'); if (at) *at++ = 0;
    snprintf(opname, sizeof opname, "%s", b);
    char* save = NULL;
    if (at) for (char* t = strtok_r(at, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
        char* v = strchr(t, '='); if (!v) die("setting"); *v++ = 0;
        if (!strcmp(t, "fp")) {
#ifdef JPSTREAM_VERIF
            jpstream_memory_footprint = atoi(v);
#else
            die("no hook");
#endif
        } else if (!strcmp(t, "seed")) jps_sched_seed = strtoul(v, NULL, 10);
        else if (!strcmp(t, "tab")) snprintf(tables, sizeof tables, "%s", v);
        else if (!strcmp(t, "fail")) jps_fail_mask = strtoul(v, NULL, 16);
        else die("unknown setting");
    }
}
static void emit_schedule(void) {
    if (jps_sched_seed) {
        char b[96]; int n = snprintf(b, sizeof b, "%lx %u %u %d", jps_sched_finger(), jps_sched_switches(), jps_sched_entries(), jps_threads_started);
        rec('I', b, n);
    }
    if (jps_fail_mask) reci('J', jps_threads_refused);
}

typedef struct { PathProcessor* pp; char* query; char* file; int rounds; int ncore; char* result; size_t n; } Job;
static void* job_main(void* a) {      /* one of several concurrent users */
    Job* j = a;
    size_t cap = 1 << 16; j->result = malloc(cap); j->n = 0;
    for (int r = 0; r < j->rounds; r++) {
        PathProcessor* pp = j->pp ? j->pp : createPathProcessor(j->query);
        Output* o;
        if (j->ncore < 0) {
            ConstraintTable* ct = collectDataConstraints(pp, j->file);
            o = parallelRunOpt(pp, j->file, -j->ncore, ct);
            freeConstraintTable(ct);
        } else o = j->ncore > 0 ? parallelRun(pp, j->file, j->ncore) : serialRun(pp, j->file);
        int c = o ? getOutputSize(o) : 0;
        for (int i = 0; i < c; i++) {
            char* e = getOutputElement(o, i); size_t l = strlen(e) + 1;
            while (j->n + l + 1 > cap) j->result = realloc(j->result, cap *= 2);
            memcpy(j->result + j->n, e, l); j->n += l;
        }
        while (j->n + 2 > cap) j->result = realloc(j->result, cap *= 2);
        j->result[j->n++] = 1;
        if (o) freeOutput(o);
        if (!j->pp) freePathProcessor(pp);
    }
    return NULL;
}

static Output* run_mode(PathProcessor* pp, const char* mode, char* file, char* train) {
    if (mode[0] == 's') return serialRun(pp, file);
    if (mode[0] == 'p') return parallelRun(pp, file, atoi(mode + 1));
    ConstraintTable* ct = collectDataConstraints(pp, train);
    Output* o = parallelRunOpt(pp, file, atoi(mode + 1), ct);
    freeConstraintTable(ct);
    return o;
}

#ifdef JPS_INTERNAL
#include "ops_internal.h"
#endif
#ifdef JPS_LIB
int lib_op(const char* op, uint32_t nfields, char** p, uint32_t* n, void (*put)(char, const void*, size_t));
#endif

static void run_op(void) {
    settings();
    if (is("serial") || is("par") || is("paropt")) {
        char* q = dup_field(2);
        PathProcessor* pp = createPathProcessor(q);
        if (!pp) { rec('!', "null", 4); return; }
        memset(q, 'Z', f[2].n); free(q);       /* the text of the query is not needed any more */
        char* file = file_field(0, 3);
        Output* o = NULL;
        if (is("serial")) o = serialRun(pp, file);
        else if (is("par")) { jps_thread_reset(); o = parallelRun(pp, file, (int)ifield(4)); }
        else {
            char* train = file_field(1, 5);
            ConstraintTable* ct = collectDataConstraints(pp, train);
            unlink(train);
            jps_thread_reset();
            o = parallelRunOpt(pp, file, (int)ifield(4), ct);
            freeConstraintTable(ct);
        }
        freePathProcessor(pp); unlink(file);   /* results outlive the query and the document */
        emit_output(o);
        if (o) freeOutput(o);
        emit_schedule();
        rec('.', "", 0);
    } else if (is("sparts") || is("pparts") || is("pparts_opt")) {
        /* incremental API: 2=query 3=ncore [4..]=chunks (opt: 4 = training doc) */
        char* q = dup_field(2);
        PathProcessor* pp = createPathProcessor(q);
        if (!pp) { rec('!', "null", 4); return; }
        StreamingContext ci; initStreamingContext(&ci);
        Output* o = NULL; int from = 0; int first = 4;
        ConstraintTable* ct = NULL;
        if (is("pparts_opt")) { ct = collectDataConstraints(pp, file_field(1, 4)); first = 5; }
        for (uint32_t i = first; i < nf; i++) {
            char* s = dup_field(i);
            if (is("sparts")) o = serialPartialRun(pp, s, &ci);
            else if (is("pparts")) o = parallelPartialRun(pp, s, (int)ifield(3), &ci);
            else {
                char t = tables[0] && i > first ? tables[(i - first) % strlen(tables)] : 'k';
                if (t == 'n') { freeConstraintTable(ct); ct = collectDataConstraints(pp, file_field(1, 4)); }
                if (t == 'p') o = parallelPartialRun(pp, s, (int)ifield(3), &ci);
                else o = parallelPartialRunOpt(pp, s, (int)ifield(3), t == 'x' ? NULL : ct, &ci);
            }
            memset(s, 'Z', f[i].n); free(s);   /* chunks belong to the caller */
            reci('P', (long)i - first);
            emit_from(o, &from);
        }
        destroyStreamingContext(&ci);
        if (ct) freeConstraintTable(ct);
        freePathProcessor(pp);
        free(q);
        if (o) {                               /* all of it again, at the end */
            reci('F', getOutputSize(o));
            for (int i = 0; i < getOutputSize(o); i++) recs('O', getOutputElement(o, i));
            freeOutput(o);
        }
        emit_schedule();
        rec('.', "", 0);
    } else if (is("inter")) {
        /* several streams, one step each in turn.  2=order (one byte per step: 'a' + stream)
           then per stream: query, mode (s | p<n>), number of chunks, chunks... */
        int ns = 0; uint32_t i = 3; enum { MAXS = 8 };
        PathProcessor* pp[MAXS]; StreamingContext ci[MAXS]; Output* o[MAXS]; char* mode[MAXS]; uint32_t next[MAXS], end[MAXS];
        for (; i < nf && ns < MAXS; ns++) {
            char* q = dup_field(i); pp[ns] = createPathProcessor(q); free(q);
            initStreamingContext(&ci[ns]); o[ns] = NULL; mode[ns] = dup_field(i + 1);
            next[ns] = i + 3; end[ns] = i + 3 + ifield(i + 2); i = end[ns];
        }
        for (uint32_t k = 0; k < f[2].n; k++) {
            int t = f[2].p[k] - 'a';
            if (t < 0 || t >= ns || next[t] >= end[t]) continue;
            char* s = dup_field(next[t]++);
            o[t] = mode[t][0] == 's' ? serialPartialRun(pp[t], s, &ci[t]) : parallelPartialRun(pp[t], s, atoi(mode[t] + 1), &ci[t]);
            free(s);
            if (next[t] == end[t]) { destroyStreamingContext(&ci[t]); freePathProcessor(pp[t]); }
        }
        for (int t = 0; t < ns; t++) { reci('P', t); emit_output(o[t]); if (o[t]) freeOutput(o[t]); }
        rec('.', "", 0);
    } else if (is("partition") || is("partfile")) {
        int n = (int)ifield(3);
        PartitionInfo pi;
        char* s = NULL;
        if (is("partition")) { s = dup_field(2); pi = partitionInputStream(s, n); }
        else pi = partitionFile(file_field(0, 2), n);
        if (s) { rec('u', s, strlen(s)); memset(s, 'Z', f[2].n); free(s); }   /* chunks own their text */
        reci('c', pi.num_chunk);
        for (int i = 0; i < pi.num_chunk; i++) recs('k', pi.stream[i]);
        freeInputChunks(pi);
        rec('.', "", 0);
    } else if (is("bounded")) {
        char* file = file_field(0, 2); int pos = 0;
        for (int i = 0; i < 100000; i++) {
            int before = pos;
            char* s = loadBoundedInputStream(file, &pos);
            if (!s) break;
            recs('k', s); reci('p', pos);
            free(s);
            if (pos <= before) { rec('!', "no progress", 11); break; }
        }
        rec('.', "", 0);
    } else if (is("load")) {
        char* s = loadInputStream(file_field(0, 2));
        recs('k', s); free(s); rec('.', "", 0);
    } else if (is("missing")) {
        /* a file that does not exist: 2=query */
        char* q = dup_field(2); PathProcessor* pp = createPathProcessor(q); free(q);
        char none[300]; snprintf(none, sizeof none, "%s/no-such-file", scratch);
        if (nf > 4) { char* f = dup_field(4); snprintf(none, sizeof none, "%s", f); free(f); }
        int fifo = -1;
        if (!strcmp(none, "fifo")) {
            snprintf(none, sizeof none, "%s/fifo", scratch);
            if (mkfifo(none, 0600) || (fifo = open(none, O_RDWR | O_NONBLOCK)) < 0 || write(fifo, "[1]", 3) != 3) die("scratch pipe");
        }   /* a path that is not that of a file */
        int pos = 0;
        reci('n', loadInputStream(none) == NULL);
        reci('n', loadBoundedInputStream(none, &pos) == NULL); reci('n', pos == 0);
        reci('n', partitionFile(none, 4).num_chunk == 0);
        emit_output(serialRun(pp, none));
        emit_output(parallelRun(pp, none, 4));
        emit_output(parallelRunOpt(pp, none, 4, NULL));
        /* 3 = a document that is run afterwards, with what was learnt from nothing, and before */
        ConstraintTable* ct = collectDataConstraints(pp, none);
        if (nf > 3) {
            char* file = file_field(0, 3);
            recs('P', "opt"); Output* o = parallelRunOpt(pp, file, 3, ct); emit_output(o); if (o) freeOutput(o);
            recs('P', "none"); o = parallelRunOpt(pp, file, 3, NULL); emit_output(o); if (o) freeOutput(o);
            recs('P', "serial"); o = serialRun(pp, file); emit_output(o); if (o) freeOutput(o);
            emit_output(parallelRunOpt(pp, none, 4, ct));
        }
        if (fifo >= 0) { close(fifo); unlink(none); }
        freeConstraintTable(ct);
        freePathProcessor(pp);
        rec('.', "", 0);
    } else if (is("huge")) {
        /* a document of more than 2 GiB.  2=query 3=beginning, an open array with an element 4=MiB 5=end */
        char* q = dup_field(2); PathProcessor* pp = createPathProcessor(q);
        char* file = file_field(0, 3);
        int fd = open(file, O_WRONLY | O_APPEND); if (fd < 0) die("scratch file");
        size_t mb = 1 << 20; char* blank = malloc(mb); memset(blank, ' ', mb); memcpy(blank, ",\"x\"", 4);
        for (long k = ifield(4); k > 0; k--) wr(fd, blank, mb);
        wr(fd, f[5].p, f[5].n); close(fd); free(blank);
        Output* o = serialRun(pp, file);
        unlink(file);
        emit_output(o);
        rec('.', "", 0);
    } else if (is("reuse")) {
        /* one compiled query, many runs: 2=query, then (mode, doc) pairs; mode s | p<n> | o<n> */
        char* q = dup_field(2);
        PathProcessor* pp = createPathProcessor(q);
        if (!pp) { rec('!', "null", 4); return; }
        for (uint32_t i = 3; i + 1 < nf; i += 2) {
            char* m = dup_field(i); char* file = file_field(0, i + 1);
            Output* o = run_mode(pp, m, file, file);
            reci('P', i); emit_output(o);
            if (o) freeOutput(o);
            free(m);
        }
        freePathProcessor(pp); free(q);
        rec('.', "", 0);
    } else if (is("turns")) {
        /* queries compiled, run and released one after another in one process: (query, mode, doc, turns it is kept) */
        enum { KEPT = 64 };
        PathProcessor* kept[KEPT]; int until[KEPT], nk = 0, turn = 0;
        for (uint32_t i = 2; i + 3 < nf; i += 4, turn++) {
            for (int k = 0; k < nk; k++) if (until[k] <= turn) { freePathProcessor(kept[k]); kept[k] = kept[--nk]; until[k--] = until[nk]; }
            char* q = dup_field(i); char* m = dup_field(i + 1); char* file = file_field(0, i + 2);
            PathProcessor* pp = createPathProcessor(q);
            free(q);
            if (!pp) { rec('!', "null", 4); return; }
            Output* o = run_mode(pp, m, file, file);
            reci('P', i); emit_output(o);
            if (o) freeOutput(o);
            free(m);
            if (ifield(i + 3) == 0 || nk == KEPT) freePathProcessor(pp);
            else { kept[nk] = pp; until[nk++] = turn + (int)ifield(i + 3); }
        }
        while (nk) freePathProcessor(kept[--nk]);
        rec('.', "", 0);
    } else if (is("constraints")) {
        /* one constraint table, many parallel runs: 2=query 3=train, then (ncore, doc) pairs */
        char* q = dup_field(2);
        PathProcessor* pp = createPathProcessor(q);
        ConstraintTable* ct = collectDataConstraints(pp, file_field(1, 3));
        for (uint32_t i = 4; i + 1 < nf; i += 2) {
            Output* o = parallelRunOpt(pp, file_field(0, i + 1), (int)ifield(i), ct);
            reci('P', i); emit_output(o);
            if (o) freeOutput(o);
        }
        freeConstraintTable(ct); freePathProcessor(pp); free(q);
        rec('.', "", 0);
    } else if (is("concurrent")) {
        /* 2=doc 3=threads 4=rounds 5=ncore (0 serial, <0 with constraints) 6=shared 7..=queries */
        char* file = file_field(0, 2); int shared = (int)ifield(6);
        int n = (int)ifield(3); pthread_t th[64]; Job jb[64]; PathProcessor* pp[64]; int nq = (int)nf - 7;
        for (int i = 0; i < nq; i++) pp[i] = shared ? createPathProcessor(dup_field(7 + i)) : NULL;
        jps_fail_mask = 0;
        for (int i = 0; i < n; i++) {
            jb[i].pp = pp[i % nq]; jb[i].query = dup_field(7 + i % nq);
            jb[i].file = file; jb[i].rounds = (int)ifield(4); jb[i].ncore = (int)ifield(5);
            if (pthread_create(&th[i], NULL, job_main, &jb[i])) die("pthread_create");
        }
        for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
        for (int i = 0; i < n; i++) rec('r', jb[i].result, jb[i].n);
        for (int i = 0; i < nq; i++) if (pp[i]) freePathProcessor(pp[i]);
        emit_schedule();
        rec('.', "", 0);
    } else if (is("cycles")) {
        /* 2=query 3=doc 4=train 5=cycles 6=mode 7..=chunks; emits the live blocks after every cycle */
        if (!counted()) die("no counter in this build");
        char* file = file_field(0, 3); char* train = file_field(1, 4);
        char* mode = dup_field(6); char* q = dup_field(2); int cyc = (int)ifield(5);
        PathProcessor* keep = strchr(mode, 'K') ? createPathProcessor(q) : NULL;  /* compile once */
        printf(" "); fflush(stdout);
        long live[64]; int results = 0;
        if (cyc > 64) cyc = 64;
        for (int c = 0; c < cyc; c++) {
            jps_thread_reset();                /* the same threads are refused in every cycle */
            for (char* m = mode; *m; m++) {
                PathProcessor* pp = keep ? keep : createPathProcessor(q);
                char num[16]; snprintf(num, sizeof num, "%c5", *m);
                Output* o = NULL;
                if (strchr("spo", *m)) o = run_mode(pp, num, file, train);
                else if (*m == 'i' || *m == 'j' || *m == 'h') {    /* incremental; 'h': never finished */
                    StreamingContext ci; initStreamingContext(&ci);
                    uint32_t stop = *m == 'h' ? nf - 1 : nf;
                    for (uint32_t i = 7; i < stop; i++) {
                        char* s = dup_field(i);
                        o = *m == 'j' ? parallelPartialRun(pp, s, 3, &ci) : serialPartialRun(pp, s, &ci);
                        free(s);
                    }
                    destroyStreamingContext(&ci);
                } else if (*m == 'c') freeConstraintTable(collectDataConstraints(pp, train));
                else if (*m == 'f') { PartitionInfo pi = partitionFile(file, 4); freeInputChunks(pi); }
                else if (*m == 'l') free(loadInputStream(file));
                if (o) { results += getOutputSize(o); freeOutput(o); }
                if (!keep) freePathProcessor(pp);
            }
            live[c] = jps_live_blocks();
        }
        for (int c = 0; c < cyc; c++) reci('L', live[c]);
        reci('c', results);
        rec('.', "", 0);
    } else if (is("scale")) {
        /* a text of count units.  2=query 3=mode (s | p<n> | o<n> | i | j<n> | f<n>) 4=beginning 5=unit 6=count 7=end
           emits the processor time, the peak of live memory, what is held half way and at the end, the results */
        char* q = dup_field(2); char* mode = dup_field(3); long n = ifield(6);
        PathProcessor* pp = createPathProcessor(q);
        char* file = file_field(0, 4);
        int inc = mode[0] == 'i' || mode[0] == 'j';
        if (!inc) {
            FILE* fp = fopen(file, "ab");
            for (long k = 0; k < n; k++) fwrite(f[5].p, 1, f[5].n, fp);
            fwrite(f[7].p, 1, f[7].n, fp);
            fclose(fp);
        }
        printf(" "); fflush(stdout);
        Output* o = NULL; StreamingContext ci; PartitionInfo pi; memset(&pi, 0, sizeof pi);
        if (inc) initStreamingContext(&ci);
        char* unit = dup_field(5);
        struct timespec a, b;
        rec('-', "", 0);                       /* the buffer of the records is there from now on */
        long before = counted() ? jps_live_bytes() : 0; if (counted()) jps_peak_reset();
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
        if (inc) {
            int nc = atoi(mode + 1);
            for (long k = -1; k <= n; k++) {
                char* s = k < 0 ? dup_field(4) : k < n ? unit : dup_field(7);
                o = mode[0] == 'i' ? serialPartialRun(pp, s, &ci) : parallelPartialRun(pp, s, nc, &ci);
                if (s != unit) free(s);
                if (counted() && (k == n / 4 || k == n - 1)) reci('H', jps_live_bytes() - before);
            }
        } else if (mode[0] == 'f') pi = partitionFile(file, atoi(mode + 1));
        else o = run_mode(pp, mode, file, file);
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
        reci('T', (b.tv_sec - a.tv_sec) * 1000000L + (b.tv_nsec - a.tv_nsec) / 1000);
        if (counted()) reci('M', jps_peak_bytes() - before);
        unlink(file);
        long bytes = 0; int c = o ? getOutputSize(o) : 0;
        for (int i = 0; i < c; i++) bytes += strlen(getOutputElement(o, i));
        reci('c', c); reci('B', bytes); reci('K', pi.num_chunk);
        rec('.', "", 0);
    } else if (is("peak")) {
        /* 2=query 3=doc 4=mode: peak heap of a run, beyond what was live before it */
        if (!counted()) die("no counter in this build");
        char* q = dup_field(2); char* mode = dup_field(4); char* file = file_field(0, 3);
        PathProcessor* pp = createPathProcessor(q);
        printf(" "); fflush(stdout);
        long before = jps_live_bytes(); jps_peak_reset();
        Output* o = run_mode(pp, mode, file, file);
        reci('M', jps_peak_bytes() - before);
        emit_output(o);
        rec('.', "", 0);
    }
#ifdef JPS_INTERNAL
    else if (internal_op()) rec('.', "", 0);
#endif
#ifdef JPS_LIB
    else {
        static char* p[4096]; static uint32_t n[4096];
        for (uint32_t i = 0; i < nf; i++) { p[i] = f[i].p; n[i] = f[i].n; }
        if (lib_op(opname, nf, p, n, rec)) rec('.', "", 0); else die("unknown op");
    }
#endif
#if !defined(JPS_INTERNAL) && !defined(JPS_LIB)
    else die("unknown op");
#endif
}

int main(int argc, char** argv) {
    if (argc < 2) die("usage: driver SCRATCHDIR");
    snprintf(scratch, sizeof scratch, "%s", argv[1]);
    out_fd = dup(1);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
    fcntl(out_fd, F_SETFD, FD_CLOEXEC);
    signal(SIGPIPE, SIG_IGN);
    char errname[300]; snprintf(errname, sizeof errname, "%s/stderr", scratch);
    char* in = NULL; size_t incap = 0;
    for (;;) {
        uint32_t n; if (rd(0, &n, 4) != 1) return 0;
        if (n > 4096) die("too many fields");
        uint32_t lens[4096]; 
        if (rd(0, lens, 4 * n) != 1) die("short read");
        size_t tot = 0; for (uint32_t i = 0; i < n; i++) tot += lens[i];
        if (tot + 1 > incap) { incap = 2 * tot + 1; in = realloc(in, incap); }
        if (rd(0, in, tot) != 1 && tot) die("short read");
        size_t o = 0; nf = n;
        for (uint32_t i = 0; i < n; i++) { f[i].p = in + o; f[i].n = lens[i]; o += lens[i]; }
        long limit = ifield(1);
        int pfd[2]; if (pipe(pfd)) die("pipe");
        int efd = open(errname, O_CREAT | O_TRUNC | O_RDWR, 0600);
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            close(pfd[0]); rec_fd = pfd[1]; dup2(efd, 2); close(efd); close(0); 
            int z = open("/dev/null", O_RDONLY); (void)z;
            signal(SIGPIPE, SIG_DFL);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = f[0].n == 4 && !memcmp(f[0].p, "huge", 4) ? 8ul << 30 : 256ul << 20; setrlimit(RLIMIT_FSIZE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
            if (!getenv("JPS_NOLIMIT")) { rl.rlim_cur = rl.rlim_max = 6ul << 30; setrlimit(RLIMIT_AS, &rl); }
#endif
            run_op();
            oflush();
            close(rec_fd);
            _exit(0);
        }
        close(pfd[1]);
        static char* pay; static size_t pcap; size_t pl = 0; int timed = 0, toomuch = 0;
        struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
        int eof = 0;
        for (;;) {
            struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
            long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
            if (el >= limit) { timed = 1; break; }
            struct pollfd pf = {pfd[0], POLLIN, 0};
            int r = poll(&pf, 1, (int)(limit - el));
            if (r < 0 && errno == EINTR) continue;
            if (r == 0) { timed = 1; break; }
            if (pl + 65536 > pcap) { pcap = pcap ? pcap * 2 : 1 << 17; pay = realloc(pay, pcap); }
            ssize_t g = read(pfd[0], pay + pl, 65536);
            if (g <= 0) { eof = 1; break; }
            pl += g;
            if (pl > (200u << 20)) { toomuch = 1; break; }
        }
        if (timed || toomuch) kill(pid, SIGKILL);
        close(pfd[0]);
        int st = 0;
        if (eof) {   /* the pipe is closed; the process must end too */
            for (;;) {
                pid_t w = waitpid(pid, &st, WNOHANG);
                if (w == pid) break;
                struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
                long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
                if (el >= limit) { timed = 1; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
                struct timespec ts = {0, 50000}; nanosleep(&ts, NULL);
            }
        } else waitpid(pid, &st, 0);
        uint32_t h[2]; h[0] = timed ? 2 : toomuch ? 3 : WIFSIGNALED(st) ? 1 : 0;
        h[1] = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
        wr(out_fd, h, 8);
        uint32_t l = (uint32_t)pl; wr(out_fd, &l, 4); wr(out_fd, pay, pl);
        static char eb[16384]; 
        ssize_t el = pread(efd, eb, sizeof eb, 0); if (el < 0) el = 0;
        close(efd);
        l = (uint32_t)el; wr(out_fd, &l, 4); wr(out_fd, eb, l);
    }
}
