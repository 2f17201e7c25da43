/*  vp.h - prelude of every contract unit.
 *
 *  A unit states contracts on functions of /repo/src, #includes the real source
 *  file(s) that define them, and gives a harness.  The same text is used in
 *  three modes:
 *    VP_PROVE   cbmc + goto-instrument --dfcc: contracts enforced, loop
 *               contracts applied, no bound
 *    VP_BOUND   as VP_PROVE, without loop contracts: loops unwound to a stated
 *               bound (used only to find a concrete counterexample, or as a
 *               labelled bounded stand-in)
 *    VP_NATIVE  gcc: replays a counterexample (or random inputs) against the
 *               real compiled code, evaluating the same contract clauses
 */
#ifndef VP_H
#define VP_H

#if HAVE_CONFIG_H
#  include <config.h>
#endif
#include <arpa/inet.h>
#include <arpa/telnet.h>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <syslog.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <tcpd.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <ipmiconsole.h>

/*  ---- ghost state common to all units ---- */
struct vp_state {
    int held;                   /* number of mutexes currently held          */
    int err;                    /* errno                                     */
    int died;                   /* log_err() or exit() was reached           */
    int logs;                   /* number of log_msg() calls                 */
};
struct vp_state VP;
#undef errno
#define errno (VP.err)

#define VP_MAXND 100000

#if defined(VP_NATIVE)
/* ------------------------------------------------------------ native ---- */
#include <setjmp.h>
static jmp_buf vp_jmp;
static long vp_ndv[VP_MAXND];
static int vp_ndn, vp_ndi, vp_replay, vp_failed;
static unsigned long vp_rng = 88172645463325252UL;
static unsigned long vp_rand(void) {
    vp_rng ^= vp_rng << 13; vp_rng ^= vp_rng >> 7; vp_rng ^= vp_rng << 17;
    return vp_rng * 2685821657736338717UL;
}
static long vp_nd_range(long lo, long hi) {
    long v;
    if (vp_replay) {
        v = (vp_ndi < vp_ndn) ? vp_ndv[vp_ndi] : lo;
    }
    else {
        unsigned long r = vp_rand() >> 11, span = (unsigned long) hi - lo + 1;
        switch ((vp_rand() >> 20) % 8) {
            case 0: v = lo + (long)(span ? r % (span > 3 ? 3 : span) : 0); break;
            case 1: v = hi - (long)(span ? r % (span > 3 ? 3 : span) : 0); break;
            case 2: if (lo <= 0 && hi >= 0) {
                        v = (long)(r % 5) - 2; break;
                    } /* fall through */
            case 3: v = lo + (long)(span ? r % (span > 64 ? 64 : span) : 0); break;
            default: v = span ? lo + (long)(r % span) : (long) r;
        }
        if (v < lo) v = lo;
        if (v > hi) v = hi;
    }
    if (vp_ndi < VP_MAXND) vp_ndv[vp_ndi++] = v;
    if (v < lo || v > hi) longjmp(vp_jmp, 1);
    return v;
}
#define vp_nd_full(lo,hi) vp_nd_range(lo,hi)
/* any character; random runs mostly take one from t */
static long vp_pick(const char *t) {
    long v;
    if (vp_replay || vp_rand() % 8 == 0) return vp_nd_range(-128, 127);
    v = t[(vp_rand() >> 20) % strlen(t)];
    if (vp_ndi < VP_MAXND) vp_ndv[vp_ndi++] = v;
    return v;
}
#define nd_pick(t)      ((char) vp_pick(t))
static void vp_check(int ok, const char *name) {
    if (!ok) { printf("VPFAIL %s\n", name); fflush(stdout); vp_failed++; }
}
#define VP_ASSUME(c)        do { if (!(c)) longjmp(vp_jmp, 1); } while (0)
#define VP_ASSERT(c,name)   vp_check(!!(c), name)
#define VP_REACH(name)      ((void)0)
#define VP_HAVOC(x)         memset(&(x), 0, sizeof(x))
#define VP_ANY(a)           ((void)0)
#define VP_R_OK(p,n)        1
#define VP_W_OK(p,n)        1
/* q: address of a whole object */
#define VP_SAME(p,q)        ((char *)(p) >= (char *)(q) && (char *)(p) < (char *)(q) + sizeof(*(q)))
#define VP_OFFS(p,q)        ((char *)(p) - (char *)(q))
#define VP_REQ(P)
#define VP_ENS(P)
#define VP_ASSIGNS(...)
#define VP_DIFF(p,q)        ((p) - (q))
#define VP_E_NAT(name,cond) vp_check(!!(cond), name);
#define VP_R_NAT(cond)      VP_ASSUME(cond);
#define VP_PRE(P)           do { P(VP_R_NAT) } while (0)
#define VP_POST(P)          do { P(VP_E_NAT) } while (0)
#define RV                  vp_rv
#define VP_FILL(p,n)        do { size_t vp_i; for (vp_i = 0; vp_i < (size_t)(n); vp_i++) ((unsigned char *)(p))[vp_i] = (unsigned char) vp_nd_range(0,255); } while (0)
#define VP_FULL(p,n)        VP_FILL(p,n)
#define VP_IMPLIES(a,b)     (!(a) || (b))
#else
/* -------------------------------------------------------------- cbmc ---- */
#define vp_failed 0
static long vp_nd_(void) { long vp_nd_val; return vp_nd_val; }
/* a value the native run computes itself (never replayed) */
static long vp_hid_(void) { long vp_hid_val; return vp_hid_val; }
static long vp_nd_range(long lo, long hi) {
    long v = vp_nd_(); __CPROVER_assume(v >= lo && v <= hi); return v;
}
#define nd_pick(t)          ((char) vp_nd_range(-128, 127))
#define VP_ASSUME(c)        __CPROVER_assume(c)
#define VP_ASSERT(c,name)   __CPROVER_assert(c, name)
#define VP_REACH(name)      __CPROVER_assert(0, "VPREACH " name)
#define VP_HAVOC(x)         do { __typeof__(x) vp_h; (x) = vp_h; } while (0)
/* arbitrary contents of a whole array */
#define VP_ANY(a)           __CPROVER_havoc_object(a)
#define VP_R_OK(p,n)        __CPROVER_r_ok(p,n)
#define VP_W_OK(p,n)        __CPROVER_w_ok(p,n)
#define VP_SAME(p,q)        __CPROVER_same_object(p,q)
/* offset of p in the object that starts at q */
#define VP_OFFS(p,q)        ((long) __CPROVER_POINTER_OFFSET(p))
/* p - q, also where p is just outside the object */
#define VP_DIFF(p,q)        (__CPROVER_assert(__CPROVER_same_object(p, q), "pointers to one object are compared"), vp_off(__CPROVER_POINTER_OFFSET(p)) - vp_off(__CPROVER_POINTER_OFFSET(q)))
/* the 56 bits of an offset, sign-extended */
#define vp_off(o)           ((long) ((unsigned long) (o) << 8) >> 8)
#define VP_E_CBMC(name,cond) __CPROVER_ensures(cond)
#define VP_R_CBMC(cond)     __CPROVER_requires(cond)
#define VP_REQ(P)           P(VP_R_CBMC)
#define VP_ENS(P)           P(VP_E_CBMC)
#define VP_ASSIGNS(...)     __CPROVER_assigns(__VA_ARGS__)
#define VP_PRE(P)           do { } while (0)
#define VP_POST(P)          do { } while (0)
#define RV                  __CPROVER_return_value
#ifdef VP_BOUND
#define VP_FILL(p,n)        do { size_t vp_i; for (vp_i = 0; vp_i < (size_t)(n); vp_i++) ((unsigned char *)(p))[vp_i] = (unsigned char) vp_nd_range(0,255); } while (0)
#else
#define VP_FILL(p,n)        do { } while (0)
#endif
/* VP_FULL: small fixed-size block, filled byte by byte in every mode */
#define VP_FULL(p,n)        do { size_t vp_i; for (vp_i = 0; vp_i < (size_t)(n); vp_i++) ((unsigned char *)(p))[vp_i] = (unsigned char) vp_nd_range(0,255); } while (0)
#define VP_IMPLIES(a,b)     (!(a) || (b))
#endif

/*  ghost: p already equals e (asserted), so the assignment changes nothing; it
 *    tells the symbolic engine which object p points into after a loop havoc  */
#define VP_PIN(p,e)  do { __CPROVER_assert((p) == (e), "pinned pointer is unchanged"); (p) = (e); } while (0)

#ifdef VP_PROVE
#define VP_LIM(prove,bound) (prove)
#else
#define VP_LIM(prove,bound) (bound)
#endif

#define nd_int()        ((int) vp_nd_range(INT_MIN, INT_MAX))
#define nd_uint()       ((unsigned) vp_nd_range(0, UINT_MAX))
#define nd_uchar()      ((unsigned char) vp_nd_range(0, 255))
#define nd_char()       ((char) vp_nd_range(-128, 127))
#define nd_bool()       ((int) vp_nd_range(0, 1))
#define nd_range(l,h)   vp_nd_range(l, h)

/*  allocation that cannot fail, contents arbitrary */
#ifdef VP_NATIVE
static void *vp_ptrs[4096];
static int vp_nptrs;
#endif
static void * vp_alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    VP_ASSUME(p != NULL);
#ifdef VP_NATIVE
    if (vp_nptrs < 4096) vp_ptrs[vp_nptrs++] = p;
#endif
    return p;
}

/*  ---- standard trusted stubs ---- */

/*  A function whose real body never returns (log_err -> exit). */
/*    It must not assign: it stands in variadic functions, see stub_str.h.  */
#define VP_DIE()            VP_ASSUME(0)

/*  mutex model: one lock, non-recursive; balance is asserted */
#define pthread_mutex_lock(m)   vp_mutex_lock(m)
#define pthread_mutex_unlock(m) vp_mutex_unlock(m)
static int vp_mutex_lock(pthread_mutex_t *m) {
    (void) m;
    VP_ASSERT(VP.held == 0, "mutex locked while already held (self-deadlock)");
    VP.held++;
    return 0;
}
static int vp_mutex_unlock(pthread_mutex_t *m) {
    (void) m;
    VP_ASSERT(VP.held == 1, "mutex unlocked while not held");
    VP.held--;
    return 0;
}
/*  Force both to be seen as used */
static void *vp_keep_[] __attribute__((unused)) = { (void *) vp_mutex_lock,
    (void *) vp_mutex_unlock, (void *) vp_alloc };

void harness(void);

#if defined(VP_NATIVE)
static void vp_dump(const char *path) {
    FILE *f = fopen(path, "w");
    int i;
    if (!f) return;
    for (i = 0; i < vp_ndi; i++) fprintf(f, "%ld\n", vp_ndv[i]);
    fclose(f);
}
static const char *vp_dumpfile;
static void vp_onsig(int s) {
    printf("VPFAIL the code crashed with signal %d\n", s); fflush(stdout);
    if (vp_dumpfile) vp_dump(vp_dumpfile);
    _exit(1);
}
void __asan_on_error(void);
void __asan_on_error(void) {
    printf("VPFAIL memory error reported by the address sanitizer\n"); fflush(stdout);
    if (vp_dumpfile) vp_dump(vp_dumpfile);
}
/*  usage: unit replay FILE | unit random SEED SECONDS DUMPFILE  */
#undef main
int main(int argc, char **argv) {
    if (argc > 2 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r");
        long v;
        if (!f) return 3;
        while (vp_ndn < VP_MAXND && fscanf(f, "%ld", &v) == 1) vp_ndv[vp_ndn++] = v;
        fclose(f);
        vp_replay = 1;
        signal(SIGSEGV, vp_onsig); signal(SIGFPE, vp_onsig); signal(SIGABRT, vp_onsig);
        if (!setjmp(vp_jmp)) harness();
        else { printf("VPASSUME\n"); return 4; }
        printf(vp_failed ? "VPRESULT fail\n" : "VPRESULT pass\n");
        return vp_failed ? 1 : 0;
    }
    if (argc > 4 && !strcmp(argv[1], "random")) {
        volatile long n = 0, ok = 0;
        time_t end = time(NULL) + atol(argv[3]);
        volatile unsigned long base = strtoul(argv[2], NULL, 10);
        vp_dumpfile = argv[4];
        signal(SIGSEGV, vp_onsig); signal(SIGFPE, vp_onsig); signal(SIGABRT, vp_onsig);
        while ((n & 63) || time(NULL) < end) {
            if (n >= 3000000) break;
            n++;
            vp_rng = (base + n) * 0x9E3779B97F4A7C15UL | 1; vp_rand(); vp_rand();
            vp_ndi = 0; vp_failed = 0;
            while (vp_nptrs > 0) free(vp_ptrs[--vp_nptrs]);
            memset(&VP, 0, sizeof VP);
            if (!setjmp(vp_jmp)) {
                harness();
                ok++;
            }
            if (vp_failed) {
                vp_dump(argv[4]);
                printf("VPRESULT fail n=%ld\n", n);
                return 1;
            }
        }
        printf("VPRESULT pass n=%ld ok=%ld\n", n, ok);
        return 0;
    }
    return 3;
}
#endif
#endif
