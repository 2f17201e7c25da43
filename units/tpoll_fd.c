/*VP
{ "properties": ["C12"],
  "sources": ["tpoll.c"],
  "enforce": ["tpoll_set", "tpoll_clear", "tpoll_is_set", "_tpoll_grow", "_tpoll_init", "_tpoll_signal_send", "_tpoll_signal_recv", "tpoll_zero", "tpoll_create", "tpoll_destroy"],
  "stub_defs": ["_tpoll_signal_send"],
  "unwind": 3, "bound_unwind": 14, "backends": ["uf", "z3"], "timeout": 200,
  "bound_text": "tables of at most 6 descriptors, growing to at most 12; lists of at most 3 timers",
  "assumptions": ["a table has at most 8192 slots before it grows, fewer than INT_MAX after", "the signal pipe's descriptors lie within the initial table (they are among the first opened)", "the signal pipe's own descriptor is never passed by a caller"],
  "trusted": ["malloc, realloc, free, memset, read, write, pipe, fcntl, pthread mutexes (POSIX)"],
  "per": { "tpoll_set": {"stub_defs": ["_tpoll_signal_send", "_tpoll_grow"]},
           "_tpoll_signal_send": {"stub_defs": [], "properties": ["C12", "C13"]},
           "_tpoll_signal_recv": {"properties": ["C12", "C13"]},
           "_tpoll_init": {"properties": ["C12", "C13"]},
           "tpoll_zero": {"stub_defs": ["_tpoll_signal_send", "_tpoll_init"], "properties": ["C12", "C13"]},
           "tpoll_create": {"stub_defs": ["_tpoll_signal_send", "tpoll_destroy", "_tpoll_init"]},
           "tpoll_destroy": {"properties": ["C12", "C13"]} },
  "loops": [
   {"func": "tpoll_clear", "nth": 0, "count": 1, "locals": ["i"], "assigns": "$LOCALS",
     "invariant": ["i >= -1 && i < fd && VP_IMPLIES(i < K.k && K.k < fd, F[K.k].fd == -1) && VP_IMPLIES(K.p0 < fd, i >= K.p0)"]},
   {"func": "_tpoll_grow", "nth": 0, "count": 2, "locals": ["num_fds_tmp"], "assigns": "num_fds_tmp",
     "invariant": ["num_fds_tmp >= K.alloc || num_fds_tmp <= 0"]},
   {"func": "_tpoll_grow", "nth": 1, "count": 2, "locals": ["i", "num_fds_tmp"], "assigns": "i, __CPROVER_object_whole(F2)",
     "invariant": ["i >= K.alloc && i <= num_fds_tmp", "VP_IMPLIES(K.k < K.alloc, VP_KEPT(F2[K.k])) && VP_KEPTP(F2[K.p0])",
        "VP_IMPLIES(K.k >= K.alloc && K.k < num_fds_tmp, F2[K.k].events == 0 && F2[K.k].revents == 0 && F2[K.k].fd == (K.k < i ? -1 : 0))"]},
   {"func": "_tpoll_init", "nth": 0, "count": 2, "locals": ["i"], "assigns": "i, __CPROVER_object_whole(F)",
     "invariant": ["i >= 0 && i <= K.alloc && VP_IMPLIES(K.k < K.alloc, F[K.k].events == 0 && F[K.k].revents == 0 && F[K.k].fd == (K.k < i ? -1 : 0))", "F[K.p0].revents == 0"]},
   {"func": "_tpoll_init", "nth": 1, "count": 2, "kind": "while", "locals": ["t"], "assigns": "$LOCALS, TP.timers_active, NT.next, NA.next, NB.next, G, VP",
     "guard": "VP_HEADPIN(TP.timers_active)", "invariant": ["VP_NODE(TP.timers_active) && G.frees == G.seen && VP.held == 1"]},
   {"func": "tpoll_destroy", "nth": 1, "count": 2, "kind": "while", "locals": ["t"], "assigns": "$LOCALS, TP.timers_active, NT.next, NA.next, NB.next, G, VP",
     "guard": "VP_HEADPIN(TP.timers_active)", "invariant": ["VP_NODE(TP.timers_active) && G.frees == G.seen && G.afrees == (K.a0 != NULL) && G.tfrees == 0 && G.closes[0] == (K.pp >= 1) && G.closes[1] == (K.pp >= 1) && VP.held == K.inited && G.bad == 0"]},
   {"func": "_tpoll_signal_send", "nth": 0, "count": 1, "assigns": "$LOCALS, G, VP", "invariant": ["G.wrote == 0 && G.bad == 0 && VP.held == 1"]},
   {"func": "_tpoll_signal_recv", "nth": 0, "count": 1, "assigns": "$ASSIGNED, __CPROVER_object_whole(c), G, VP", "invariant": ["G.bad == 0 && VP.held == 1"]} ]
}
*/
#include "vp.h"
#include "tpoll.h"
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define N1 VP_LIM(8192, 6)
#define N2 VP_LIM(16384, 12)
struct pollfd F[N1], F2[N2];
struct {
    int alloc, used, max;               /* before the call                   */
    int k; struct pollfd kv;            /* an arbitrary slot                 */
    struct pollfd fv;                   /* the slot of the descriptor given  */
    int p0, p1; struct pollfd pv;       /* the signal pipe                   */
    int has, how, blocked, signaled, next;
    int pp, inited; void *a0;
} K;
struct {
    int sig, grown, wrote, reads, seen, frees, inits, bad;
    int closes[2], afrees, tfrees, tmade, amade, dest;
} G;
#define VP_KEPT(s)  ((s).fd == K.kv.fd && (s).events == K.kv.events && (s).revents == K.kv.revents)
#define VP_KEPTP(s) ((s).fd == K.pv.fd && (s).events == K.pv.events && (s).revents == K.pv.revents)
#define VP_KEPTF(s) ((s).fd == K.fv.fd && (s).events == K.fv.events && (s).revents == K.fv.revents)
#define VP_FREE(s)  ((s).fd == -1 && (s).events == 0 && (s).revents == 0)

extern struct tpoll TP;
extern struct tpoll_timer NT, NA, NB;
#ifdef VP_PROVE
#define VP_PICK(o)  (nd_bool() ? (o) : (K.has && !G.seen) ? &NT : NULL)
#define VP_STEP(p)  do { if ((p) == &NT) { G.seen = 1; NT.next = nd_bool() ? &NA : NULL; } \
                         else if ((p) == &NA) NA.next = VP_PICK(&NB); else NB.next = VP_PICK(&NA); } while (0)
#define VP_NODE(p)  ((G.seen == 0 || (G.seen == 1 && K.has)) && ((p) == &NA || (p) == &NB || ((p) == &NT && K.has && !G.seen) || ((p) == NULL && G.seen == K.has)))
#define VP_HEADPIN(p) if ((p) == &NT) { (p) = &NT; VP_STEP(p); } else if ((p) == &NA) { (p) = &NA; VP_STEP(p); } \
                         else if ((p) == &NB) { (p) = &NB; VP_STEP(p); } else VP_PIN(p, NULL);
#endif
#undef realloc
#undef malloc
#undef free
#undef memset
#undef read
#undef write
#undef close
#undef pipe
#undef fcntl
#undef pthread_mutex_init
#undef pthread_mutex_destroy
#define realloc(p,n) vp_realloc(p, n)
#define malloc(n) vp_malloc(n)
#define free(p) vp_free(p)
#define memset(p,c,n) vp_memset(p, c, n)
#define read(f,p,n) vp_read(f, p, n)
#define write(f,p,n) vp_write(f, p, n)
#define close(f) vp_close(f)
#define pipe(v) vp_pipe(v)
#define fcntl(f,c,v) vp_fcntl(f, c, v)
#define pthread_mutex_init(m,a) (nd_bool() ? (VP.held = 0, 0) : 11)
#define pthread_mutex_destroy(m) (0)
static void *vp_realloc(void *p, size_t n)
{
    size_t m = n / sizeof(struct pollfd);

    VP_ASSERT(p == (void *) F && n % sizeof(struct pollfd) == 0, "the table is resized");
    if (m > N2 || nd_range(0, 7) == 0) return NULL;
    VP_ASSERT(m >= (size_t) K.alloc, "the table never shrinks");
    if (K.k < K.alloc) F2[K.k] = F[K.k];
    F2[K.p0] = F[K.p0];
#ifndef VP_PROVE
    { int i; for (i = 0; i < K.alloc; i++) F2[i] = F[i]; }
#endif
    G.grown = (int) m;
    return F2;
}
static void *vp_malloc(size_t n);
static void vp_free(void *p);
static void *vp_memset(void *p, int c, size_t n)
{
    int off, m = n / sizeof(struct pollfd);
    struct pollfd *a = (struct pollfd *) p;

    VP_ASSERT(c == 0 && n % sizeof(struct pollfd) == 0, "whole slots are cleared");
    if (VP_SAME(p, &F)) {
        off = a - F;
        VP_ASSERT(off >= 0 && m >= 0 && m <= K.alloc - off, "clearing stays within the table");
        if (K.k >= off && K.k < off + m) { F[K.k].fd = 0; F[K.k].events = F[K.k].revents = 0; }
        if (K.p0 >= off && K.p0 < off + m) { F[K.p0].fd = 0; F[K.p0].events = F[K.p0].revents = 0; }
#ifndef VP_PROVE
        { int i; for (i = off; i < off + m; i++) { F[i].fd = 0; F[i].events = F[i].revents = 0; } }
#endif
    }
    else {
        VP_ASSERT(VP_SAME(p, &F2) && G.grown, "the table is cleared");
        off = a - F2;
        VP_ASSERT(off >= 0 && m >= 0 && m <= G.grown - off, "clearing stays within the table");
        if (K.k >= off && K.k < off + m) { F2[K.k].fd = 0; F2[K.k].events = F2[K.k].revents = 0; }
        if (K.p0 >= off && K.p0 < off + m) { F2[K.p0].fd = 0; F2[K.p0].events = F2[K.p0].revents = 0; }
#ifndef VP_PROVE
        { int i; for (i = off; i < off + m; i++) { F2[i].fd = 0; F2[i].events = F2[i].revents = 0; } }
#endif
    }
    return p;
}
static int vp_errs(void)
{
    VP.err = nd_bool() ? EINTR : nd_bool() ? EAGAIN : nd_range(1, 130);
    return -1;
}
static int vp_read(int fd, void *p, size_t n)
{
    int r;
    if (fd != K.p0 || VP.held != 1) G.bad = 1;
    VP_ASSERT(VP_W_OK(p, n), "read range");
    if (nd_bool()) return vp_errs();
    r = nd_range(0, n);
    if (r > 0) ((unsigned char *) p)[0] = 0;
    return r;
}
static int vp_write(int fd, const void *p, size_t n)
{
    if (fd != K.p1 || n != 1 || G.wrote || VP.held != 1) G.bad = 1;
    VP_ASSERT(VP_R_OK(p, n), "write range");
    if (nd_bool()) return vp_errs();
    if (nd_bool()) return 0;
    G.wrote = 1;
    return 1;
}
static int vp_close(int fd)
{
    if (fd == K.p0) G.closes[0]++;
    else if (fd == K.p1) G.closes[1]++;
    else G.bad = 1;
    return nd_range(-1, 0);
}
static int vp_pipe(int *v)
{
    if (nd_range(0, 7) == 0) return vp_errs();
    if (K.pp) G.bad = 1;
    K.pp = 1;
    v[0] = K.p0; v[1] = K.p1;
    return 0;
}
static int vp_fcntl(int fd, int c, int v)
{
    if (fd != K.p0 && fd != K.p1) G.bad = 1;
    if (c == F_SETFL && (v & O_NONBLOCK)) K.pp |= (fd == K.p0) ? 2 : 4;
    if (c == F_SETFD && v == FD_CLOEXEC) K.pp |= (fd == K.p0) ? 8 : 16;
    return nd_range(0, 7) ? nd_range(0, 4000) : vp_errs();
}

#if VP_OP != 5
static void _tpoll_signal_send(tpoll_t tp) { if (VP.held != 1 || tp != &TP) G.bad = 1; G.sig++; }
#endif
#if VP_OP == 0
static int _tpoll_grow(tpoll_t tp, int req);
#endif
#if VP_OP == 7 || VP_OP == 8
static void _tpoll_init(tpoll_t tp, tpoll_zero_t how) { if (VP.held != (VP_OP == 7) || how != K.how || tp != &TP) G.bad = 1; G.inits++; }
#endif
#if VP_OP == 8
void tpoll_destroy(tpoll_t tp);
#endif
#include "tpoll.c"

struct tpoll TP;
struct tpoll_timer NT, NA, NB;
#if VP_OP == 0
/*  contract of _tpoll_grow (discharged in tpoll_fd._tpoll_grow)  */
static int _tpoll_grow(tpoll_t tp, int req)
{
    if (tp != &TP || VP.held != 1 || req <= K.alloc || G.grown) G.bad = 1;
    if (req > N2 || nd_range(0, 5) == 0) return -1;
#ifdef VP_PROVE
    G.grown = nd_range(req, N2);
#else
    G.grown = req;
#endif
    VP_ANY(F2);
    if (K.k < K.alloc) F2[K.k] = F[K.k]; else { F2[K.k].fd = -1; F2[K.k].events = F2[K.k].revents = 0; }
    F2[K.p0] = F[K.p0];
    F2[req - 1].fd = -1; F2[req - 1].events = F2[req - 1].revents = 0;
#ifndef VP_PROVE
    { int i; for (i = 0; i < N2; i++) if (i < K.alloc) F2[i] = F[i]; else { F2[i].fd = -1; F2[i].events = F2[i].revents = 0; } }
#endif
    TP.fd_array = F2;
    TP.num_fds_alloc = G.grown;
    TP.is_realloced = true;
    return 0;
}
#endif
#if VP_OP == 8
void tpoll_destroy(tpoll_t tp)
{
    if (tp != (G.tmade ? &TP : NULL)) G.bad = 1;
    if (tp) {
        if (TP.fd_array != (G.amade ? F : NULL) || TP.timers_active || TP.is_mutex_inited) G.bad = 1;
        if (K.pp ? TP.fd_pipe[0] != K.p0 || TP.fd_pipe[1] != K.p1 : TP.fd_pipe[0] != -1 || TP.fd_pipe[1] != -1) G.bad = 1;
    }
    G.dest++;
}
#endif
static void *vp_malloc(size_t n)
{
    if (nd_range(0, 5) == 0) return NULL;
    if (!G.tmade) {
        if (n < sizeof(struct tpoll)) G.bad = 1;
        G.tmade = 1;
        TP.fd_array = (struct pollfd *) 8;
        return &TP;
    }
    if (G.amade || n != K.alloc * sizeof(struct pollfd)) G.bad = 1;
    G.amade = 1;
    return F;
}
static void vp_free(void *p)
{
    if (p == (void *) F) G.afrees++;
    else if (p == (void *) &TP) { if (VP.held) G.bad = 1; G.tfrees++; }
    else if (p == (void *) &NT) { VP_ASSERT(G.frees == 0, "a timer is released at most once"); G.frees++; NT.next = NULL; }
    else if (p != (void *) &NA && p != (void *) &NB) G.bad = 1;
}

#define A TP.fd_array
#define VP_OKARG (fd >= 0)
/*  the table is unchanged but for the given descriptor, and well formed  */
#define VP_TABLE \
    (TP.num_fds_alloc >= K.alloc && (A == F ? TP.num_fds_alloc == K.alloc : A == F2 && TP.num_fds_alloc == G.grown) \
     && TP.max_fd < TP.num_fds_alloc && TP.max_fd >= K.p0 \
     && VP_IMPLIES(K.k > TP.max_fd && K.k < TP.num_fds_alloc, VP_FREE(A[K.k])) && VP_KEPTP(A[K.p0]))
#define VP_OTHERS (K.k >= TP.num_fds_alloc || K.k == fd || (K.k < K.alloc ? VP_KEPT(A[K.k]) : VP_FREE(A[K.k])))
#define VP_TIMERS (TP.timers_active == NULL && TP.timers_next_id == K.next)
#define P_tpoll_set(R) R(tp == &TP && fd != K.p0 && fd < INT_MAX)
#define Q_tpoll_set(E) \
    E("an invalid descriptor is refused; any other is accepted unless the table cannot grow", RV == 0 || (RV == -1 && (fd < 0 || (fd >= K.alloc && !G.grown && events != 0)))) \
    E("a refused request, or one for no event, has no effect", VP_IMPLIES(RV < 0 || events == 0, A == F && TP.max_fd == K.max && TP.num_fds_used == K.used && (fd < 0 || fd >= K.alloc || VP_KEPTF(A[fd])))) \
    E("the events are added to those of the descriptor", VP_IMPLIES(RV == 0 && events != 0, fd < TP.num_fds_alloc && A[fd].fd == fd && A[fd].events == (short) (K.fv.events | events))) \
    E("it is among those polled", VP_IMPLIES(RV == 0 && events != 0, fd <= TP.max_fd)) \
    E("no other descriptor is altered, and all stay registered and polled", VP_TABLE && VP_OTHERS && VP_TIMERS) \
    E("the number in use is right", TP.num_fds_used == K.used + (RV == 0 && events != 0 && K.fv.fd < 0)) \
    E("a poll in progress learns of the change", VP_IMPLIES(RV == 0 && events != 0 && (K.fv.events | events) != K.fv.events, G.sig >= 1)) \
    E("the table is left unlocked", VP.held == 0 && G.bad == 0)
#define P_tpoll_clear(R) R(tp == &TP && fd != K.p0)
#define Q_tpoll_clear(E) \
    E("an invalid descriptor is refused", RV == (fd < 0 ? -1 : 0)) \
    E("the events are removed from those of the descriptor", VP_IMPLIES(fd >= 0 && fd < K.alloc, A[fd].events == (short) (K.fv.events & ~events) && A[fd].fd == (A[fd].events ? fd : -1) && VP_IMPLIES(A[fd].fd < 0, A[fd].revents == 0))) \
    E("no other descriptor is altered, and all stay registered and polled", A == F && VP_TABLE && VP_OTHERS && VP_IMPLIES(fd >= 0 && fd < K.alloc && A[fd].fd >= 0, fd <= TP.max_fd) && VP_TIMERS) \
    E("the number in use is right", TP.num_fds_used == K.used - (fd >= 0 && fd < K.alloc && K.fv.fd >= 0 && A[fd].fd < 0)) \
    E("a poll in progress learns of the change", VP_IMPLIES(fd >= 0 && fd < K.alloc && A[fd].events != K.fv.events, G.sig >= 1)) \
    E("the table is left unlocked", VP.held == 0 && G.bad == 0)
#define P_tpoll_is_set(R) R(tp == &TP && fd != K.p0)
#define Q_tpoll_is_set(E) \
    E("the events that occurred on the descriptor are reported, nothing for one not registered", \
        RV == (fd < 0 ? -1 : (fd >= K.alloc || K.fv.fd < 0) ? 0 : (K.fv.revents & events))) \
    E("nothing changes", A == F && VP_TABLE && VP_IMPLIES(K.k < K.alloc, VP_KEPT(F[K.k])) && TP.max_fd == K.max && TP.num_fds_used == K.used && VP_TIMERS && VP.held == 0)
#define P__tpoll_grow(R) R(tp == &TP && num_fds_req > 0 && VP.held == 1)
#define Q__tpoll_grow(E) \
    E("a table large enough is left alone", VP_IMPLIES(num_fds_req <= K.alloc, RV == 0 && A == F && TP.num_fds_alloc == K.alloc)) \
    E("success means there is room", RV == 0 ? TP.num_fds_alloc >= num_fds_req : (RV == -1 && A == F && TP.num_fds_alloc == K.alloc && VP_IMPLIES(K.k < K.alloc, VP_KEPT(F[K.k])))) \
    E("every registration is preserved, new slots are free", VP_TABLE && (K.k >= TP.num_fds_alloc || (K.k < K.alloc ? VP_KEPT(A[K.k]) : VP_FREE(A[K.k])))) \
    E("a poll in progress stops using the old table", VP_IMPLIES(A != F, TP.is_realloced && G.sig >= 1)) \
    E("nothing else changes", TP.max_fd == K.max && TP.num_fds_used == K.used && VP_TIMERS && VP.held == 1 && G.bad == 0)
#define P__tpoll_init(R) R(tp == &TP && how == K.how && VP.held == 1)
#define Q__tpoll_init(E) \
    E("clearing descriptors leaves only the signal pipe registered", VP_IMPLIES(K.how & TPOLL_ZERO_FDS, A == F && F[K.p0].fd == K.p0 && F[K.p0].events == POLLIN && F[K.p0].revents == 0 && VP_IMPLIES(K.k < K.alloc && K.k != K.p0, VP_FREE(F[K.k])) && TP.max_fd == K.p0 && TP.num_fds_used == 0)) \
    E("otherwise no descriptor is altered", VP_IMPLIES(!(K.how & TPOLL_ZERO_FDS), A == F && VP_IMPLIES(K.k < K.alloc, VP_KEPT(F[K.k])) && TP.max_fd == K.max && TP.num_fds_used == K.used)) \
    E("clearing timers cancels and releases every one", VP_IMPLIES(K.how & TPOLL_ZERO_TIMERS, TP.timers_active == NULL && G.frees == K.has && TP.timers_next_id == 1)) \
    E("otherwise no timer is touched", VP_IMPLIES(!(K.how & TPOLL_ZERO_TIMERS), G.frees == 0 && TP.timers_next_id == K.next))
#define P__tpoll_signal_send(R) R(tp == &TP && VP.held == 1)
#define Q__tpoll_signal_send(E) \
    E("a blocked poll that has not been signalled is signalled, once", G.bad == 0 && VP_IMPLIES(K.signaled || !K.blocked, G.wrote == 0)) \
    E("it is remembered", TP.is_signaled == (K.signaled || K.blocked) && TP.is_blocked == K.blocked)
#define P__tpoll_signal_recv(R) R(tp == &TP && VP.held == 1)
#define Q__tpoll_signal_recv(E) \
    E("a signal is taken back", TP.is_signaled == false && G.bad == 0 && TP.is_blocked == K.blocked)
#define P_tpoll_zero(R) R(tp == &TP && how == K.how)
#define Q_tpoll_zero(E) \
    E("an unknown request is refused without effect, any other is carried out", (K.how & ~TPOLL_ZERO_ALL) ? (RV == -1 && G.inits == 0) : (RV == 0 && G.inits == 1)) \
    E("a poll in progress learns of the change", VP_IMPLIES(G.inits, G.sig >= 1)) \
    E("the table is left unlocked", VP.held == 0 && G.bad == 0)
#define P_tpoll_create(R) R(n >= 0 && n <= N1 && K.alloc == (n > 0 ? n : TPOLL_ALLOC))
#define Q_tpoll_create(E) \
    E("a new object has a table, a non-blocking private signal pipe and no timers", VP_IMPLIES(RV, RV == &TP && G.amade && TP.fd_array == F && TP.num_fds_alloc == K.alloc \
        && TP.fd_pipe[0] == K.p0 && TP.fd_pipe[1] == K.p1 && K.pp == 31 && TP.timers_active == NULL && TP.is_mutex_inited && !TP.is_blocked && !TP.is_signaled && !TP.is_realloced && G.inits == 1 && G.dest == 0)) \
    E("a failed creation releases all it had", VP_IMPLIES(!RV, G.dest == 1 && G.inits == 0)) \
    E("nothing else is touched", G.bad == 0)
#define P_tpoll_destroy(R) R(tp == &TP && VP.held == 0)
#define Q_tpoll_destroy(E) \
    E("everything is released exactly once", G.frees == K.has && G.afrees == (K.a0 != NULL) && G.tfrees == 1 && G.closes[0] == (K.pp >= 1) && G.closes[1] == (K.pp >= 1)) \
    E("nothing else is", G.bad == 0 && VP.held == 0)

#define VPF VP_ASSIGNS(TP, G, VP, __CPROVER_object_whole(F), __CPROVER_object_whole(F2), NT.next, NA.next, NB.next, K.pp)
int tpoll_set(tpoll_t tp, int fd, short int events) VP_REQ(P_tpoll_set) VPF VP_ENS(Q_tpoll_set);
int tpoll_clear(tpoll_t tp, int fd, short int events) VP_REQ(P_tpoll_clear) VPF VP_ENS(Q_tpoll_clear);
int tpoll_is_set(tpoll_t tp, int fd, short int events) VP_REQ(P_tpoll_is_set) VPF VP_ENS(Q_tpoll_is_set);
#if VP_OP == 3
static int _tpoll_grow(tpoll_t tp, int num_fds_req) VP_REQ(P__tpoll_grow) VPF VP_ENS(Q__tpoll_grow);
#elif VP_OP == 4
static void _tpoll_init(tpoll_t tp, tpoll_zero_t how) VP_REQ(P__tpoll_init) VPF VP_ENS(Q__tpoll_init);
#elif VP_OP == 5
static void _tpoll_signal_send(tpoll_t tp) VP_REQ(P__tpoll_signal_send) VPF VP_ENS(Q__tpoll_signal_send);
#elif VP_OP == 6
static void _tpoll_signal_recv(tpoll_t tp) VP_REQ(P__tpoll_signal_recv) VPF VP_ENS(Q__tpoll_signal_recv);
#elif VP_OP == 7
int tpoll_zero(tpoll_t tp, tpoll_zero_t how) VP_REQ(P_tpoll_zero) VPF VP_ENS(Q_tpoll_zero);
#elif VP_OP == 8
tpoll_t tpoll_create(int n) VP_REQ(P_tpoll_create) VPF VP_ENS(Q_tpoll_create);
#elif VP_OP == 9
void tpoll_destroy(tpoll_t tp) VP_REQ(P_tpoll_destroy) VPF VP_ENS(Q_tpoll_destroy);
#endif

static void world(int fd)
{
    int i;

    K.alloc = nd_range(1, N1);
    K.p0 = nd_range(0, K.alloc - 1);
    K.p1 = nd_range(0, 100000);
    VP_ASSUME(K.p1 != K.p0);
    K.k = nd_range(0, N2 - 1);
    K.has = nd_bool(); K.how = nd_range(0, 3); K.next = nd_range(1, INT_MAX);
    K.blocked = nd_bool(); K.signaled = nd_bool();
    VP_ANY(F); VP_ANY(F2);
    TP.fd_array = F;
    TP.num_fds_alloc = K.alloc;
    TP.num_fds_used = nd_range(0, 100000);
    TP.max_fd = nd_range(K.p0, K.alloc - 1);
    TP.fd_pipe[0] = K.p0; TP.fd_pipe[1] = K.p1;
    TP.timers_active = NULL;
    TP.timers_next_id = K.next;
    TP.is_blocked = K.blocked; TP.is_signaled = K.signaled; TP.is_realloced = false; TP.is_mutex_inited = true;
#ifndef VP_PROVE
    for (i = 0; i < N1; i++) {
        F[i].fd = -1; F[i].events = F[i].revents = 0;
        if (i <= TP.max_fd && nd_bool()) { F[i].fd = i; F[i].events = nd_range(1, 5); F[i].revents = nd_range(0, 7); }
    }
    F[K.p0].events = POLLIN; F[K.p0].revents = 0; F[K.p0].fd = K.p0;
#endif
    (void) i;
    /*  the table is well formed (instantiated where it is needed)  */
#define INV(i) VP_ASSUME(VP_FREE(F[i]) || (F[i].fd == (i) && F[i].events != 0 && (i) <= TP.max_fd))
    INV(K.p0);
    VP_ASSUME(F[K.p0].fd == K.p0 && F[K.p0].events == POLLIN);
    if (K.k < K.alloc) { INV(K.k); K.kv = F[K.k]; }
    else { K.kv.fd = -1; K.kv.events = K.kv.revents = 0; }
    if (fd >= 0 && fd < K.alloc) { INV(fd); K.fv = F[fd]; }
    else { K.fv.fd = -1; K.fv.events = K.fv.revents = 0; }
    K.pv = F[K.p0];
    K.max = TP.max_fd; K.used = TP.num_fds_used;
    K.pp = 0; K.a0 = NULL; K.inited = 1;
    G.sig = G.grown = G.wrote = G.reads = G.seen = G.frees = G.inits = G.bad = 0;
    G.closes[0] = G.closes[1] = G.afrees = G.tfrees = G.tmade = G.amade = G.dest = 0;
    VP.held = VP.err = 0;
}
static void timers(void)
{
#ifdef VP_PROVE
    NA.next = NB.next = NT.next = NULL;
    TP.timers_active = nd_bool() ? &NB : VP_PICK(&NA);
#else
    struct tpoll_timer **q = &TP.timers_active;
    if (nd_bool()) { *q = &NA; q = &NA.next; }
    if (K.has) { *q = &NT; q = &NT.next; }
    if (nd_bool()) { *q = &NB; q = &NB.next; }
    *q = NULL;
#endif
}
#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
void harness(void)
{
    tpoll_t tp = &TP;
    int fd = nd_range(-2, VP_LIM(INT_MAX, 12)), num_fds_req = fd, n;
    short events = nd_range(-32768, 32767);
    tpoll_zero_t how;

    world(fd);
    how = K.how;
#if VP_OP == 0
    CALL(tpoll_set, int, (tp, fd, events))
    if (G.grown && events) VP_REACH("grown");
    if (fd >= 0 && fd < K.alloc && A[fd].events != K.fv.events) VP_REACH("set");
#elif VP_OP == 1
    CALL(tpoll_clear, int, (tp, fd, events))
    if (TP.max_fd < K.max) VP_REACH("last removed");
#elif VP_OP == 2
    CALL(tpoll_is_set, int, (tp, fd, events))
    if (fd >= 0 && fd < K.alloc && K.fv.fd >= 0) VP_REACH("registered");
#elif VP_OP == 3
    VP.held = 1;
    CALL(_tpoll_grow, int, (tp, num_fds_req))
    if (A == F2 && TP.num_fds_alloc > num_fds_req) VP_REACH("grown");
#elif VP_OP == 4
    VP.held = 1;
    timers();
    CALLV(_tpoll_init, (tp, how))
    if (K.how == 3) VP_REACH("all");
#elif VP_OP == 5
    VP.held = 1;
    CALLV(_tpoll_signal_send, (tp))
    if (K.blocked && !K.signaled) VP_REACH("sent");
#elif VP_OP == 6
    VP.held = 1;
    CALLV(_tpoll_signal_recv, (tp))
    if (K.signaled) VP_REACH("received");
#elif VP_OP == 7
    how = K.how = nd_range(-10, 10);
    CALL(tpoll_zero, int, (tp, how))
    VP_REACH("return");
#elif VP_OP == 8
    n = nd_range(0, N1);
    K.alloc = n ? n : 256;
    VP_ASSUME(K.p0 < K.alloc);
    K.how = TPOLL_ZERO_ALL;
    CALL(tpoll_create, tpoll_t, (n))
    if (G.dest) VP_REACH("failed"); else VP_REACH("created");
#else
    timers();
    K.pp = nd_bool();
    if (!K.pp) TP.fd_pipe[0] = TP.fd_pipe[1] = -1;
    if (nd_bool()) TP.fd_array = NULL;
    K.a0 = TP.fd_array;
    K.inited = TP.is_mutex_inited = nd_bool();
    CALLV(tpoll_destroy, (tp))
    if (K.has && K.pp) VP_REACH("return");
#endif
    (void) n; (void) how; (void) num_fds_req; (void) events; (void) tp;
}
