/*VP
{ "properties": ["C13"],
  "sources": ["tpoll.c"],
  "enforce": ["tpoll_timeout_absolute", "tpoll_timeout_relative", "tpoll_timeout_cancel", "tpoll", "_tpoll_get_timeval", "_tpoll_diff_timeval"],
  "stub_defs": ["_tpoll_signal_send", "_tpoll_signal_recv"],
  "unwind": 3, "bound_unwind": 8, "backends": ["cad", "z3"], "timeout": 300,
  "bound_text": "at most 3 timers, at most 4 rounds of poll",
  "assumptions": ["the clock reads 0 to 2^31 s; expiries are less than 2^31 ms (24 days) away", "pending timers have distinct identifiers (fewer than 2^31 were created since the oldest)"],
  "trusted": ["malloc, free, gettimeofday, poll, pthread mutexes (POSIX)", "another thread changes the object only while its mutex is free"],
  "per": { "tpoll_timeout_cancel": {"backends": ["sat", "cad"]}, "_tpoll_get_timeval": {"backends": ["z3"]}, "tpoll_timeout_absolute": {"backends": ["z3", "cad"]},
           "_tpoll_diff_timeval": {"backends": ["cad"]}, "tpoll_timeout_relative": {"stub_defs": ["_tpoll_signal_send", "_tpoll_signal_recv", "tpoll_timeout_absolute", "_tpoll_get_timeval"]},
           "tpoll": {"stub_defs": ["_tpoll_signal_send", "_tpoll_signal_recv", "_tpoll_get_timeval", "_tpoll_diff_timeval"], "properties": ["C12", "C13"], "random_s": 4} },
  "loops": [
   {"func": "tpoll_timeout_absolute", "nth": 0, "count": 1, "locals": ["t_ptr"], "assigns": "t_ptr, NT.next, NA, NB, TP.timers_active, G, VP",
     "guard": "VP_SLOTPIN(t_ptr) VP_AT(*t_ptr) G.slot = t_ptr; G.old = *t_ptr;", "ghost": "VP_STEP(*t_ptr);",
     "invariant": ["VP_SLOTOK(t_ptr) && VP.held == 1 && G.bad == 0 && G.sig == 0 && G.popped == 0 && G.gone == 0 && G.made == VP_OPMADE && VP_IMPLIES(G.seen, VP_LE(NT.tv, K.tv)) && G.head == (t_ptr == &TP.timers_active)"]},
   {"func": "tpoll_timeout_cancel", "nth": 0, "count": 1, "locals": ["t_ptr"], "assigns": "t_ptr, NT.next, NA, NB, TP.timers_active, G, VP",
     "guard": "VP_SLOTPIN(t_ptr) VP_AT(*t_ptr) G.slot = t_ptr; G.old = *t_ptr;", "ghost": "VP_STEP(*t_ptr);",
     "invariant": ["VP_SLOTOK(t_ptr) && VP.held == 1 && G.bad == 0 && G.sig == 0 && G.popped == 0 && G.gone == 0 && G.made == VP_OPMADE && G.frees == 0 && G.ofrees == 0 && VP_IMPLIES(G.seen, !K.match) && G.head == (t_ptr == &TP.timers_active)"]},
   {"func": "tpoll", "nth": 0, "count": 2, "kind": "for", "locals": ["tv_now", "tv_timeout"], "assigns": "$LOCALS, TP.timers_active, TP.is_blocked, TP.is_realloced, TP.num_fds_used, NT.next, NA, NB, F[K.p0].revents, G, VP",
     "invariant": ["VP_HEADOK && VP_COMMON && G.rounds >= 0 && G.rounds <= 1000000000", "VP_SAMETV(tv_now, G.now) && VP_IMPLIES(G.rounds == 0, VP_SAMETV(G.now, G.first))", "VP_IMPLIES(G.dl, VP_SAMETV(tv_timeout, G.dead)) && G.dfn == 0"]},
   {"func": "tpoll", "nth": 1, "count": 2, "kind": "while", "assigns": "t, e, TP.timers_active, NT.next, NA, NB, G, VP",
     "guard": "VP_AT(TP.timers_active)", "ghost": "VP_POP(TP.timers_active);",
     "invariant": ["VP_HEADOK && VP_COMMON && G.rounds >= 0 && G.rounds <= 1000000000", "VP_SAMETV(tv_now, G.now) && VP_IMPLIES(G.rounds == 0, VP_SAMETV(G.now, G.first))", "VP_IMPLIES(G.dl, VP_SAMETV(tv_timeout, G.dead)) && G.dfn == 0"]} ]
}
*/
#include "vp.h"
#include "tpoll.h"
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#if VP_OP == 0
#define VP_OPMADE 1
#else
#define VP_OPMADE 0
#endif
#define VP_LE(a,b) ((a).tv_sec < (b).tv_sec || ((a).tv_sec == (b).tv_sec && (a).tv_usec <= (b).tv_usec))
#define VP_SAMETV(a,b) ((a).tv_sec == (b).tv_sec && (a).tv_usec == (b).tv_usec)
#define VP_TVOK(a) ((a).tv_sec >= 0 && (a).tv_sec <= 0x80000000L + 3000000 && (a).tv_usec >= 0 && (a).tv_usec < 1000000)

#define VP_TVOK(a) ((a).tv_sec >= 0 && (a).tv_sec <= 0x80000000L + 3000000 && (a).tv_usec >= 0 && (a).tv_usec < 1000000)
extern struct tpoll TP;
extern struct tpoll_timer NT, NA, NB, NN;
struct pollfd F[64];
static int dt, dx;
struct {
    int has, match, id, next, ms, p0, bad;
    struct timeval tv;                  /* expiry asked for                  */
    int atid, cargs;
    long s, m, u;                       /* parts of an interval              */
} K;
struct {
    int sig, bad, seen, popped, gone, calls, frees, ofrees, head, made;
    int rounds, dl, dfn, r, n, nrecv;
    struct timeval now, first, dead, d1;
    int reads;
    struct tpoll_timer **slot, *old;
} G;
#define VP_PENDING (K.has && !G.popped && !G.gone)
/*  T passed (or fired, or cancelled), and not before its place in the order  */
#define VP_AHEAD   (K.has && !G.seen && !G.popped && !G.gone)
static void fresh(struct tpoll_timer *p);
#ifdef VP_PROVE
static struct tpoll_timer * pick(struct tpoll_timer *o);
#define VP_STEP(p)  do { if ((p) == &NT) { G.seen = 1; NT.next = pick(&NA); } \
                         else if ((p) == &NA) NA.next = pick(&NB); else NB.next = pick(&NA); G.head = 0; } while (0)
#define VP_POP(p)   do { if ((p) == &NT) { G.popped = 1; NT.next = pick(&NA); } \
                         else if ((p) == &NA) NA.next = pick(&NB); else NB.next = pick(&NA); } while (0)
#define VP_OTHEROK(n) (VP_TVOK((n).tv) && VP_IMPLIES(VP_AHEAD, VP_LE((n).tv, NT.tv)) && VP_IMPLIES(K.has && (n).id == K.atid, 0) && VP_IMPLIES(K.match, (n).id != K.id) && VP_CALLOK(n))
#define VP_CALLOK(n) ((n).fnc == other_cb && (n).arg == &dx)
#define VP_NODE(p)  ((G.seen == 0 || (G.seen == 1 && K.has)) && (((p) == &NA && VP_OTHEROK(NA)) || ((p) == &NB && VP_OTHEROK(NB)) || ((p) == &NT && VP_AHEAD) || ((p) == NULL && !VP_AHEAD)))
#define VP_HEADOK   VP_NODE(TP.timers_active)
#define VP_AT(p)    if ((p) == &NT) (p) = &NT; else if ((p) == &NA) (p) = &NA; else if ((p) == &NB) (p) = &NB; else VP_PIN(p, NULL);
#define VP_SLOTOK(q) (((q) == &TP.timers_active && VP_NODE(TP.timers_active)) || ((q) == &NT.next && G.seen && VP_NODE(NT.next)) \
    || ((q) == &NA.next && VP_NODE(NA.next) && NA.next != &NA) || ((q) == &NB.next && VP_NODE(NB.next) && NB.next != &NB))
#define VP_SLOTPIN(q) if ((q) == &TP.timers_active) (q) = &TP.timers_active; else if ((q) == &NT.next) (q) = &NT.next; \
    else if ((q) == &NA.next) (q) = &NA.next; else VP_PIN(q, &NB.next);
#define VP_COMMON   (VP.held == 1 && G.bad == 0 && G.calls == G.popped && G.frees == G.popped && (G.popped == 0 || G.popped == 1) && (G.gone == 0 || G.gone == 1) && G.popped + G.gone <= K.has && G.seen == 0 \
    && VP_IMPLIES(G.rounds > 0, VP_FIRED) && G.reads == 1 && G.dl == (K.ms > 0) && VP_TVOK(G.now) && TP.is_blocked == false && VP_IMPLIES(G.dl, VP_TVOK(G.dead)))
#endif
/*  what was due when tpoll was called has run  */
#define VP_FIRED    VP_IMPLIES(VP_PENDING, !VP_LE(NT.tv, G.first))

void t_cb(void *arg);
void other_cb(void *arg);
static void nd_tv(struct timeval *p)
{
    p->tv_sec = nd_range(0, VP_LIM(0x7fffffff, 3));
    p->tv_usec = nd_range(0, 999999);
}
#undef malloc
#undef free
#undef gettimeofday
#undef poll
#define malloc(n) vp_malloc(n)
#define free(p) vp_free(p)
#define gettimeofday(p,z) vp_now(p)
#define poll(a,n,t) vp_poll(a, n, t)
static void *vp_malloc(size_t n);
static void vp_free(void *p);
static int vp_now(struct timeval *p) { G.reads++; *p = G.now; return 0; }
static int vp_poll(struct pollfd *a, nfds_t n, int timeout);
static void _tpoll_signal_send(tpoll_t tp) { if (VP.held != 1 || tp != &TP) G.bad = 1; G.sig++; }
static void _tpoll_signal_recv(tpoll_t tp) { if (VP.held != 1 || tp != &TP) G.bad = 1; G.nrecv++; }
#if VP_OP == 1 || VP_OP == 3
/*  contract of _tpoll_get_timeval (discharged in tpoll_timer._tpoll_get_timeval)  */
static void _tpoll_get_timeval(struct timeval *p, int ms)
{
    if (VP_OP == 3 && ms > 0) {
        if (ms != K.ms || G.dl) G.bad = 1;
        nd_tv(&G.dead); G.dl = 1; *p = G.dead;
        return;
    }
    if (VP_OP == 1) { if (ms != K.ms) G.bad = 1; *p = K.tv; return; }
    nd_tv(&G.now);
    if (!G.reads) { G.first = G.now; G.reads = 1; }
    *p = G.now;
}
#endif
#if VP_OP == 3
/*  contract of _tpoll_diff_timeval (discharged in tpoll_timer._tpoll_diff_timeval)  */
static int _tpoll_diff_timeval(struct timeval *b, struct timeval *a)
{
    VP_ASSERT(VP_SAMETV(*a, G.now), "waiting is computed from the current time");
    G.d1 = *b;
    G.dfn = 1;
    G.r = VP_LE(*b, *a) ? nd_range(-0x7fffffff, 0) : nd_range(1, 0x7fffffff);
    return G.r;
}
#endif
#if VP_OP == 1
int tpoll_timeout_absolute(tpoll_t tp, callback_f cb, void *arg, const struct timeval *tvp);
#endif
#include "tpoll.c"

struct tpoll TP;
struct tpoll_timer NT, NA, NB, NN;
#if VP_OP == 1
int tpoll_timeout_absolute(tpoll_t tp, callback_f cb, void *arg, const struct timeval *tvp)
{
    if (tp != &TP || cb != t_cb || arg != &dt || !VP_SAMETV(*tvp, K.tv)) G.bad = 1;
    G.made++;
    return K.id;
}
#endif
/*  arbitrary contents for one of the other timers, in its place in the order  */
static void fresh(struct tpoll_timer *p)
{
    nd_tv(&p->tv);
    p->id = nd_range(1, INT_MAX);
    p->fnc = other_cb; p->arg = &dx;
    VP_ASSUME(!(K.has && p->id == K.atid) && !(K.match && p->id == K.id));
    VP_ASSUME(!VP_AHEAD || VP_LE(p->tv, NT.tv));
}
#ifdef VP_PROVE
static struct tpoll_timer * pick(struct tpoll_timer *o)
{
    if (nd_bool()) { fresh(o); return o; }
    return VP_AHEAD ? &NT : NULL;
}
#endif
/*  what other threads, or a callback, may do: set and cancel timers  */
static void env(int other)
{
    VP_ASSERT(VP.held == 0, "others can use the object meanwhile");
#ifdef VP_PROVE
    if (VP_PENDING && nd_bool()) G.gone = 1;
    TP.timers_active = pick(other == 1 ? &NB : &NA);
    TP.num_fds_used = nd_range(0, 1000);
#endif
}
void t_cb(void *arg)
{
    if (arg != &dt || !K.has || G.gone || G.calls || VP.held) G.bad = 1;
    VP_ASSERT(VP_LE(NT.tv, G.now), "a timer does not fire before its time");
    G.calls++;
#ifndef VP_PROVE
    G.popped = 1;
#endif
    env(2);
}
void other_cb(void *arg)
{
    if (arg != &dx || VP.held) G.bad = 1;
    VP_ASSERT(!VP_PENDING || VP_LE(NA.tv, NT.tv) || VP_LE(NB.tv, NT.tv), "timers fire in order");
    env(0);
}
static void *vp_malloc(size_t n) { if (n < sizeof(struct tpoll_timer) || G.made) G.bad = 1; if (nd_range(0, 5) == 0) return NULL; G.made = 1; return &NN; }
static void vp_free(void *p)
{
    if (p == (void *) &NT) {
        VP_ASSERT(G.frees == 0, "a timer is released at most once");
        G.frees++;
    }
    else { if (p != (void *) &NA && p != (void *) &NB) G.bad = 1; if (VP_OP == 2) G.ofrees++; }
#if defined(VP_PROVE) && VP_OP == 2
    VP_ASSERT(p == G.old && *G.slot == G.old->next, "the timer released has been taken off the list");
#endif
}
static int vp_poll(struct pollfd *a, nfds_t n, int timeout)
{
    int r;

    VP_ASSERT(a == F && n == (nfds_t) TP.max_fd + 1, "every registered descriptor is polled");
    VP_ASSERT(VP.held == 0 && TP.is_blocked, "the object is free, and known to be blocked, meanwhile");
    VP_ASSERT(VP_FIRED, "what was due has run");
    VP_ASSERT(timeout >= -1 && VP_IMPLIES(K.ms == 0, timeout == 0), "no wait is made if none was asked for");
    VP_ASSERT(VP_IMPLIES(timeout == -1, K.ms < 0 && !VP_PENDING && !TP.timers_active), "an unlimited wait is made only without timers");
    VP_ASSERT(VP_IMPLIES(timeout > 0, G.dfn && timeout <= G.r && VP_IMPLIES(VP_PENDING, VP_LE(G.d1, NT.tv)) && VP_IMPLIES(G.dl, VP_LE(G.d1, G.dead))), "the wait ends by the next expiry, and by the time limit");
    G.dfn = 0;
#ifdef VP_PROVE
    VP_ASSUME(G.rounds < 1000000000);
#else
    VP_ASSUME(G.rounds < 3);
#endif
    G.rounds++;
    env(0);
    TP.is_realloced = nd_bool();
    F[K.p0].revents = nd_bool() ? POLLIN : 0;
    r = nd_range(-1, 60);
    VP_ASSUME(!(F[K.p0].revents & POLLIN) || r > 0);
    if (r < 0) VP.err = EINTR;
    G.n = r < 0 ? -1 : r - (F[K.p0].revents ? 1 : 0);
    return r;
}

#ifndef VP_PROVE
/*  the list before: order of T and the others  */
static struct tpoll_timer *W[4];
static int wn;
static int vp_inserted(void)
{
    struct tpoll_timer *p = TP.timers_active;
    int i;
    for (i = 0; i < wn && VP_LE(W[i]->tv, K.tv); i++, p = p->next) if (p != W[i]) return 0;
    if (p != &NN) return 0;
    for (p = p->next; i < wn; i++, p = p->next) if (p != W[i]) return 0;
    return p == NULL;
}
static int vp_same(struct tpoll_timer *gone)
{
    struct tpoll_timer *p = TP.timers_active;
    int i;
    for (i = 0; i < wn; i++) if (W[i] != gone) { if (p != W[i]) return 0; p = p->next; }
    return p == NULL;
}
static struct tpoll_timer * vp_named(void) { int i; for (i = 0; i < wn; i++) if (W[i]->id == K.id) return W[i]; return NULL; }
#define VP_PLACED  vp_inserted()
#define VP_UNMOVED vp_same(NULL)
#define VP_CANCELLED(rv) (vp_named() ? (rv) == 1 && vp_same(vp_named()) : (rv) == 0 && vp_same(NULL))
#define VP_NEWHEAD (TP.timers_active == &NN)
#else
#define VP_PLACED  (*G.slot == &NN && NN.next == G.old && VP_IMPLIES(K.has, G.seen == VP_LE(NT.tv, K.tv)))
#define VP_UNMOVED (G.slot == NULL)
#define VP_CANCELLED(rv) (K.match ? ((rv) == 1 && G.frees == 1 && G.ofrees == 0) : (G.frees == 0 && G.ofrees == (rv) && ((rv) ? G.old->id == K.id : G.old == NULL)))
#define VP_NEWHEAD (G.slot == &TP.timers_active)
#endif
#define P_tpoll_timeout_absolute(R) R(tp == &TP && VP.held == 0 && (K.bad == 1 ? cb == NULL : cb == t_cb) && arg == &dt && (K.bad == 2 ? tvp == NULL : tvp == &K.tv))
#define Q_tpoll_timeout_absolute(E) \
    E("a timer is made unless an argument is bad or memory is out", K.bad ? RV == -1 && !G.made : G.made ? RV > 0 : RV == -1) \
    E("it gets the next identifier, which is positive, and the next one stays positive", VP_IMPLIES(RV > 0, RV == K.next && NN.id == RV && TP.timers_next_id > 0 && TP.timers_next_id != RV)) \
    E("it is placed after every timer due no later and before every timer due later", VP_IMPLIES(RV > 0, VP_PLACED)) \
    E("it calls back as asked, at the time asked", VP_IMPLIES(RV > 0, NN.fnc == t_cb && NN.arg == &dt && VP_SAMETV(NN.tv, K.tv))) \
    E("a failure changes nothing", VP_IMPLIES(RV < 0, VP_UNMOVED && TP.timers_next_id == K.next)) \
    E("a poll in progress learns of a nearer expiry", VP_IMPLIES(RV > 0 && VP_NEWHEAD, G.sig >= 1)) \
    E("the object is left unlocked", VP.held == 0 && G.bad == 0)
#define P_tpoll_timeout_relative(R) R(tp == &TP && cb == t_cb && arg == &dt && ms == K.ms)
#define Q_tpoll_timeout_relative(E) \
    E("one timer is set, for the current time plus the interval", G.made == 1 && G.bad == 0 && RV == K.id)
#define P_tpoll_timeout_cancel(R) R(tp == &TP && id == K.id && VP.held == 0)
#define Q_tpoll_timeout_cancel(E) \
    E("exactly the named timer is cancelled, and it is reported whether it was pending", K.id <= 0 ? RV == -1 && VP_UNMOVED && G.frees == 0 && G.ofrees == 0 : VP_CANCELLED(RV)) \
    E("it is released, once", G.frees + G.ofrees == (RV == 1)) \
    E("the object is left unlocked", VP.held == 0 && G.bad == 0)
#define P_tpoll(R) R(tp == &TP && ms == K.ms && VP.held == 0)
#define Q_tpoll(E) \
    E("a timer due when called has run, exactly once", VP_IMPLIES(K.has && !G.gone && VP_LE(NT.tv, G.first), G.calls == 1)) \
    E("no timer runs twice, and each is released when it has run", G.calls <= 1 && G.frees == G.calls && G.bad == 0) \
    E("the number of ready descriptors is returned, not counting the signal pipe", G.rounds > 0 && RV == G.n) \
    E("a timeout is reported only once the time has passed, or if there is nothing to wait for", VP_IMPLIES(RV == 0, K.ms > 0 ? VP_LE(G.dead, G.now) : K.ms == 0 || (TP.num_fds_used == 0 && !TP.timers_active))) \
    E("the object is left unlocked and not blocked", VP.held == 0 && !TP.is_blocked)
#define P__tpoll_get_timeval(R) R(tvp == &NN.tv)
/*  K.s, K.m: whole seconds and milliseconds of the interval  */
#define VP_USUM (G.now.tv_usec + K.m * 1000L)
#define Q__tpoll_get_timeval(E) \
    E("the current time plus the interval is given, normalised", K.ms <= 0 ? VP_SAMETV(NN.tv, G.now) : VP_USUM < 1000000 \
        ? NN.tv.tv_sec == G.now.tv_sec + K.s && NN.tv.tv_usec == VP_USUM : NN.tv.tv_sec == G.now.tv_sec + K.s + 1 && NN.tv.tv_usec == VP_USUM - 1000000)
/*  tvp1 - tvp0 = K.s * 10^6 + K.m * 1000 + K.u microseconds, K.m and K.u of one sign and below 1000  */
#define VP_D (RV - ((int) K.s * 1000 + (int) K.m))
#define VP_LATER (K.s > 0 || (K.s == 0 && K.m >= 0 && K.u >= 0))
#define P__tpoll_diff_timeval(R) R(tvp1 == &NA.tv && tvp0 == &NB.tv)
#define Q__tpoll_diff_timeval(E) \
    E("the interval to a later time is given in milliseconds, rounded up by at most one", VP_IMPLIES(VP_LATER, VP_D * 1000L >= K.u && (VP_D - 1) * 1000L <= K.u)) \
    E("a time that has passed gives no interval", VP_IMPLIES(!VP_LATER, RV <= 0))

#define VPF VP_ASSIGNS(TP, NT, NA, NB, NN, F[K.p0].revents, G, VP)
int tpoll_timeout_absolute(tpoll_t tp, callback_f cb, void *arg, const struct timeval *tvp) VP_REQ(P_tpoll_timeout_absolute) VPF VP_ENS(Q_tpoll_timeout_absolute);
int tpoll_timeout_relative(tpoll_t tp, callback_f cb, void *arg, int ms) VP_REQ(P_tpoll_timeout_relative) VPF VP_ENS(Q_tpoll_timeout_relative);
int tpoll_timeout_cancel(tpoll_t tp, int id) VP_REQ(P_tpoll_timeout_cancel) VPF VP_ENS(Q_tpoll_timeout_cancel);
int tpoll(tpoll_t tp, int ms) VP_REQ(P_tpoll) VPF VP_ENS(Q_tpoll);
#if VP_OP == 4
static void _tpoll_get_timeval(struct timeval *tvp, int ms) VP_REQ(P__tpoll_get_timeval) VPF VP_ENS(Q__tpoll_get_timeval);
#elif VP_OP == 5
static int _tpoll_diff_timeval(struct timeval *tvp1, struct timeval *tvp0) VP_REQ(P__tpoll_diff_timeval) VPF VP_ENS(Q__tpoll_diff_timeval);
#endif

#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); rc = (int) (long) vp_rv; }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
void harness(void)
{
    tpoll_t tp = &TP;
    callback_f cb = t_cb;
    void *arg = &dt;
    const struct timeval *tvp = &K.tv;
    int id, ms, rc = 0;

    G.sig = G.bad = G.seen = G.popped = G.gone = G.calls = G.frees = G.ofrees = G.made = G.rounds = G.dl = G.dfn = G.r = G.n = G.nrecv = G.reads = 0;
    G.head = 1; G.slot = NULL; G.old = NULL;
    K.has = nd_bool(); K.id = nd_range(-1, INT_MAX); K.next = nd_range(1, INT_MAX);
    K.ms = nd_range(-1, INT_MAX); K.p0 = nd_range(0, 63); K.bad = nd_range(0, 2);
    nd_tv(&K.tv); nd_tv(&G.now);
    VP.held = VP.err = 0;
    id = K.id; ms = K.ms;
    TP.timers_next_id = K.next;
    TP.fd_array = F; TP.fd_pipe[0] = K.p0; TP.max_fd = nd_range(K.p0, 63); TP.num_fds_used = nd_range(0, 1000);
    TP.is_blocked = TP.is_realloced = false; TP.is_signaled = nd_bool();
    NT.fnc = t_cb; NT.arg = &dt; nd_tv(&NT.tv);
    NT.id = K.atid = nd_range(1, INT_MAX);
    K.match = K.has && K.id > 0 && nd_bool();
    if (K.match) NT.id = K.atid = K.id;
    VP_ASSUME(!K.has || K.match || K.atid != K.id);
    NN.next = NULL; NN.fnc = NULL; NN.arg = NULL; NN.id = 0;
#ifdef VP_PROVE
    NA.next = NB.next = NT.next = NULL;
    TP.timers_active = nd_bool() ? pick(&NB) : pick(&NA);
#else
    {
        struct tpoll_timer **q = &TP.timers_active;
        wn = 0;
        fresh(&NA); NB.tv = NA.tv; NB.fnc = other_cb; NB.arg = &dx; NB.id = nd_range(1, INT_MAX);
        NB.tv.tv_sec = nd_range(0, 3);
        VP_ASSUME(NB.id != NA.id && !(K.has && NB.id == K.atid) && VP_LE(NA.tv, NB.tv) && (!K.has || VP_LE(NT.tv, NB.tv)));
        if (nd_range(0, 3)) { W[wn++] = *q = &NA; q = &NA.next; }
        if (K.has) { W[wn++] = *q = &NT; q = &NT.next; }
        if (nd_bool()) { W[wn++] = *q = &NB; q = &NB.next; }
        *q = NULL;
    }
#endif
#if VP_OP == 0
    if (K.bad == 1) cb = NULL;
    if (K.bad == 2) tvp = NULL;
    CALL(tpoll_timeout_absolute, int, (tp, cb, arg, tvp))
    if (rc > 0 && G.sig) VP_REACH("first");
    if (rc > 0 && K.has && VP_LE(NT.tv, K.tv)) VP_REACH("later");
#elif VP_OP == 1
    CALL(tpoll_timeout_relative, int, (tp, cb, arg, ms))
    VP_REACH("return");
#elif VP_OP == 2
    CALL(tpoll_timeout_cancel, int, (tp, id))
    if (rc == 1) VP_REACH("cancelled");
    if (rc == 0) VP_REACH("not found");
#elif VP_OP == 3
    CALL(tpoll, int, (tp, ms))
    if (rc == 0 && G.calls) VP_REACH("timeout");
    if (rc > 0) VP_REACH("ready");
    if (rc < 0) VP_REACH("error");
#elif VP_OP == 4
    tvp = &NN.tv;
    { struct timeval *tvp = &NN.tv;
    K.s = ms / 1000; K.m = ms % 1000;
    CALLV(_tpoll_get_timeval, (tvp, ms)) }
    VP_REACH("return");
#else
    { struct timeval *tvp1 = &NA.tv, *tvp0 = &NB.tv;
    nd_tv(tvp0);
    K.s = nd_range(-2147480, 2147480); K.m = nd_range(0, 999); K.u = nd_range(0, 999);
    if (nd_bool()) { K.m = -K.m; K.u = -K.u; }
    tvp1->tv_sec = tvp0->tv_sec + K.s;
    tvp1->tv_usec = tvp0->tv_usec + K.m * 1000 + K.u;
    VP_ASSUME(tvp1->tv_sec >= 0 && tvp1->tv_usec >= 0 && tvp1->tv_usec < 1000000);
    CALL(_tpoll_diff_timeval, int, (tvp1, tvp0)) }
    VP_REACH("return");
#endif
    (void) tp; (void) cb; (void) arg; (void) tvp; (void) id; (void) ms; (void) rc;
}
