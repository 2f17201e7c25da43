/*VP
{ "properties": ["C21"],
  "sources": ["server-process.c"],
  "enforce": ["open_process_obj", "connect_process_obj", "disconnect_process_obj", "reset_process_delay",
     "open_unixsock_obj", "connect_unixsock_obj", "disconnect_unixsock_obj", "reset_unixsock_delay", "open_unixsock_obj_via_inotify",
     "open_ipmi_obj", "connect_ipmi_obj", "disconnect_ipmi_obj", "reset_ipmi_delay", "send_ipmi_break"],
  "unwind": 2, "backends": ["sat", "z3"], "timeout": 150,
  "assumptions": ["process consoles: the members of aux_obj_t are laid side by side, as these functions use only one of them (the bounded run uses the real union)"],
  "trusted": ["fork, execv, dup2, kill, stat, access, socket, socketpair, connect, close, time: any result", "timer service (C13)", "ipmiconsole_*: any result; its callback runs later"],
  "per": {
    "open_process_obj": {"properties": ["C21", "C26"]}, "connect_process_obj": {"properties": ["C21", "C26"]},
    "open_unixsock_obj": {"sources": ["server-unixsock.c"]}, "connect_unixsock_obj": {"sources": ["server-unixsock.c"]}, "disconnect_unixsock_obj": {"sources": ["server-unixsock.c"]},
    "reset_unixsock_delay": {"sources": ["server-unixsock.c"]}, "open_unixsock_obj_via_inotify": {"sources": ["server-unixsock.c"]},
    "open_ipmi_obj": {"sources": ["server-ipmi.c"]}, "connect_ipmi_obj": {"sources": ["server-ipmi.c"]}, "disconnect_ipmi_obj": {"sources": ["server-ipmi.c"]},
    "reset_ipmi_delay": {"sources": ["server-ipmi.c"]}, "send_ipmi_break": {"sources": ["server-ipmi.c"]} }
}
*/
#include "vp.h"
#include "common.h"
#include "list.h"
#include "tpoll.h"
#include <netinet/in.h>
#include <pthread.h>
#include <termios.h>
#include <time.h>
#if VP_OP < 4 && defined(VP_PROVE)
#define union struct    /* the members of aux_obj_t side by side: these functions use only aux.process */
#endif
#include "server.h"
#undef union
#include "inevent.h"
#include "util.h"
#include "util-net.h"
#include "util-file.h"
#include "util-str.h"
#include "log.h"
#include "stub_str.h"

#define VP_PRC (VP_OP < 4)
#define VP_UNX (VP_OP >= 4 && VP_OP < 9)
#define VP_IPM (VP_OP >= 9)
obj_t CO;
tpoll_t tp_global;
char PROG[4], *ARGV[2], DEVP[4], DST[4];
struct {
    int pending, id, ms, orphan;        /* the pending timer                 */
    callback_f cb; void *arg;
    int open, ev, peer;                 /* descriptor 7, and 8, its peer     */
    int cx7, cx8, nb7;
    int fdbad, notes, notebad;
    int child, d0, d1, d2;              /* this is the child, its descriptors */
    int killed, killbad, pid, strs;
    int ctx, submitted, estab, optbad, breaks;
} G;
struct { int state, delay, fd, pid, inotify, ctx, open, set; } K;
int tpoll_timeout_relative(tpoll_t tp, callback_f cb, void *arg, int ms)
{
    if (G.pending) G.orphan = 1;
    G.pending = 1; G.cb = cb; G.arg = arg; G.ms = ms;
    return ++G.id;
}
int tpoll_timeout_cancel(tpoll_t tp, int id)
{
    if (!G.pending || id != G.id) return 0;
    G.pending = 0;
    return 1;
}
int tpoll_set(tpoll_t tp, int fd, short int ev) { if (fd != 7 || !G.open) G.fdbad = 1; else G.ev |= ev; return 0; }
int tpoll_clear(tpoll_t tp, int fd, short int ev) { if (fd == 7) G.ev &= ~ev; return 0; }
#define socket(a,b,c) vp_socket()
static int vp_socket(void) { if (nd_bool()) { VP.err = nd_range(1, 130); return -1; } if (G.open) G.fdbad = 1; G.open = 1; G.ev = 0; return 7; }
#define socketpair(a,b,c,p) vp_socketpair(p)
static int vp_socketpair(int *p)
{
    if (nd_bool()) { VP.err = nd_range(1, 130); return -1; }
    if (G.open || G.peer) G.fdbad = 1;
    G.open = G.peer = 1; G.ev = 0;
    p[0] = 7; p[1] = 8;
    return 0;
}
#define connect(a,b,c) vp_connect()
static int vp_connect(void) { if (nd_bool()) return 0; VP.err = nd_range(1, 130); return -1; }
#define close(fd) vp_close(fd)
static int vp_close(int fd)
{
    if (fd == 7) { if (!G.open) G.fdbad = 1; if (G.ev && !G.child) G.fdbad = 2; G.open = 0; }
    else if (fd == 8) { if (!G.peer) G.fdbad = 1; G.peer = 0; }
    else G.fdbad = 1;
    if (nd_bool()) return 0;
    VP.err = nd_range(1, 130);
    return -1;
}
void set_fd_nonblocking(int fd) { if ((fd != 7 || !G.open) && (fd != 8 || !G.peer)) G.fdbad = 1; if (fd == 7) G.nb7 = 1; }
void set_fd_closed_on_exec(int fd) { if ((fd != 7 || !G.open) && (fd != 8 || !G.peer)) G.fdbad = 1; if (fd == 7) G.cx7 = 1; if (fd == 8) G.cx8 = 1; }
#define fork() vp_fork()
static int vp_fork(void)
{
    int r = nd_range(-1, 2);
    if (r < 0) { VP.err = nd_range(1, 130); return -1; }
    if (r == 0) { G.child = 1; return 0; }
    G.pid = nd_range(2, 30000);
    return G.pid;
}
#define dup2(a,b) vp_dup2(a, b)
static int vp_dup2(int a, int b)
{
    if (!G.child || a != 8 || !G.peer) G.fdbad = 1;
    if (nd_bool()) return -1;
    if (b == 0) G.d0 = 1;
    if (b == 1) G.d1 = 1;
    if (b == 2) G.d2 = 1;
    return b;
}
#define execv(p,a) vp_execv(p, a)
static int vp_execv(const char *p, char **a)
{
    VP_ASSERT(G.child && p == ARGV[0] && a == ARGV, "the child runs the configured program, with its arguments");
    VP_ASSERT(G.d0 && G.d1 && G.d2, "the child's standard descriptors are its console");
    VP_ASSERT((!G.open || G.cx7) && (!G.peer || G.cx8) && !G.fdbad, "the child has no other descriptor");
    if (nd_bool()) VP_DIE();
    return -1;
}
#define _exit(n) vp_exit(n)
#define exit(n) vp_exit(n)
static void vp_exit(int n) { VP_DIE(); }
#define stat(p,b) vp_stat(p, b)
static int vp_stat(const char *p, struct stat *b)
{
    if (p != (VP_PRC ? PROG : DEVP)) G.notebad = 1;
    if (nd_bool()) { VP.err = nd_range(1, 130); return -1; }
    b->st_mode = nd_bool() ? S_IFREG : nd_bool() ? S_IFSOCK : S_IFDIR;
    return 0;
}
#define access(p,m) vp_access(p, m)
static int vp_access(const char *p, int m) { if (p != PROG) G.notebad = 1; return nd_range(-1, 0); }
#define time(p) vp_time(p)
static time_t vp_time(time_t *p) { time_t v = nd_range(1, 1000000); if (p) *p = v; return v; }
#define kill(p,s) vp_kill(p, s)
static int vp_kill(int p, int s) { if (p != K.pid || s != SIGKILL || p <= 1) G.killbad = 1; G.killed++; return nd_range(-1, 0); }
char * create_time_delta_string(time_t a, time_t b) { G.strs++; return DST; }
#undef free
#define free(p) vp_free(p)
static void vp_free(void *p) { if (p == DST) G.strs--; else if (p) G.notebad = 1; }
#undef strlcpy
#define strlcpy(d,s,n) vp_strlcpy(d, s, n)
static size_t vp_strlcpy(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "a copy stays within its buffer");
    if (s != DEVP) G.notebad = 1;
    d[0] = s[0]; d[1] = 0;
    return nd_bool() ? 1 : n + 1;
}
#define write_notify_msg(o, p, ...) vp_notify(o, p)
static void vp_notify(obj_t *o, int p)
{
    if (o != &CO) G.notebad = 1;
    G.notes++;
}
int inevent_add(const char *p, inevent_cb_f cb, void *a) { return 0; }
char * create_string(const char *s) { return PROG; }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#if VP_OP >= 9
#define IC CO.aux.ipmi.iconf
static int connect_ipmi_obj(obj_t *);
char CTXO[2];
void ipmiconsole_ctx_destroy(ipmiconsole_ctx_t c) { if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx) G.optbad = 1; G.ctx = 0; }
ipmiconsole_ctx_t ipmiconsole_ctx_create(const char *h, struct ipmiconsole_ipmi_config *i, struct ipmiconsole_protocol_config *p, struct ipmiconsole_engine_config *e)
{
    if (G.ctx || h != DEVP) G.optbad = 1;
    if (i->username != ((K.set & 1) ? IC.username : NULL) || i->password != ((K.set & 2) ? IC.password : NULL)) G.optbad = 1;
    if (i->k_g != ((K.set & 4) ? IC.kg : NULL) || i->k_g_len != ((K.set & 4) ? IC.kgLen : 0)) G.optbad = 1;
    if (i->privilege_level != IC.privilegeLevel || i->cipher_suite_id != IC.cipherSuite || i->workaround_flags != IC.workaroundFlags) G.optbad = 1;
    if (nd_bool()) return NULL;
    G.ctx = 1;
    return (ipmiconsole_ctx_t) CTXO;
}
int ipmiconsole_engine_submit(ipmiconsole_ctx_t c, Ipmiconsole_callback cb, void *arg)
{
    if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx || G.submitted || cb != (Ipmiconsole_callback) connect_ipmi_obj || arg != &CO) G.optbad = 1;
    if (nd_bool()) return -1;
    G.submitted = 1;
    return 0;
}
ipmiconsole_ctx_status_t ipmiconsole_ctx_status(ipmiconsole_ctx_t c)
{
    if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx) G.optbad = 1;
    G.estab = nd_bool();
    return G.estab ? IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED : nd_bool() ? IPMICONSOLE_CTX_STATUS_SUBMITTED : IPMICONSOLE_CTX_STATUS_ERROR;
}
int ipmiconsole_ctx_fd(ipmiconsole_ctx_t c) { if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx) G.optbad = 1; if (nd_bool()) return -1; G.open = 1; return 7; }
int ipmiconsole_ctx_errnum(ipmiconsole_ctx_t c) { if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx) G.optbad = 1; return nd_range(0, 50); }
char * ipmiconsole_ctx_strerror(int e) { return PROG; }
int ipmiconsole_ctx_generate_break(ipmiconsole_ctx_t c) { if (c != (ipmiconsole_ctx_t) CTXO || !G.ctx) G.optbad = 1; G.breaks++; return nd_range(-1, 0); }
#undef pthread_mutex_lock
#undef pthread_mutex_unlock
#define pthread_mutex_lock(m) vp_lock(m)
#define pthread_mutex_unlock(m) vp_unlock(m)
static int vp_lock(pthread_mutex_t *m) { VP_ASSERT(m == &CO.aux.ipmi.mutex && VP.held == 0, "the lock is not already held"); VP.held++; return 0; }
static int vp_unlock(pthread_mutex_t *m) { VP_ASSERT(m == &CO.aux.ipmi.mutex && VP.held == 1, "only a held lock is released"); VP.held--; return 0; }
#endif

#define HASTIMER(id_, f) (G.pending == 1 && (id_) == G.id && G.cb == (callback_f) (f) && G.arg == (void *) &CO && !G.orphan)
#define CLOSED (CO.fd < 0 && !G.open && !G.peer)
#define SENSIBLE (!G.orphan && !G.fdbad && !G.notebad && !G.child && !G.killbad && !G.strs && !G.optbad && VP.held == 0)
#define MIN2(a,b) ((a) < (b) ? (a) : (b))
#define ISOPEN (CO.fd == 7 && G.open && !G.peer && (G.ev & POLLIN))

#if VP_OP < 4
#define T CO.aux.process
#define NEXTD(d) ((d) == 0 ? PROCESS_MIN_TIMEOUT : MIN2(2 * (d), PROCESS_MAX_TIMEOUT))
#define DOK(d) ((d) == 0 || ((d) >= PROCESS_MIN_TIMEOUT && (d) <= PROCESS_MAX_TIMEOUT))
#define ISUP (T.state == CONMAN_PROCESS_UP && ISOPEN && G.cx7 && G.nb7 && T.pid == G.pid && T.pid > 0 && T.tStart > 0 && CO.gotEOF == 0)
#define ISDOWN (T.state == CONMAN_PROCESS_DOWN && CLOSED && T.pid == -1)
static int connect_process_obj(obj_t *);
static int disconnect_process_obj(obj_t *);
static void reset_process_delay(obj_t *);
#define P_open_process_obj(R) R(process == &CO)
#define Q_open_process_obj(E) \
    E("a program that was running is ended and its console closed, with a retry", VP_IMPLIES(K.state == CONMAN_PROCESS_UP, RV == -1 && G.killed == 1 && G.notes == 1)) \
    E("one that was not is never killed", VP_IMPLIES(K.state == CONMAN_PROCESS_DOWN, G.killed == 0)) \
    E("it is up with only its delay reset pending, or down with exactly one retry", RV == 0 ? (ISUP && HASTIMER(T.timer, reset_process_delay) && G.ms == PROCESS_MIN_TIMEOUT * 1000 && T.delay == K.delay && G.notes == 1) \
        : (RV == -1 && ISDOWN && HASTIMER(T.timer, open_process_obj) && G.ms == K.delay * 1000 && T.delay == NEXTD(K.delay))) \
    E("the delay stays within the documented limits", DOK(T.delay)) \
    E("descriptors, children and timers are consistent", SENSIBLE)
#define P_connect_process_obj(R) R(process == &CO && T.state == CONMAN_PROCESS_DOWN && G.pending == 0)
#define Q_connect_process_obj(E) \
    E("success means the program runs, is being read, and only its delay reset is pending", VP_IMPLIES(RV == 0, ISUP && HASTIMER(T.timer, reset_process_delay) && G.ms == PROCESS_MIN_TIMEOUT * 1000 && G.notes == 1)) \
    E("failure leaves no descriptor or process behind", VP_IMPLIES(RV != 0, RV == -1 && ISDOWN && G.pid == 0 && G.pending == 0)) \
    E("the delay is not changed yet", T.delay == K.delay) \
    E("descriptors, children and timers are consistent", SENSIBLE)
#define P_disconnect_process_obj(R) R(process == &CO && T.state == CONMAN_PROCESS_UP && G.pending == 0)
#define Q_disconnect_process_obj(E) \
    E("the program is ended and its console closed", RV == -1 && ISDOWN && G.killed == 1 && T.delay == K.delay) \
    E("observers are told", G.notes == 1) \
    E("descriptors, children and timers are consistent", SENSIBLE)
#define P_reset_process_delay(R) R(process == &CO && T.state == CONMAN_PROCESS_UP && G.pending == 0)
#define Q_reset_process_delay(E) \
    E("a lasting connection resets the delay and leaves nothing pending", T.delay == 0 && T.timer < 0 && G.pending == 0 && T.state == CONMAN_PROCESS_UP && CO.fd == K.fd && T.pid == K.pid && SENSIBLE)
#elif VP_OP < 9
#define T CO.aux.unixsock
#define NEXTD(d) MIN2(2 * (d), UNIXSOCK_MAX_TIMEOUT)
#define DOK(d) ((d) >= UNIXSOCK_MIN_TIMEOUT && (d) <= UNIXSOCK_MAX_TIMEOUT)
#define ISUP (T.state == CONMAN_UNIXSOCK_UP && ISOPEN && G.cx7 && G.nb7 && CO.gotEOF == 0 && HASTIMER(T.timer, reset_unixsock_delay) && G.ms == MIN_CONNECT_SECS * 1000)
#define RETRYW(d) (T.state == CONMAN_UNIXSOCK_DOWN && CLOSED && HASTIMER(T.timer, connect_unixsock_obj) && G.ms == (d) * 1000 && T.delay == NEXTD(d))
#define RETRY (RETRYW(K.delay) || (K.inotify && RETRYW(UNIXSOCK_MIN_TIMEOUT)))
static int connect_unixsock_obj(obj_t *);
static int disconnect_unixsock_obj(obj_t *);
static void reset_unixsock_delay(obj_t *);
#define P_open_unixsock_obj(R) R(unixsock == &CO)
#define Q_open_unixsock_obj(E) \
    E("a console that was up is closed, with exactly one retry", VP_IMPLIES(K.state == CONMAN_UNIXSOCK_UP, RV == -1 && RETRYW(K.delay) && G.notes == 1)) \
    E("otherwise it is up with only its delay reset pending, or has exactly one retry", VP_IMPLIES(K.state == CONMAN_UNIXSOCK_DOWN, RV == 0 ? ISUP && T.delay == K.delay && G.notes == 1 : RV == -1 && RETRY && G.notes == 0)) \
    E("the delay stays within the documented limits", DOK(T.delay)) \
    E("descriptors and timers are consistent", SENSIBLE)
#define P_connect_unixsock_obj(R) R(unixsock == &CO && T.state == CONMAN_UNIXSOCK_DOWN)
#define Q_connect_unixsock_obj(E) \
    E("success means the console is up, is being read, and only its delay reset is pending", VP_IMPLIES(RV == 0, ISUP && T.delay == K.delay && G.notes == 1)) \
    E("failure leaves exactly one retry pending, within its limits", VP_IMPLIES(RV != 0, RV == -1 && RETRY && G.notes == 0 && DOK(T.delay))) \
    E("descriptors and timers are consistent", SENSIBLE && T.isViaInotify == 0)
#define P_disconnect_unixsock_obj(R) R(unixsock == &CO)
#define Q_disconnect_unixsock_obj(E) \
    E("the connection is closed and exactly one retry is pending, after the current delay", RV == -1 && RETRYW(K.delay) && DOK(T.delay)) \
    E("observers are told exactly when the console was up", G.notes == (K.state == CONMAN_UNIXSOCK_UP)) \
    E("descriptors and timers are consistent", SENSIBLE)
#define P_reset_unixsock_delay(R) R(unixsock == &CO && T.state == CONMAN_UNIXSOCK_UP && G.pending == 0)
#define Q_reset_unixsock_delay(E) \
    E("a lasting connection resets the delay and leaves nothing pending", T.delay == UNIXSOCK_MIN_TIMEOUT && T.timer < 0 && G.pending == 0 && T.state == CONMAN_UNIXSOCK_UP && CO.fd == K.fd && SENSIBLE)
#define P_open_unixsock_obj_via_inotify(R) R(unixsock == &CO)
#define Q_open_unixsock_obj_via_inotify(E) Q_open_unixsock_obj(E)
#else
#define T CO.aux.ipmi
#define NEXTD(d) MIN2(2 * (d), IPMI_MAX_TIMEOUT)
#define DOK(d) ((d) >= IPMI_MIN_TIMEOUT && (d) <= IPMI_MAX_TIMEOUT)
#define ISUP (T.state == CONMAN_IPMI_UP && ISOPEN && G.cx7 && G.nb7 && CO.gotEOF == 0 && HASTIMER(T.timer, reset_ipmi_delay) && G.ms == IPMI_MIN_TIMEOUT * 1000)
#define RETRY (T.state == CONMAN_IPMI_DOWN && CLOSED && HASTIMER(T.timer, connect_ipmi_obj) && G.ms == K.delay * 1000 && T.delay == NEXTD(K.delay))
#define ISPEND (T.state == CONMAN_IPMI_PENDING && CLOSED && G.submitted && HASTIMER(T.timer, connect_ipmi_obj) && G.ms == IPMI_CONNECT_TIMEOUT * 1000 && T.delay == K.delay)
static void disconnect_ipmi_obj(obj_t *);
static void reset_ipmi_delay(obj_t *);
#define VP_CTX (G.ctx == (T.ctx != NULL))
#define P_open_ipmi_obj(R) R(ipmi == &CO)
#define Q_open_ipmi_obj(E) \
    E("a connection attempt is in progress, or exactly one retry is pending", VP_IMPLIES(K.state != CONMAN_IPMI_PENDING, RV == 0 ? ISPEND : RV == -1 && RETRY)) \
    E("an attempt in progress is left alone", VP_IMPLIES(K.state == CONMAN_IPMI_PENDING, RV == 0 && T.state == CONMAN_IPMI_PENDING && G.pending && T.timer == G.id && !G.submitted)) \
    E("observers are told exactly when the console was up", G.notes == (K.state == CONMAN_IPMI_UP)) \
    E("descriptors, sessions, locks and timers are consistent", SENSIBLE && VP_CTX && DOK(T.delay))
#define P_connect_ipmi_obj(R) R(ipmi == &CO)
#define Q_connect_ipmi_obj(E) \
    E("a console that is up is left alone", VP_IMPLIES(K.state == CONMAN_IPMI_UP, RV == 0 && T.state == CONMAN_IPMI_UP && CO.fd == K.fd && T.delay == K.delay && G.notes == 0 && !G.submitted && VP_IMPLIES(G.pending, G.cb == (callback_f) reset_ipmi_delay))) \
    E("an attempt is started, or exactly one retry is pending", VP_IMPLIES(K.state == CONMAN_IPMI_DOWN, G.notes == 0 && (RV == 0 ? ISPEND : RV == -1 && RETRY))) \
    E("an attempt is completed with only its delay reset pending, or exactly one retry is", VP_IMPLIES(K.state == CONMAN_IPMI_PENDING, RV == 0 ? ISUP && T.delay == K.delay && G.notes == 1 : RV == -1 && RETRY && G.notes == 0)) \
    E("descriptors, sessions, locks and timers are consistent", SENSIBLE && VP_CTX && DOK(T.delay))
#define P_disconnect_ipmi_obj(R) R(ipmi == &CO)
#define Q_disconnect_ipmi_obj(E) \
    E("the connection is closed and nothing is pending", T.state == CONMAN_IPMI_DOWN && CLOSED && G.pending == 0 && T.timer < 0 && T.delay == K.delay) \
    E("observers are told exactly when the console was up", G.notes == (K.state == CONMAN_IPMI_UP)) \
    E("descriptors, sessions, locks and timers are consistent", SENSIBLE && VP_CTX)
#define P_reset_ipmi_delay(R) R(ipmi == &CO && T.state == CONMAN_IPMI_UP && G.pending == 0)
#define Q_reset_ipmi_delay(E) \
    E("a lasting connection resets the delay and leaves nothing pending", T.delay == IPMI_MIN_TIMEOUT && T.timer < 0 && G.pending == 0 && T.state == CONMAN_IPMI_UP && CO.fd == K.fd && SENSIBLE)
#define P_send_ipmi_break(R) R(ipmi == &CO)
#define Q_send_ipmi_break(E) \
    E("a break is sent once if there is a session, and -1 returned otherwise", G.breaks == K.ctx && VP_IMPLIES(!K.ctx, RV == -1)) \
    E("nothing else changes", T.state == (unsigned) K.state && CO.fd == K.fd && SENSIBLE)
#endif
#define VPF VP_ASSIGNS(CO, G, VP)
#define DI(f,o) int f(obj_t *o) VP_REQ(P_##f) VPF VP_ENS(Q_##f);
#define SI(f,o) static int f(obj_t *o) VP_REQ(P_##f) VPF VP_ENS(Q_##f);
#define SV(f,o) static void f(obj_t *o) VP_REQ(P_##f) VPF VP_ENS(Q_##f);
#if VP_OP < 4
DI(open_process_obj, process) SI(connect_process_obj, process) SI(disconnect_process_obj, process) SV(reset_process_delay, process)
#include "server-process.c"
#elif VP_OP < 9
DI(open_unixsock_obj, unixsock) SI(connect_unixsock_obj, unixsock) SI(disconnect_unixsock_obj, unixsock) SV(reset_unixsock_delay, unixsock) SI(open_unixsock_obj_via_inotify, unixsock)
#include "server-unixsock.c"
#else
DI(open_ipmi_obj, ipmi) SI(connect_ipmi_obj, ipmi) SV(disconnect_ipmi_obj, ipmi) SV(reset_ipmi_delay, ipmi) DI(send_ipmi_break, ipmi)
#include "server-ipmi.c"
#endif
#define CALL(f, a) { int vp_rv; VP_PRE(P_##f); vp_rv = f(a); VP_POST(Q_##f); if (vp_rv == 0) VP_REACH("done"); else VP_REACH("failed"); }
#define CALF(f, a) { VP_PRE(P_##f); (void) f(a); VP_POST(Q_##f); VP_REACH("done"); }
#define CALV(f, a) { VP_PRE(P_##f); f(a); VP_POST(Q_##f); VP_REACH("done"); }

void harness(void)
{
    int c;
    obj_t *process = &CO, *unixsock = &CO, *ipmi = &CO;

    (void) process; (void) unixsock; (void) ipmi;
    ARGV[0] = PROG; ARGV[1] = NULL; PROG[0] = DEVP[0] = 47; PROG[1] = DEVP[1] = 0;
    memset(&G, 0, sizeof(G));
    VP.held = VP.err = VP.died = 0;
    CO.name = PROG;
    CO.gotEOF = nd_bool();
    CO.fd = -1;
    G.id = nd_range(1, 1000);
    T.timer = -1; T.logfile = NULL;
    c = nd_range(0, 2);
    K.inotify = K.ctx = K.pid = K.set = 0;
#if VP_OP < 4
    CO.type = CONMAN_OBJ_PROCESS;
    T.state = nd_bool() ? CONMAN_PROCESS_UP : CONMAN_PROCESS_DOWN;
    T.prog = PROG; T.argv = ARGV; T.pid = -1; T.tStart = 0;
    T.delay = nd_range(0, PROCESS_MAX_TIMEOUT);
    if (T.state == CONMAN_PROCESS_UP) {
        T.pid = K.pid = nd_range(2, 30000); T.tStart = nd_range(1, 1000000);
        if (c) T.timer = G.id;
        if (c == 1) { G.pending = 1; G.cb = (callback_f) reset_process_delay; G.arg = &CO; }
    }
    else {
        /*  not yet started, retry pending, or retry just firing  */
        if (c) T.timer = G.id;
        if (c == 1) { G.pending = 1; G.cb = (callback_f) open_process_obj; G.arg = &CO; }
    }
    if (VP_OP == 1 || VP_OP == 2) { T.timer = -1; G.pending = 0; }
    if (T.state == CONMAN_PROCESS_UP && nd_bool()) { CO.fd = 7; G.open = 1; G.ev = POLLIN | (nd_bool() ? POLLOUT : 0); }
#elif VP_OP < 9
    CO.type = CONMAN_OBJ_UNIXSOCK;
    T.state = nd_bool() ? CONMAN_UNIXSOCK_UP : CONMAN_UNIXSOCK_DOWN;
    T.dev = DEVP;
    T.delay = nd_range(0, UNIXSOCK_MAX_TIMEOUT);
    K.inotify = VP_OP == 8 ? 1 : nd_bool();
    T.isViaInotify = VP_OP == 8 ? 0 : K.inotify;
    if (c) T.timer = G.id;
    if (c == 1) { G.pending = 1; G.cb = T.state == CONMAN_UNIXSOCK_UP ? (callback_f) reset_unixsock_delay : (callback_f) connect_unixsock_obj; G.arg = &CO; }
    if (VP_OP == 6 && T.state == CONMAN_UNIXSOCK_DOWN && nd_bool()) { CO.fd = 7; G.open = 1; T.timer = -1; G.pending = 0; }
    if (T.state == CONMAN_UNIXSOCK_UP && nd_bool()) { CO.fd = 7; G.open = 1; G.ev = POLLIN | (nd_bool() ? POLLOUT : 0); }
#else
    CO.type = CONMAN_OBJ_IPMI;
    T.host = DEVP;
    T.state = nd_bool() ? CONMAN_IPMI_DOWN : nd_bool() ? CONMAN_IPMI_UP : CONMAN_IPMI_PENDING;
    T.delay = nd_range(0, IPMI_MAX_TIMEOUT);
    G.ctx = T.state != CONMAN_IPMI_DOWN || nd_bool();
    K.set = nd_range(0, 7);
    T.iconf.isUsernameSet = K.set & 1; T.iconf.isPasswordSet = (K.set & 2) != 0; T.iconf.isKgSet = (K.set & 4) != 0;
    T.iconf.kgLen = nd_range(0, 20); T.iconf.privilegeLevel = nd_int(); T.iconf.cipherSuite = nd_int(); T.iconf.workaroundFlags = nd_uint();
    T.ctx = G.ctx ? (ipmiconsole_ctx_t) CTXO : NULL;
    if (T.state == CONMAN_IPMI_PENDING && VP_OP == 9) c = 1;
    if (c) T.timer = G.id;
    if (c == 1) { G.pending = 1; G.cb = T.state == CONMAN_IPMI_UP ? (callback_f) reset_ipmi_delay : (callback_f) connect_ipmi_obj; G.arg = &CO; }
    if (T.state == CONMAN_IPMI_UP && (VP_OP == 10 || nd_bool())) { CO.fd = 7; G.open = 1; G.ev = POLLIN | (nd_bool() ? POLLOUT : 0); }
#endif
    VP_ASSUME(DOK(T.delay));
    if (VP_OP == 3 || VP_OP == 7 || VP_OP == 12) { VP_ASSUME(G.open && c == 1); G.pending = 0; }
    K.state = T.state; K.delay = T.delay; K.fd = CO.fd; K.ctx = G.ctx;
#if VP_OP == 0
    CALL(open_process_obj, process)
#elif VP_OP == 1
    CALL(connect_process_obj, process)
#elif VP_OP == 2
    CALF(disconnect_process_obj, process)
#elif VP_OP == 3
    CALV(reset_process_delay, process)
#elif VP_OP == 4
    CALL(open_unixsock_obj, unixsock)
#elif VP_OP == 5
    CALL(connect_unixsock_obj, unixsock)
#elif VP_OP == 6
    CALF(disconnect_unixsock_obj, unixsock)
#elif VP_OP == 7
    CALV(reset_unixsock_delay, unixsock)
#elif VP_OP == 8
    CALL(open_unixsock_obj_via_inotify, unixsock)
#elif VP_OP == 9
    CALL(open_ipmi_obj, ipmi)
#elif VP_OP == 10
    CALL(connect_ipmi_obj, ipmi)
#elif VP_OP == 11
    CALV(disconnect_ipmi_obj, ipmi)
#elif VP_OP == 12
    CALV(reset_ipmi_delay, ipmi)
#else
    CALL(send_ipmi_break, ipmi)
#endif
}
