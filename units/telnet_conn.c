/*VP
{ "properties": ["C21", "C06", "C05"],
  "sources": ["server-telnet.c"],
  "enforce": ["connect_telnet_obj", "disconnect_telnet_obj", "reset_telnet_delay", "open_telnet_obj"],
  "functions": ["connect_telnet_obj", "disconnect_telnet_obj", "reset_telnet_delay", "open_telnet_obj"],
  "stub_defs": ["send_telnet_cmd"],
  "unwind": 2, "backends": ["sat"],
  "trusted": ["socket, connect, setsockopt, getsockopt, close: any result", "timer service: C13 contract"]
}
*/
#define TELCMDS
#define TELOPTS
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-net.h"
#include "util-file.h"
#include "stub_str.h"

obj_t TN;
tpoll_t tp_global;
struct {
    int pending, id, ms, orphan;        /* the pending timer                 */
    callback_f cb; void *arg;
    int open;                           /* descriptor is open                */
    int ev;                             /* registered poll events            */
    int fdbad;
    int notes, notebad;
    int asked, dup;                     /* negotiations started              */
    int resolvefail;
} G;
struct { int state, delay, timer, pending, fd; } K;

int tpoll_timeout_relative(tpoll_t tp, callback_f cb, void *arg, int ms)
{
    if (G.pending) G.orphan = 1;
    G.pending = 1; G.cb = cb; G.arg = arg; G.ms = ms;
    return ++G.id;
}
int tpoll_timeout_cancel(tpoll_t tp, int id)
{
    if (!G.pending || id != G.id) return 0;
    G.pending = 0;
    return 1;
}
int tpoll_set(tpoll_t tp, int fd, short int ev) { if (fd != 7 || !G.open) G.fdbad = 1; else G.ev |= ev; return 0; }
int tpoll_clear(tpoll_t tp, int fd, short int ev) { if (fd == 7) G.ev &= ~ev; return 0; }
int host_name_to_addr4(const char *n, struct in_addr *a)
{
    if (nd_bool()) { G.resolvefail = 1; return -1; }
    return 0;
}
#define socket(a,b,c) vp_socket()
static int vp_socket(void) { if (nd_bool()) return -1; if (G.open) G.fdbad = 1; G.open = 1; G.ev = 0; return 7; }
#define setsockopt(a,b,c,d,e) vp_setsockopt()
static int vp_setsockopt(void) { return nd_range(-1, 0); }
#define connect(a,b,c) vp_connect()
static int vp_connect(void) { if (nd_bool()) return 0; VP.err = nd_bool() ? EINPROGRESS : nd_range(1, 130); return -1; }
#define getsockopt(a,b,c,d,e) vp_getsockopt(d)
static int vp_getsockopt(void *p) { if (nd_bool()) { VP.err = nd_range(1, 130); return -1; } *(int *)p = nd_range(0, 130); return 0; }
#define close(fd) vp_close(fd)
static int vp_close(int fd) { if (fd != 7 || !G.open) G.fdbad = 1; if (G.ev) G.fdbad = 2; G.open = 0; return nd_range(-1, 0); }
void set_fd_nonblocking(int fd) { if (fd != 7 || !G.open) G.fdbad = 1; }
void set_fd_closed_on_exec(int fd) { if (fd != 7 || !G.open) G.fdbad = 1; }
#define write_notify_msg(o, p, ...) vp_notify(o)
static void vp_notify(obj_t *o) { if (o != &TN) G.notebad = 1; G.notes++; }
int send_telnet_cmd(obj_t *t, int cmd, int opt)
{
    int b = (cmd == DO && opt == TELOPT_BINARY) ? 1 : (cmd == DO && opt == TELOPT_ECHO) ? 2
        : (cmd == DO && opt == TELOPT_SGA) ? 4 : (cmd == WILL && opt == TELOPT_BINARY) ? 8
        : (cmd == WILL && opt == TELOPT_SGA) ? 16 : 32;
    if (t != &TN || (G.asked & b)) G.dup = 1;
    G.asked |= b;
    return 0;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define T TN.aux.telnet
static int connect_telnet_obj(obj_t *);
static void disconnect_telnet_obj(obj_t *);
static void reset_telnet_delay(obj_t *);
#define NEXTDELAY(d) ((d) == 0 ? TELNET_MIN_TIMEOUT : 2 * (d) < TELNET_MAX_TIMEOUT ? 2 * (d) : TELNET_MAX_TIMEOUT)
#define DELAYOK(d) ((d) == 0 || ((d) >= TELNET_MIN_TIMEOUT && (d) <= TELNET_MAX_TIMEOUT))
#define HASTIMER(f) (G.pending == 1 && T.timer == G.id && G.cb == (callback_f) (f) && G.arg == (void *) &TN && !G.orphan)
#define NOTIMER (G.pending == 0 && T.timer < 0)
#define CLOSED (TN.fd < 0 && !G.open)
#define RETRY (T.state == CONMAN_TELNET_DOWN && CLOSED && HASTIMER(connect_telnet_obj))
#define SENSIBLE (!G.orphan && !G.fdbad && !G.notebad && !G.dup)
#define ISUP (T.state == CONMAN_TELNET_UP && TN.fd == 7 && G.open && (G.ev & POLLIN) && HASTIMER(reset_telnet_delay))
#define ISPENDING (T.state == CONMAN_TELNET_PENDING && TN.fd == 7 && G.open && (G.ev & (POLLIN|POLLOUT)) == (POLLIN|POLLOUT) && NOTIMER)

#define P_connect_telnet_obj(R) R(telnet == &TN && T.state != CONMAN_TELNET_UP)
#define Q_connect_telnet_obj(E) \
    E("success means the console is up, is being read, and only its delay reset is pending", \
        VP_IMPLIES(RV == 0, ISUP && G.ms == TELNET_MIN_TIMEOUT * 1000 && TN.gotEOF == 0)) \
    E("failure leaves either a connection in progress or exactly one retry pending", VP_IMPLIES(RV != 0, RV == -1 && (ISPENDING || RETRY))) \
    E("a retry after a failed attempt waits the current delay, which then doubles within its limits", \
        VP_IMPLIES(RETRY && !G.resolvefail, G.ms == K.delay * 1000 && T.delay == NEXTDELAY(K.delay))) \
    E("a retry after a failed name lookup waits the documented time", \
        VP_IMPLIES(RV != 0 && G.resolvefail, RETRY && G.ms == RESOLVE_RETRY_TIMEOUT * 1000 && T.delay == K.delay)) \
    E("the delay stays within the documented limits", DELAYOK(T.delay)) \
    E("a connection in progress is never started anew", VP_IMPLIES(K.state == CONMAN_TELNET_PENDING, !ISPENDING && !G.resolvefail)) \
    E("the decoder starts afresh on a new connection", VP_IMPLIES(RV == 0, T.iac == -1)) \
    E("exactly the supported options are asked for, once, and only when connected", G.asked == (RV == 0 ? 31 : 0)) \
    E("observers are told exactly when the console comes up", G.notes == (RV == 0)) \
    E("descriptors, timers and registrations are consistent", SENSIBLE)

#define P_disconnect_telnet_obj(R) R(telnet == &TN)
#define Q_disconnect_telnet_obj(E) \
    E("the connection is closed and exactly one retry is pending", RETRY) \
    E("it waits the current delay, which then doubles within its limits", G.ms == K.delay * 1000 && T.delay == NEXTDELAY(K.delay) && DELAYOK(T.delay)) \
    E("observers are told exactly when the console was up", G.notes == (K.state == CONMAN_TELNET_UP)) \
    E("descriptors, timers and registrations are consistent", SENSIBLE)

#define P_reset_telnet_delay(R) R(telnet == &TN)
#define Q_reset_telnet_delay(E) \
    E("a lasting connection resets the delay and leaves nothing pending", T.delay == 0 && NOTIMER && SENSIBLE) \
    E("the connection is not touched", T.state == K.state && TN.fd == K.fd && G.open && G.notes == 0)

#define P_open_telnet_obj(R) R(telnet == &TN)
#define Q_open_telnet_obj(E) \
    E("a console that was up is torn down with exactly one retry pending", \
        VP_IMPLIES(K.state == CONMAN_TELNET_UP, RETRY && G.ms == K.delay * 1000 && T.delay == NEXTDELAY(K.delay))) \
    E("otherwise it is up, connecting, or has exactly one retry pending", \
        VP_IMPLIES(K.state != CONMAN_TELNET_UP, (RV == 0 && ISUP) || (RV == -1 && (ISPENDING || RETRY)))) \
    E("the delay stays within the documented limits", DELAYOK(T.delay)) \
    E("descriptors, timers and registrations are consistent", SENSIBLE)

static int connect_telnet_obj(obj_t *telnet)
    VP_REQ(P_connect_telnet_obj) VP_ASSIGNS(TN, G, VP) VP_ENS(Q_connect_telnet_obj);
static void disconnect_telnet_obj(obj_t *telnet)
    VP_REQ(P_disconnect_telnet_obj) VP_ASSIGNS(TN, G, VP) VP_ENS(Q_disconnect_telnet_obj);
static void reset_telnet_delay(obj_t *telnet)
    VP_REQ(P_reset_telnet_delay) VP_ASSIGNS(TN, G, VP) VP_ENS(Q_reset_telnet_delay);
int open_telnet_obj(obj_t *telnet)
    VP_REQ(P_open_telnet_obj) VP_ASSIGNS(TN, G, VP) VP_ENS(Q_open_telnet_obj);

#include "server-telnet.c"

void harness(void)
{
    obj_t *telnet = &TN;
    int vp_rv = 0;

    TN.name = "console";
    TN.type = CONMAN_OBJ_TELNET;
    T.host = "host";
    T.port = nd_range(1, 65535);
    T.enableKeepAlive = nd_bool();
    TN.gotEOF = nd_bool();
    T.iac = nd_range(-1, 255);
    T.state = nd_range(0, 4);
    VP_ASSUME(T.state == CONMAN_TELNET_DOWN || T.state == CONMAN_TELNET_PENDING || T.state == CONMAN_TELNET_UP);
    T.delay = nd_range(0, TELNET_MAX_TIMEOUT);
    VP_ASSUME(DELAYOK(T.delay));
    G.id = nd_range(1, 1000);
    G.pending = 0; G.orphan = G.fdbad = G.notes = G.notebad = G.asked = G.dup = G.resolvefail = 0;
    G.ev = 0; G.open = 0; G.ms = 0;
    G.arg = NULL; G.cb = NULL;
    TN.fd = -1;
    T.timer = -1;
    if (T.state == CONMAN_TELNET_DOWN) {
        /* not yet started, retry pending, or retry just firing */
        int c = nd_range(0, 2);
        if (c) T.timer = G.id;
        if (c == 1) { G.pending = 1; G.cb = (callback_f) connect_telnet_obj; G.arg = &TN; }
    }
    else if (T.state == CONMAN_TELNET_PENDING) {
        TN.fd = 7; G.open = 1; G.ev = POLLIN | POLLOUT;
    }
    else {
        int c = nd_bool();
        if (c) { T.timer = G.id; G.pending = 1; G.cb = (callback_f) reset_telnet_delay; G.arg = &TN; }
        /* shutdown_obj() has closed the descriptor, or not yet */
        if (nd_bool()) { TN.fd = 7; G.open = 1; G.ev = POLLIN | (nd_bool() ? POLLOUT : 0); }
    }
    if (VP_OP == 2) {
        VP_ASSUME(T.state == CONMAN_TELNET_UP && TN.fd == 7 && G.pending);
        G.pending = 0;                      /* it is this timer that fires   */
    }
    K.state = T.state; K.delay = T.delay; K.timer = T.timer; K.pending = G.pending; K.fd = TN.fd;
    VP.held = VP.died = 0;
#if VP_OP == 0
        VP_PRE(P_connect_telnet_obj);
        vp_rv = connect_telnet_obj(telnet);
        VP_POST(Q_connect_telnet_obj);
        if (vp_rv == 0) VP_REACH("connected");
        if (G.resolvefail) VP_REACH("unresolved");
        if (T.state == CONMAN_TELNET_PENDING) VP_REACH("in progress");
#elif VP_OP == 1
        VP_PRE(P_disconnect_telnet_obj);
        disconnect_telnet_obj(telnet);
        VP_POST(Q_disconnect_telnet_obj);
        VP_REACH("disconnected");
#elif VP_OP == 2
        VP_PRE(P_reset_telnet_delay);
        reset_telnet_delay(telnet);
        VP_POST(Q_reset_telnet_delay);
        VP_REACH("reset");
#else
        VP_PRE(P_open_telnet_obj);
        vp_rv = open_telnet_obj(telnet);
        VP_POST(Q_open_telnet_obj);
        VP_REACH("opened");
#endif
}
