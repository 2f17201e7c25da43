/*VP
{ "properties": ["C24"],
  "sources": ["server-esc.c"],
  "enforce": ["perform_console_writer_linkage", "perform_serial_break", "perform_del_char_seq",
     "perform_quiet_toggle", "perform_suspend", "kill_reset_cmd", "perform_reset"],
  "per": { "perform_console_writer_linkage": {"properties": ["C09", "C03"]},
           "perform_serial_break": {"properties": ["C03"]},
           "perform_del_char_seq": {"properties": ["C03"]},
           "kill_reset_cmd": {"properties": ["C23"]},
           "perform_reset": {"properties": ["C23", "C26"]} },
  "unwind": 4, "unwindset": ["strcmp.0:12"], "bound_unwindset": ["strcmp.0:12"], "bound_unwind": 6, "backends": ["sat", "z3"],
  "bound_text": "at most 2 consoles besides the arbitrary one",
  "loops": [
   {"func": "perform_serial_break", "nth": 0, "count": 1, "assigns": "$LOCALS, IT, OTHER.type, OTHER.fd, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LR && IT[0].left >= 0 && !IT[1].live && VP.held == 0 && LR.others >= 0",
       "(IT[0].seen[0] == 0 || (IT[0].seen[0] == 1 && LR.has[0])) && G.done == (IT[0].seen[0] ? K.due : 0) && G.bad == 0"]},
   {"func": "perform_del_char_seq", "nth": 0, "count": 1, "assigns": "$ASSIGNED, IT, OTHER.type, OTHER.fd, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LR && IT[0].left >= 0 && !IT[1].live && VP.held == 0 && LR.others >= 0",
       "(IT[0].seen[0] == 0 || (IT[0].seen[0] == 1 && LR.has[0])) && G.done == (IT[0].seen[0] ? 1 : 0) && G.bad == 0"]},
   {"func": "perform_reset", "nth": 0, "count": 1, "assigns": "$LOCALS, __CPROVER_object_whole(cmd), IT, OTHER.type, OTHER.fd, OTHER.resetCmdPid, OTHER.resetCmdRef, OTHER.resetCmdTimer, CON.resetCmdPid, CON.resetCmdTimer, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LR && IT[0].left >= 0 && !IT[1].live && VP.held == 0 && LR.others >= 0",
       "(IT[0].seen[0] == 0 || (IT[0].seen[0] == 1 && LR.has[0])) && G.bad == 0 && G.fds == (K.devnull >= 0) && G.opens == 1 && G.child == 0",
       "VP_RESETOK(IT[0].seen[0])"]} ],
  "trusted": ["list API contract (sets of elements; discharged for list.c in the list units)",
              "fork, setpgid, dup2, execl, kill, tcsendbreak (POSIX)"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"

obj_t CLI, CON, OTHER;
req_t Q;
tpoll_t tp_global;
#define VP_NT 1
#define VP_NIT 2
#define VP_TRACKED(i) ((void *) &CON)
static void * vp_other(void)
{
    OTHER.type = 1u << nd_range(2, 7); OTHER.fd = nd_range(-1, 1000);
#if VP_OP == 6
    OTHER.resetCmdPid = nd_range(-1, 100000); OTHER.resetCmdRef = nd_bool() ? "cmd" : NULL;
#endif
    return &OTHER;
}
#define VP_OTHER() vp_other()
#include "stub_list.h"
struct list LR, LW;

struct {
    int done, bad;
    int linked, unlinked;
    int wrote, cleared, set;
    int opens, fds;                     /* descriptors opened, still open    */
    int forks, timers, kills, probes;
    const char *cmdbuf; obj_t *cmdfor;
    obj_t *cur;
    int child, dups, closed, grp;
} G;
struct {
    int due;                            /* break signals due to CON          */
    int force, join, bcast, quiet, susp, cmd, fd, esc;
    int r0, w0; long ro, wo;
    int devnull;
    int pid0, timer0, fmtok, newpid, newtimer, reset, alive, killok;
} K;

/*  nothing else of the requesting session changes  */
#define VP_REQSAME  (Q.enableBroadcast == K.bcast && Q.enableEcho == 0 && Q.enableForce == K.force && Q.enableJoin == K.join)
#define VP_NOIO     (G.done == 0 && G.wrote == 0 && G.cleared == 0 && G.set == 0 && G.forks == 0 && G.linked == 0 && G.unlinked == 0)

#define VP_WANT (K.force || K.join)
#define P_perform_console_writer_linkage(R) R(client == &CLI && VP.held == 0)
#define Q_perform_console_writer_linkage(E) \
    E("a broadcast session, or one whose console was taken, changes nothing", VP_IMPLIES(K.bcast || !(K.w0 || K.wo), G.linked == 0 && G.unlinked == 0 && Q.command == K.cmd)) \
    E("write access is gained only by asking to join or force", VP_IMPLIES(G.linked, VP_WANT && !K.r0)) \
    E("a monitoring session that joins or forces becomes a writer of its own console, once", VP_IMPLIES(!K.bcast && K.w0 && !K.r0 && VP_WANT, G.linked == 1 && G.unlinked == 0 && Q.command == CONMAN_CMD_CONNECT)) \
    E("a writing session that turns to monitoring gives up write access, once", VP_IMPLIES(!K.bcast && K.w0 && K.r0 && !VP_WANT, G.unlinked == 1 && G.linked == 0 && Q.command == CONMAN_CMD_MONITOR)) \
    E("asking for what the session already has changes nothing", VP_IMPLIES(!K.r0 == !VP_WANT, G.linked == 0 && G.unlinked == 0 && Q.command == K.cmd)) \
    E("nothing else changes", VP_REQSAME && G.bad == 0 && VP.held == 0)
#define P_perform_serial_break(R) R(client == &CLI && VP.held == 0)
#define Q_perform_serial_break(E) \
    E("a break is sent exactly once to each console the session writes to, in the way of its kind", G.done == (LR.has[0] ? K.due : 0) && G.bad == 0) \
    E("no list walk is left open", !IT[0].live && !IT[1].live && VP.held == 0)
#define P_perform_del_char_seq(R) P_perform_serial_break(R)
#define Q_perform_del_char_seq(E) \
    E("a DEL is sent exactly once to each console the session writes to", G.done == (LR.has[0] ? 1 : 0) && G.bad == 0) \
    E("no list walk is left open", !IT[0].live && !IT[1].live && VP.held == 0)
#define P_perform_quiet_toggle(R) P_perform_serial_break(R)
#define Q_perform_quiet_toggle(E) \
    E("quiet mode is toggled for this session", Q.enableQuiet == !K.quiet) \
    E("it is acknowledged, once, whether or not the session is quiet", G.wrote == 1 && G.bad == 0) \
    E("nothing else changes", VP_REQSAME && Q.command == K.cmd && G.cleared == 0 && G.set == 0 && CLI.aux.client.gotSuspend == K.susp && CLI.aux.client.gotEscape == K.esc && VP.held == 0)
#define P_perform_suspend(R) P_perform_serial_break(R)
#define Q_perform_suspend(E) \
    E("output to the session is suspended or resumed", CLI.aux.client.gotSuspend == !K.susp && (K.susp ? G.set == 1 && G.cleared == 0 : G.cleared == 1 && G.set == 0)) \
    E("nothing else changes", VP_REQSAME && Q.enableQuiet == K.quiet && G.wrote == 0 && CLI.aux.client.gotEscape == K.esc && G.bad == 0 && VP.held == 0)
#define P_kill_reset_cmd(R) R(console == &CON)
#define Q_kill_reset_cmd(E) \
    E("a reset command that outlived its time is killed with all its children", VP_IMPLIES(K.pid0 > 0 && K.alive, G.kills == 1)) \
    E("nothing else is killed", G.bad == 0 && VP_IMPLIES(K.pid0 <= 0 || !K.alive, G.kills == 0)) \
    E("the console can be reset again", CON.resetCmdPid <= 0 && CON.resetCmdTimer <= 0)
/*  the arbitrary console: its reset command is started if due, and recorded  */
#define VP_DUE (K.reset && K.pid0 <= 0 && K.fmtok)
#define VP_RESETOK(seen) ((seen) && VP_DUE \
    ? (G.forks == 1 && (K.newpid > 0 ? CON.resetCmdPid == K.newpid : CON.resetCmdPid <= 0) && G.timers == (K.newpid > 0) && VP_IMPLIES(K.newpid > 0, CON.resetCmdTimer == K.newtimer)) \
    : (G.forks == 0 && G.timers == 0 && (K.pid0 > 0 ? CON.resetCmdPid == K.pid0 : CON.resetCmdPid <= 0) && CON.resetCmdTimer == K.timer0))
#define P_perform_reset(R) P_perform_serial_break(R)
#define Q_perform_reset(E) \
    E("the reset command is started once for each console the session writes to that has one and no reset in progress, and is remembered and timed", VP_RESETOK(LR.has[0])) \
    E("it is started for no other console", G.bad == 0) \
    E("no descriptor is left open in the server", G.fds == 0) \
    E("no list walk is left open", !IT[0].live && !IT[1].live && VP.held == 0)

void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
void link_objs(obj_t *src, obj_t *dst)
{
    if (src != &CLI || dst != &CON || LR.has[0] || Q.enableForce != K.force || Q.enableJoin != K.join) G.bad = 1;
    G.linked++;
}
void unlink_objs(obj_t *src, obj_t *dst)
{
    if (src != &CLI || dst != &CON || !LR.has[0]) G.bad = 1;
    G.unlinked++;
}
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    const unsigned char *s = src;
    VP_ASSERT(VP_R_OK(src, len), "data sent is valid");
#if VP_OP == 1
    VP_ASSERT(obj->type == CONMAN_OBJ_PROCESS && len == 2 && s[0] == DEFAULT_CLIENT_ESCAPE && s[1] == ESC_CHAR_BREAK && !isInfo,
        "a process console gets the two-byte break escape");
    if (obj == &CON) G.done++;
    else if (obj != &OTHER) G.bad = 1;
#elif VP_OP == 2
    VP_ASSERT(len == 1 && s[0] == 0x7F && !isInfo, "one DEL is sent");
    if (obj == &CON) G.done++;
    else if (obj != &OTHER) G.bad = 1;
#else
    VP_ASSERT(obj == &CLI && !isInfo, "the session itself is told, even when quiet");
    G.wrote++;
#endif
    return len;
}
#define tcsendbreak(fd, d) vp_break(fd, d, IT[0].cur)
static int vp_break(int fd, int d, obj_t *o)
{
    VP_ASSERT(o->type == CONMAN_OBJ_SERIAL && fd == o->fd && d == 0, "only a serial line gets a serial break");
    if (o == &CON) G.done++;
    else if (o != &OTHER) G.bad = 1;
    return nd_bool() ? 0 : -1;
}
int send_telnet_cmd(obj_t *o, int cmd, int opt)
{
    VP_ASSERT(o->type == CONMAN_OBJ_TELNET && cmd == BREAK && opt < 0, "a telnet console gets a telnet break");
    if (o == &CON) G.done++;
    else if (o != &OTHER) G.bad = 1;
    return nd_bool() ? 0 : -1;
}
int send_ipmi_break(obj_t *o)
{
    VP_ASSERT(o->type == CONMAN_OBJ_IPMI, "an IPMI console gets an IPMI break");
    if (o == &CON) G.done++;
    else if (o != &OTHER) G.bad = 1;
    return nd_bool() ? 0 : -1;
}
static char *vp_text;
#undef free
#define create_format_string(...) vp_cfs()
static char * vp_cfs(void) { char *p = vp_alloc(16); p[0] = 'x'; p[1] = 0; return p; }
int tpoll_set(tpoll_t tp, int fd, short ev)
{
    if (fd != K.fd || ev != POLLOUT) G.bad = 1;
    G.set++; return 0;
}
int tpoll_clear(tpoll_t tp, int fd, short ev)
{
    if (fd != K.fd || ev != POLLOUT) G.bad = 1;
    G.cleared++; return 0;
}
#define kill(p,s) vp_kill(p,s)
static int vp_kill(int pid, int sig)
{
#if VP_OP == 5
    if (sig == 0) {
        VP_ASSERT(pid == K.pid0 || pid == -K.pid0, "only the remembered process is asked about");
        return K.alive ? 0 : -1;
    }
    VP_ASSERT(K.pid0 > 0 && pid == -K.pid0, "only the process group of the reset command is killed");
    VP_ASSERT(sig == SIGKILL, "it is killed for sure");
    G.kills++;
    return K.killok ? 0 : -1;
#else
    G.bad = 1;
    return -1;
#endif
}
int format_obj_string(char *buf, int len, obj_t *obj, const char *fmt)
{
    VP_ASSERT(fmt != NULL && fmt == obj->resetCmdRef, "the console's own reset command is expanded");
    VP_ASSERT(len > 0 && VP_W_OK(buf, len), "the buffer is as large as told");
    buf[0] = 0;
    if (obj == &CON ? !K.fmtok : nd_bool()) return -1;
    G.cmdbuf = buf; G.cmdfor = obj;
    return 1;
}
#undef write_notify_msg
#define write_notify_msg(c, ...) vp_notify(c)
static int vp_notify(obj_t *c)
{
    VP_ASSERT(c == &CON || c == &OTHER, "a console is told");
    return 0;
}
#define fork() vp_fork(IT[0].cur)
static int vp_fork(obj_t *c)
{
    int pid;
    VP_ASSERT(G.cmdfor == c, "a command is started only when expanded for that console");
    VP_ASSERT(c->resetCmdPid <= 0 && c->resetCmdRef != NULL, "at most one reset of a console at a time");
    G.cur = c;
    if (c == &CON) { G.forks++; pid = K.newpid; }
    else pid = nd_range(-1, 100000);
    G.child = (pid == 0);
    G.dups = G.closed = G.grp = 0;
    return pid;
}
#define setpgid(p,g) vp_setpgid(p,g)
static int vp_setpgid(int p, int g)
{
    VP_ASSERT(g == 0 || g == p, "the command gets a process group of its own");
    if (G.child) G.grp = 1;
    return 0;
}
#define open(p,f) vp_open(p,f)
static int vp_open(const char *p, int f)
{
    VP_ASSERT((f & O_ACCMODE) == O_RDWR && !(f & (O_CREAT | O_TRUNC)), "the null device is opened");
    G.opens++;
    if (K.devnull >= 0) G.fds++;
    return K.devnull;
}
#define dup2(a,b) vp_dup2(a,b)
static int vp_dup2(int a, int b)
{
    VP_ASSERT(G.child && a == K.devnull && b >= 0 && b <= 2, "a standard descriptor of the child is redirected");
    G.dups |= 1 << b;
    return b;
}
#define close(fd) vp_close(fd)
static int vp_close(int fd)
{
    if (G.child) {
        if (fd >= 0 && fd <= 2 && fd != K.devnull) G.dups |= 1 << fd;
        if (fd == K.devnull) G.closed = 1;
    }
    else {
        VP_ASSERT(fd >= 0 && fd == K.devnull && G.fds == 1, "only the descriptor opened is closed, once");
        G.fds--;
    }
    return nd_bool() ? 0 : -1;
}
#define execl(path, a0, a1, cmd, end) vp_exec(path, a0, a1, cmd, end)
static int vp_exec(const char *path, const char *a0, const char *a1, const char *cmd, const char *end)
{
    VP_ASSERT(G.child, "only the child becomes the command");
    VP_ASSERT(!strcmp(path, "/bin/sh") && !strcmp(a1, "-c") && end == NULL, "the command is run by the shell");
    VP_ASSERT(cmd == G.cmdbuf && G.cmdfor == G.cur, "the command run is the one expanded for that console");
    VP_ASSERT(G.dups == 7, "the child keeps none of the server's standard descriptors");
    VP_ASSERT(G.grp, "the command leads a process group of its own, so that it can be killed with its children");
    VP_ASSERT(K.devnull < 3 || G.closed, "the child keeps no other descriptor");
    VP_ASSUME(0);
    return -1;
}
#define _exit(n) vp_exit(n)
static void vp_exit(int n) { VP_ASSERT(G.child && n != 0, "only a failed child exits"); VP_ASSUME(0); }
#define VP_ISKILL(cb) ((void *) (cb) == (void *) kill_reset_cmd)
#define tpoll_timeout_relative(tp, cb, arg, ms) vp_timer(VP_ISKILL(cb), arg, ms)
static int vp_timer(int iskill, void *arg, int ms)
{
    VP_ASSERT(!G.child, "the server keeps the timer");
    VP_ASSERT(iskill && arg == G.cur && ms == RESET_CMD_TIMEOUT * 1000, "the command just started is killed after the time limit");
    if (arg == &CON) { G.timers++; return K.newtimer; }
    return nd_range(-1, 100000);
}
obj_t * get_console_logfile_obj(obj_t *c) { return NULL; }
static void *vp_keep2_[] __attribute__((unused)) = { (void *) vp_break, (void *) vp_kill, (void *) vp_fork, (void *) vp_cfs,
    (void *) vp_open, (void *) vp_close, (void *) vp_dup2, (void *) vp_exec, (void *) vp_exit, (void *) vp_timer, (void *) vp_setpgid, (void *) vp_notify };

#define F_perform_console_writer_linkage VP_ASSIGNS(Q.command, G, IT, VP, OTHER.type, OTHER.fd)
#define F_perform_serial_break VP_ASSIGNS(G, IT, VP, OTHER.type, OTHER.fd)
#define F_perform_del_char_seq VP_ASSIGNS(G, IT, VP, OTHER.type, OTHER.fd)
#define F_perform_quiet_toggle VP_ASSIGNS(G, Q.enableQuiet, VP)
#define F_perform_suspend VP_ASSIGNS(G, CLI.aux.client.gotSuspend, VP)
#define F_kill_reset_cmd VP_ASSIGNS(G, CON.resetCmdPid, CON.resetCmdTimer, VP)
#define F_perform_reset VP_ASSIGNS(G, IT, VP, CON.resetCmdPid, CON.resetCmdTimer, OTHER.type, OTHER.fd, OTHER.resetCmdPid, OTHER.resetCmdRef, OTHER.resetCmdTimer)
#define PROTO(f) static void f(obj_t *client) VP_REQ(P_##f) F_##f VP_ENS(Q_##f);
PROTO(perform_console_writer_linkage)
PROTO(perform_serial_break)
PROTO(perform_del_char_seq)
PROTO(perform_quiet_toggle)
PROTO(perform_suspend)
PROTO(perform_reset)
static void kill_reset_cmd(obj_t *console) VP_REQ(P_kill_reset_cmd) F_kill_reset_cmd VP_ENS(Q_kill_reset_cmd);
#include "server-esc.c"

void harness(void)
{
    obj_t *client = &CLI, *console = &CON;

    VP_HAVOC(CLI); VP_HAVOC(CON); VP_HAVOC(OTHER); VP_HAVOC(Q);
    CLI.type = CONMAN_OBJ_CLIENT;
    CLI.name = "client"; CON.name = "console"; OTHER.name = "other";
    CLI.fd = K.fd = nd_range(0, 1000);
    CLI.readers = &LR; CLI.writers = &LW;
    CLI.aux.client.req = &Q;
    Q.user = "user"; Q.host = "host"; Q.tty = NULL;
    Q.enableBroadcast = K.bcast = nd_bool();
    Q.enableForce = K.force = nd_bool();
    Q.enableJoin = K.join = nd_bool();
    Q.enableQuiet = K.quiet = nd_bool();
    Q.enableEcho = 0;
    Q.command = K.cmd = nd_bool() ? CONMAN_CMD_MONITOR : CONMAN_CMD_CONNECT;
    CLI.aux.client.gotSuspend = K.susp = nd_bool();
    CLI.aux.client.gotEscape = K.esc = nd_bool();
    CON.type = 1u << nd_range(2, 7);
    CON.fd = nd_range(-1, 1000);
    K.due = CON.type != CONMAN_OBJ_UNIXSOCK && CON.type != CONMAN_OBJ_TEST;
    LR.has[0] = nd_bool(); LR.others = nd_range(0, VP_LIM(100000, 2));
    LW.has[0] = nd_bool(); LW.others = nd_range(0, 2);
#if VP_OP == 0
    LR.others = LW.others = 0;          /* at most one console, the same in both */
    VP_ASSUME(K.bcast || LW.has[0] || !LR.has[0]);
    if (K.bcast) LW.has[0] = 0;
#endif
    K.r0 = LR.has[0]; K.w0 = LW.has[0]; K.ro = LR.others; K.wo = LW.others;
    K.devnull = nd_range(-1, 1000);
    K.pid0 = nd_range(-1, 100000); K.timer0 = nd_range(-1, 100000);
    K.newpid = nd_range(-1, 100000); K.newtimer = nd_range(-1, 100000);
    K.fmtok = nd_bool(); K.reset = nd_bool(); K.alive = nd_bool(); K.killok = nd_bool();
    CON.resetCmdRef = K.reset ? "reset %N" : NULL;
    CON.resetCmdPid = K.pid0; CON.resetCmdTimer = K.timer0;
    OTHER.resetCmdRef = NULL; OTHER.resetCmdPid = 0; OTHER.resetCmdTimer = 0;
    OTHER.type = CONMAN_OBJ_TELNET;
    IT[0].live = IT[1].live = 0;
    memset(&G, 0, sizeof G);
    VP.held = VP.err = 0;
#define CALL(f, arg) { VP_PRE(P_##f); f(arg); VP_POST(Q_##f); }
#if VP_OP == 0
    CALL(perform_console_writer_linkage, client)
    if (G.linked) VP_REACH("joined");
    else if (G.unlinked) VP_REACH("left");
    else VP_REACH("unchanged");
#elif VP_OP == 1
    CALL(perform_serial_break, client)
    if (G.done) VP_REACH("sent");
    else VP_REACH("not sent");
#elif VP_OP == 2
    CALL(perform_del_char_seq, client)
    if (G.done) VP_REACH("sent");
    else VP_REACH("not sent");
#elif VP_OP == 3
    CALL(perform_quiet_toggle, client)
    VP_REACH("toggled");
#elif VP_OP == 4
    CALL(perform_suspend, client)
    if (G.set) VP_REACH("resumed");
    else VP_REACH("suspended");
#elif VP_OP == 5
    CALL(kill_reset_cmd, console)
    if (G.kills) VP_REACH("killed");
    else VP_REACH("not killed");
#else
    CALL(perform_reset, client)
    if (G.forks) VP_REACH("started");
    else VP_REACH("not started");
#endif
}
