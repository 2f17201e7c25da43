/*VP
{ "properties": ["C04"],
  "sources": ["client-tty.c"],
  "enforce": ["read_from_stdin", "send_esc_seq", "perform_break_esc", "perform_close_esc", "perform_del_esc", "perform_echo_esc", "perform_force_esc", "perform_help_esc", "perform_info_esc", "perform_join_esc", "perform_log_replay_esc", "perform_monitor_esc", "perform_quiet_esc", "perform_reset_esc", "perform_suspend_esc"],
  "stub_defs": ["send_esc_seq", "locally_echo_esc", "locally_display_status"],
  "unwind": 9, "bound_unwind": 9, "backends": ["sat", "cad"], "timeout": 120,
  "bound_text": "unwound 9 times",
  "trusted": ["write_n (discharged in file_io)", "read, kill, shutdown, tcgetattr, tcsetattr (system calls)", "append_format_string, create_format_string: text for the user's own terminal"],
  "per": {
    "send_esc_seq": {"stub_defs": []},
    "read_from_stdin": {"ptr_order": true,
      "loops": [
   {"file": "client-tty.c", "func": "read_from_stdin", "nth": 0, "count": 3, "locals": ["mode"], "assigns": "n, c, G, VP",
    "invariant": ["G.calls == 0 && G.wrote == 0 && G.len == 0 && !G.bad && !G.eof && !G.got && !VP.died && VP_PREV && mode == __CPROVER_loop_entry(mode)"]}
  ],
      "stub_defs": ["read_from_stdin", "perform_break_esc", "perform_close_esc", "perform_del_esc", "perform_echo_esc", "perform_force_esc", "perform_help_esc", "perform_info_esc", "perform_join_esc", "perform_log_replay_esc", "perform_monitor_esc", "perform_quiet_esc", "perform_reset_esc", "perform_suspend_esc"]} }
}
*/
#include "vp.h"
#include "common.h"
#include "list.h"
#include "client.h"
#include "log.h"
#include "util-file.h"
#include "util-str.h"
#include "util.h"

/*  the operation under contract */
enum { R_STDIN, S_ESC, P_BREAK, P_CLOSE, P_DEL, P_ECHO, P_FORCE, P_HELP, P_INFO, P_JOIN, P_REPLAY, P_MONITOR, P_QUIET, P_RESET, P_SUSPEND };
client_conf_t CC;
req_t REQ;
char NAME[4], TXT[8];
char Lq;
#define LQ ((List) (void *) &Lq)
struct { int esc, cmd, b, cons, bcast, quiet, reset, echo, force, join; unsigned char ch, c, p[4];
    int m; /* an escape character was typed just before */ } K;
struct {
    int got, eof;               /* a byte was read; end of input               */
    int calls, which, res;      /* escape actions performed                    */
    int wrote, len, pipe;       /* what was sent to the server                 */
    int bad, seqs, stop, out, shut, tty, stopped;
    unsigned char w[8];
} G;
#define VP_PREV (G.pipe == 0)

#define read(fd,p,n) vp_read(fd, p, n)
static ssize_t vp_read(int fd, void *p, size_t n)
{
    VP_ASSERT(n == 1 && VP_W_OK(p, 1), "one byte at a time is read");
    if (fd != STDIN_FILENO || G.got || G.eof) G.bad = 1;
    if (nd_range(0, 3) == 0) { VP.err = nd_range(1, 130); return -1; }
    if (nd_range(0, 3) == 0) { G.eof = 1; return 0; }
    G.got = 1;
    *(unsigned char *) p = K.ch;
    return 1;
}
ssize_t write_n(int fd, void *b, size_t n)
{
    size_t i;
    VP_ASSERT(VP_R_OK(b, n), "the range sent is valid");
    if (fd == STDOUT_FILENO) { G.out++; return n; }
    if (fd != REQ.sd || n > 8) { G.bad = 1; return -1; }
    G.wrote++;
    G.len = n;
    for (i = 0; i < 8; i++) if (i < n) G.w[i] = ((unsigned char *) b)[i];
    if (nd_range(0, 3) == 0) { VP.err = nd_bool() ? EPIPE : nd_range(1, 130); if (VP.err == EPIPE) G.pipe = 1; return -1; }
    return n;
}
#define kill(p,s) vp_kill(p, s)
static int vp_kill(pid_t p, int s) { if (s != SIGTSTP || p != 77 || G.seqs != 1 || G.stopped) G.bad = 1; G.stopped = 1; return nd_range(-1, 0); }
#define getpid() 77
#define shutdown(f,h) vp_shut(f, h)
static int vp_shut(int f, int h) { if (f != REQ.sd || h != SHUT_WR || G.shut) G.bad = 1; G.shut = 1; return nd_range(-1, 0); }
void get_tty_mode(struct termios *t, int fd) { if (fd != STDIN_FILENO) G.bad = 1; t->c_lflag = nd_bool() ? ECHO : 0; }
void set_tty_mode(struct termios *t, int fd) { if (fd != STDIN_FILENO) G.bad = 1; G.tty++; }
void get_tty_raw(struct termios *t, int fd) { if (fd != STDIN_FILENO) G.bad = 1; }
int list_count(List l) { if (l != LQ) G.bad = 1; return K.cons; }
void * list_peek(List l) { if (l != LQ) G.bad = 1; return NAME; }
#define create_format_string(...) TXT
#define append_format_string(b,n,...) (VP_ASSERT((n) > 0 && VP_W_OK(b, n), "formatted output range is valid"), nd_bool() ? -1 : 10)
#undef strlen
#define strlen(s) 3
#undef free
#define free(p) ((p) == TXT ? (void) 0 : (void) (G.bad = 1))
void log_err(int e, const char *f, ...) { VP_DIE(); }
void log_msg(int p, const char *f, ...) { }
SigFunc * posix_signal(int s, SigFunc *f) { return NULL; }

/*  what the user typed, as the server decodes it */
static int vp_decodes(int n, unsigned a, unsigned b)
{
    int i = 0;
    unsigned k;
    for (k = 0; k < (unsigned) n; k++) {
        unsigned x = k ? b : a;
        if (i >= G.len || G.w[i++] != x) return 0;
        if (x == 255 && (i >= G.len || G.w[i++] != 255)) return 0;
    }
    return i == G.len;
}
static int vp_iscmd(int c)
{
    return c == 'B' ? P_BREAK : c == '.' ? P_CLOSE : c == 'D' ? P_DEL : c == 'E' ? P_ECHO : c == 'F' ? P_FORCE : c == '?' ? P_HELP :
        c == 'I' ? P_INFO : c == 'J' ? P_JOIN : c == 'L' ? P_REPLAY : c == 'M' ? P_MONITOR : c == 'Q' ? P_QUIET : c == 'R' ? P_RESET : c == 'Z' ? P_SUSPEND : 0;
}
#define UNCHANGED (CC.escapeChar == K.esc && REQ.sd == 5 && CC.req == &REQ && REQ.consoles == LQ && REQ.enableBroadcast == K.bcast && REQ.enableReset == K.reset)
#define CMD(c,f,j,q,e) (REQ.command == (c) && REQ.enableForce == (f) && REQ.enableJoin == (j) && REQ.enableQuiet == (q) && REQ.enableEcho == (e))
#define SAME CMD(K.cmd, K.force, K.join, K.quiet, K.echo)
#define ISESC(x) (((x) & 255) == (K.esc & 255))
#define TYPED (G.got && RV != 2)
#define C_CONN (K.cmd == CONMAN_CMD_CONNECT)
#define ACTION (K.m && vp_iscmd(K.ch))

#define P_read_from_stdin(R) R(conf == &CC)
#define Q_read_from_stdin(E) \
    E("at the end of input the session ends and nothing is sent", VP_IMPLIES(G.eof, RV == 0 && !G.wrote && !G.calls)) \
    E("the escape character by itself sends nothing", VP_IMPLIES(G.got && !K.m && ISESC(K.ch), RV == 1 && !G.wrote && !G.calls)) \
    E("an escape sequence performs just its own action, once", VP_IMPLIES(G.got && K.m && vp_iscmd(K.ch), !G.wrote && G.calls == 1 && G.which == vp_iscmd(K.ch) && RV == G.res)) \
    E("no action is performed otherwise", VP_IMPLIES(!(K.m && vp_iscmd(K.ch)), G.calls == 0)) \
    E("each other byte typed is sent so that the server decodes it", VP_IMPLIES(G.got && !K.m && !ISESC(K.ch) && C_CONN, G.wrote == 1 && vp_decodes(1, K.ch, 0))) \
    E("an escape character typed twice is sent once", VP_IMPLIES(G.got && K.m && !vp_iscmd(K.ch) && ISESC(K.ch) && C_CONN, G.wrote == 1 && vp_decodes(1, K.ch, 0))) \
    E("an unknown escape sequence is sent as typed", VP_IMPLIES(G.got && K.m && !vp_iscmd(K.ch) && !ISESC(K.ch) && C_CONN, G.wrote == 1 && vp_decodes(2, K.esc & 255, K.ch))) \
    E("a monitoring session sends nothing", VP_IMPLIES(!C_CONN, G.wrote == 0)) \
    E("the session goes on unless the server is gone", VP_IMPLIES(G.got && !G.calls, RV == !G.pipe)) \
    E("nothing else is touched", !G.bad && UNCHANGED && SAME && (G.got || G.eof))
#define SENT1 (G.seqs == 1 && RV == !G.stop)
#define NOTHING (G.seqs == 0 && RV == 1)
#define DO_WHEN(E,what,w) E(what, (w) ? SENT1 : NOTHING) E("the session is otherwise as it was", UNCHANGED && SAME && !G.bad && !G.wrote)
#define P_send_esc_seq(R) R(conf == &CC && (unsigned char) c == K.ch)
#define Q_send_esc_seq(E) \
    E("exactly the two-byte command is sent, in one piece", G.wrote == 1 && G.len == 2 && G.w[0] == 255 && G.w[1] == K.ch) \
    E("the session goes on unless the server is gone", RV == !G.pipe) \
    E("the session is otherwise as it was", UNCHANGED && SAME && !G.bad)
#define P_esc(R) R(conf == &CC && (unsigned char) c == K.ch)
#define Q_perform_break_esc(E) DO_WHEN(E, "a break is asked for by writers only", C_CONN)
#define Q_perform_del_esc(E) DO_WHEN(E, "a DEL is asked for by writers only", C_CONN)
#define Q_perform_reset_esc(E) DO_WHEN(E, "a reset is asked for by writers, where the server allows it", C_CONN && K.reset)
#define Q_perform_log_replay_esc(E) DO_WHEN(E, "a replay is asked for unless broadcasting", !K.bcast)
#define Q_perform_help_esc(E) DO_WHEN(E, "help sends nothing", 0)
#define Q_perform_info_esc(E) DO_WHEN(E, "information sends nothing", 0)
#define Q_perform_close_esc(E) \
    E("closing sends nothing, and ends the client's side of the connection", NOTHING && G.shut && CC.isClosedByClient == 1) \
    E("the session is otherwise as it was", UNCHANGED && SAME && !G.bad && !G.wrote)
#define Q_perform_echo_esc(E) \
    E("echo sends nothing", NOTHING) \
    E("echo is toggled for writers only", UNCHANGED && CMD(K.cmd, K.force, K.join, K.quiet, C_CONN ? !K.echo : K.echo) && !G.bad && !G.wrote)
#define Q_perform_force_esc(E) \
    E("write access is demanded by monitors only", !C_CONN ? SENT1 : NOTHING) \
    E("the session then writes, having forced", UNCHANGED && !G.bad && !G.wrote && (C_CONN ? SAME : CMD(CONMAN_CMD_CONNECT, 1, 0, K.quiet, K.echo)))
#define Q_perform_join_esc(E) \
    E("shared write access is asked for by monitors only", !C_CONN ? SENT1 : NOTHING) \
    E("the session then writes, having joined", UNCHANGED && !G.bad && !G.wrote && (C_CONN ? SAME : CMD(CONMAN_CMD_CONNECT, 0, 1, K.quiet, K.echo)))
#define Q_perform_monitor_esc(E) \
    E("write access is given up by writers to a single console only", C_CONN && !K.bcast ? SENT1 : NOTHING) \
    E("the session then monitors", UNCHANGED && !G.bad && !G.wrote && (C_CONN && !K.bcast ? CMD(CONMAN_CMD_MONITOR, 0, 0, K.quiet, K.echo) : SAME))
#define Q_perform_quiet_esc(E) \
    E("quiet mode is toggled on both sides", SENT1 && UNCHANGED && !G.bad && !G.wrote && CMD(K.cmd, K.force, K.join, !K.quiet, K.echo))
#define Q_perform_suspend_esc(E) \
    E("the server is told of the suspension before and after it", RV == 1 ? G.seqs == 2 && G.stopped && !G.stop : RV == 0 && G.stop && G.seqs == 1 + G.stopped) \
    E("the session is otherwise as it was", UNCHANGED && SAME && !G.bad && !G.wrote)
#define VPF VP_ASSIGNS(G, VP, CC, REQ, K.ch, K.m)

#define PF(f,k) static int f(client_conf_t *conf, char c) { if (conf != &CC || (unsigned char) c != K.ch) G.bad = 1; G.calls++; G.which = k; return G.res = nd_bool(); }
#define PC(f) static int f(client_conf_t *conf, char c) VP_REQ(P_esc) VPF VP_ENS(Q_##f);
#if VP_OP == 0
static int read_from_stdin(client_conf_t *conf) VP_REQ(P_read_from_stdin) VPF VP_ENS(Q_read_from_stdin);
PF(perform_break_esc, P_BREAK) PF(perform_close_esc, P_CLOSE) PF(perform_del_esc, P_DEL) PF(perform_echo_esc, P_ECHO)
PF(perform_force_esc, P_FORCE) PF(perform_help_esc, P_HELP) PF(perform_info_esc, P_INFO) PF(perform_join_esc, P_JOIN)
PF(perform_log_replay_esc, P_REPLAY) PF(perform_monitor_esc, P_MONITOR) PF(perform_quiet_esc, P_QUIET) PF(perform_reset_esc, P_RESET) PF(perform_suspend_esc, P_SUSPEND)
#elif VP_OP == 1
static int send_esc_seq(client_conf_t *conf, char c) VP_REQ(P_send_esc_seq) VPF VP_ENS(Q_send_esc_seq);
#else
static int send_esc_seq(client_conf_t *conf, char c)
{
    if (conf != &CC || (unsigned char) c != K.ch || G.stop) G.bad = 1;
    G.seqs++;
    if (nd_bool()) { G.stop = 1; return 0; }
    return 1;
}
static void locally_echo_esc(char e, char c) { }
static void locally_display_status(client_conf_t *conf, char *m) { if (conf != &CC) G.bad = 1; }
PC(perform_break_esc) PC(perform_close_esc) PC(perform_del_esc) PC(perform_echo_esc) PC(perform_force_esc) PC(perform_help_esc) PC(perform_info_esc)
PC(perform_join_esc) PC(perform_log_replay_esc) PC(perform_monitor_esc) PC(perform_quiet_esc) PC(perform_reset_esc) PC(perform_suspend_esc)
#endif
#include "client-tty.c"

#define GO(f) do { VP_PRE(P_esc); vp_rv = f(conf, c); if (!VP.died) { VP_POST(Q_##f); } } while (0)
#if VP_OP == 0
/*  bytes typed earlier, then the one of interest: what they leave behind is
 *    only whether the last was an escape character */
#define VP_CLEAR (G.got = G.eof = G.calls = G.which = G.res = G.wrote = G.len = G.pipe = G.bad = 0)
#define BEFORE(x) do { K.ch = (x); (void) vp_real_read_from_stdin(conf); \
        VP_ASSUME(G.got && !VP.died); \
        VP_CLEAR; K.m = !K.m && ISESC(K.ch); } while (0)
static int read_from_stdin(client_conf_t *conf)
{
    BEFORE(K.p[0]); K.m = 0;
    if (K.b > 0) BEFORE(K.p[1]);
    if (K.b > 1) BEFORE(K.p[2]);
    if (K.b > 2) BEFORE(K.p[3]);
    K.ch = K.c;
    return vp_real_read_from_stdin(conf);
}
#endif
#define T "\377&\377&x.BFQZ\n\r"
void harness(void)
{
    client_conf_t *conf = &CC;
    char c;
    int vp_rv;

    memset(&G, 0, sizeof(G));
    memset(&REQ, 0, sizeof(REQ));
    memset(&CC, 0, sizeof(CC));
    VP.held = VP.err = VP.died = 0;
    CC.escapeChar = K.esc = nd_pick("&\377&");
    CC.req = &REQ; CC.logd = -1;
    REQ.sd = 5; REQ.consoles = LQ; REQ.host = NAME; NAME[0] = 0;
    REQ.command = K.cmd = nd_bool() ? CONMAN_CMD_CONNECT : CONMAN_CMD_MONITOR;
    REQ.enableBroadcast = K.bcast = K.cmd == CONMAN_CMD_CONNECT ? nd_bool() : 0;
    REQ.enableReset = K.reset = nd_bool();
    REQ.enableQuiet = K.quiet = nd_bool();
    REQ.enableEcho = K.echo = nd_bool();
    REQ.enableForce = K.force = nd_bool();
    REQ.enableJoin = K.join = nd_bool();
    K.cons = K.bcast ? nd_range(2, 1000) : 1;
#if VP_OP == 0
    K.b = nd_range(0, 3);
    K.p[0] = nd_pick(T); K.p[1] = nd_pick(T); K.p[2] = nd_pick(T); K.p[3] = nd_pick(T); K.c = nd_pick(T);
    VP_ASSUME(!ISESC(K.p[0]));
    VP_PRE(P_read_from_stdin);
    vp_rv = read_from_stdin(conf);
    if (!VP.died) { VP_POST(Q_read_from_stdin); }
    if (vp_rv) VP_REACH("goes on"); else VP_REACH("ends");
#else
    K.ch = nd_uchar(); c = (char) K.ch;
#if VP_OP == 1
    VP_PRE(P_send_esc_seq); vp_rv = send_esc_seq(conf, c); VP_POST(Q_send_esc_seq);
#elif VP_OP == 2
    GO(perform_break_esc);
#elif VP_OP == 3
    GO(perform_close_esc);
#elif VP_OP == 4
    GO(perform_del_esc);
#elif VP_OP == 5
    GO(perform_echo_esc);
#elif VP_OP == 6
    GO(perform_force_esc);
#elif VP_OP == 7
    GO(perform_help_esc);
#elif VP_OP == 8
    GO(perform_info_esc);
#elif VP_OP == 9
    GO(perform_join_esc);
#elif VP_OP == 10
    GO(perform_log_replay_esc);
#elif VP_OP == 11
    GO(perform_monitor_esc);
#elif VP_OP == 12
    GO(perform_quiet_esc);
#elif VP_OP == 13
    GO(perform_reset_esc);
#else
    GO(perform_suspend_esc);
#endif
    VP_REACH("returns");
#endif
}
