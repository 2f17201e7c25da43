/*VP
{ "properties": ["C16"],
  "sources": ["common.c", "server-sock.c"],
  "enforce": ["send_rsp", "send_greeting", "send_req"],
  "keep_static": ["proto_strs"],
  "unwind": 26, "bound_unwind": 26, "backends": ["sat", "z3"], "timeout": 200,
  "bound_text": "at most 3 consoles",
  "trusted": ["append_format_string: all of the text is appended, or -1 (discharged in str_append); once some text did not fit, none does", "snprintf, strlcpy, strlen (C library)", "lex_encode (discharged in lex_words)", "list operations (discharged in list_*)"],
  "per": {
    "send_greeting": {"properties": ["C15"], "sources": ["common.c", "client-sock.c"], "stub_defs": ["recv_rsp"]},
    "send_req": {"properties": ["C15"], "sources": ["common.c", "client-sock.c"], "stub_defs": ["recv_rsp"]} },
  "loops": [
   {"file": "server-sock.c", "func": "send_rsp", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, VP, __CPROVER_object_whole(VA), __CPROVER_object_whole(VI)",
    "invariant": ["VP_Z && G.its == 1 && G.buf == buf"]},
   {"file": "client-sock.c", "func": "send_req", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, VP, __CPROVER_object_whole(VA), __CPROVER_object_whole(VI)",
    "invariant": ["VP_Z && G.freed == G.pos && (G.full ? n < 0 : n >= 0) && G.buf == buf"]} ]
}
*/
#include "vp.h"
#include <fnmatch.h>
#include <regex.h>
#include "common.h"
#include "lex.h"
#include "log.h"
#include "list.h"
#include "tpoll.h"
#if VP_OP == 0
#include "server.h"
#else
#include "client.h"
#endif
#include "util-file.h"
#include "util-net.h"
#include "util-str.h"

#define NMAX VP_LIM(1000000, 3)
#if VP_OP == 0
obj_t TC, OC;
#endif
req_t REQ;
char NT[4], NO[4], USRS[4], TTYS[4], MSG[4], FQ[4], EM[4];
char Lq, It;
#define LQ ((List) (void *) &Lq)
enum { X_HEAD, X_B, X_P, X_LIT, X_OV, X_NUM, X_NAME, X_QUOTE, X_DONE };       /* position in the line being sent */
enum { L_OPTION, L_CONSOLE, L_USER, L_TTY, L_MESSAGE, L_CODE, L_QUIET, L_REGEX, L_RESET, L_FORCE, L_JOIN, L_BCAST };
enum { O_Q = 1, O_R = 2, O_F = 4, O_J = 8, O_B = 16, O_RESET = 32, O_USER = 64, O_TTY = 128, O_MSG = 256, O_CODE = 512 };
struct { int n, j, err, want, cmd, nomsg, reset, tty, len, fit, cmderr; } K;
struct {
    int st, i, lit, bits, sent, pos;
    int full, wrote, wfail, bad, its, freed, na, shut;
    char *buf, *tmp, *src, *enc;        /* the line; a copy, of what, encoded */
    int encu, enct, rsp, errset;
} G;
const char *VA[8];
int VI[8];
#define VP_Z (VP_IMPLIES(VP_OP != 0, G.tmp == NULL) && !G.bad && 0 <= G.pos && G.pos <= K.n && !G.wrote && !G.errset && !G.wfail && !G.rsp && !G.shut && VP_IMPLIES(!G.full, G.st == X_B && G.sent == G.pos && G.bits == K.want) && G.encu == 0 && G.enct == 0 && (G.full == 0 || G.full == 1))

/*  what the line must contain, one character at a time */
static char vp_head(int i)
{
    if (VP_OP == 0) return K.err ? "ERROR"[i] : "OK"[i];
    if (VP_OP == 1) return "HELLO"[i];
    return K.cmd == CONMAN_CMD_QUERY ? "QUERY"[i] : K.cmd == CONMAN_CMD_MONITOR ? "MONITOR"[i] : "CONNECT"[i];
}
static char vp_lit(int l, int i)
{
    switch (l) {
        case L_OPTION: return "OPTION="[i];
        case L_CONSOLE: return "CONSOLE='"[i];
        case L_USER: return "USER='"[i];
        case L_TTY: return "TTY='"[i];
        case L_MESSAGE: return "MESSAGE='"[i];
        case L_CODE: return "CODE="[i];
        case L_QUIET: return "QUIET"[i];
        case L_REGEX: return "REGEX"[i];
        case L_RESET: return "RESET"[i];
        case L_FORCE: return "FORCE"[i];
        case L_JOIN: return "JOIN"[i];
        default: return "BROADCAST"[i];
    }
}
static void vp_bit(int b) { if ((G.bits & b) || !(K.want & b)) G.bad = 1; G.bits |= b; }
static void vp_out(char c)
{
    if (G.bad) return;
    switch (G.st) {
    case X_HEAD:
        if (c != vp_head(G.i)) G.bad = 1;
        else if (!vp_head(++G.i)) G.st = X_B;
        return;
    case X_B:
        if (c == ' ') G.st = X_P;
        else if (c == '\n') G.st = X_DONE;
        else G.bad = 1;
        return;
    case X_P:
        G.st = X_LIT; G.i = 1;
        if (c == 'O') G.lit = L_OPTION;
        else if (c == 'C') G.lit = VP_OP == 0 && K.err ? L_CODE : L_CONSOLE;
        else if (c == 'U') G.lit = L_USER;
        else if (c == 'T') G.lit = L_TTY;
        else if (c == 'M') G.lit = L_MESSAGE;
        else G.bad = 1;
        return;
    case X_OV:
        G.st = X_LIT; G.i = 1;
        if (c == 'Q') { G.lit = L_QUIET; vp_bit(O_Q); }
        else if (c == 'R') { G.lit = VP_OP == 0 ? L_RESET : L_REGEX; vp_bit(VP_OP == 0 ? O_RESET : O_R); }
        else if (c == 'F') { G.lit = L_FORCE; vp_bit(O_F); }
        else if (c == 'J') { G.lit = L_JOIN; vp_bit(O_J); }
        else if (c == 'B') { G.lit = L_BCAST; vp_bit(O_B); }
        else G.bad = 1;
        return;
    case X_LIT:
        if (c != vp_lit(G.lit, G.i)) G.bad = 1;
        else if (!vp_lit(G.lit, ++G.i))
            G.st = G.lit == L_OPTION ? X_OV : G.lit == L_CODE ? X_NUM : G.lit >= L_QUIET ? X_B : X_NAME;
        return;
    case X_QUOTE:
        if (c != '\'') G.bad = 1;
        G.st = X_B;
        return;
    default:
        G.bad = 1;
    }
}
/*  a text, which must be the encoded form of the one expected here */
static void vp_name(const char *s)
{
    const char *x;
    if (G.st != X_NAME) { G.bad = 1; return; }
    if (G.lit == L_USER) { vp_bit(O_USER); if (s != USRS || !G.encu) G.bad = 1; }
    else if (G.lit == L_TTY) { vp_bit(O_TTY); if (s != TTYS || !G.enct) G.bad = 1; }
    else if (G.lit == L_MESSAGE) { vp_bit(O_MSG); if (s != G.enc || s != G.tmp || (K.nomsg ? (G.src == MSG || G.src == NT || G.src == NO) : G.src != MSG)) G.bad = 1; }
    else {
        x = G.sent == K.j ? NT : NO;
        if (G.sent >= K.n || s != G.enc || (VP_OP == 0 ? s != G.tmp || G.src != x : s != x)) G.bad = 1;
        G.sent++;
    }
    G.st = X_QUOTE;
}
static int vp_istext(const char *s) { return s == USRS || s == TTYS || s == NT || s == NO || s == MSG || s == G.tmp; }
static int vp_ps(const char *s) { if (G.na < 8) VA[G.na] = s; G.na++; return 0; }
static int vp_pi(int v) { if (G.na < 8) VI[G.na] = v; G.na++; return 0; }
#define VP_A(x) _Generic((x), char *: vp_ps, const char *: vp_ps, default: vp_pi)(x)
#define VP_ARGS(f,a,b,c,d,e,g,...) (G.na = 0, (void) VP_A(a), (void) VP_A(b), (void) VP_A(c), (void) VP_A(d), (void) VP_A(e), (void) VP_A(g), (f))
static int vp_fmt(char *b, size_t n, const char *f)
{
    int i, k = 0, j;
    VP_ASSERT(n > 0 && VP_W_OK(b, n), "formatted output range is valid");
    if (G.buf && G.buf != b) G.bad = 1;
    G.buf = b;
    if (G.full || nd_range(0, 9) == 0) { G.full = 1; return -1; }
    for (i = 0; f[i]; i++) {
        if (f[i] != '%') { vp_out(f[i]); continue; }
        i++;
        if (f[i] == 's') {
            if (vp_istext(VA[k])) vp_name(VA[k]);
            else for (j = 0; VA[k][j]; j++) vp_out(VA[k][j]);
            k++;
        }
        else if (f[i] == 'd') { if (G.st != X_NUM || VI[k] != K.err) G.bad = 1; k++; vp_bit(O_CODE); G.st = X_B; }
        else G.bad = 1;
    }
    return 1;
}
#undef snprintf
#define append_format_string(b,n,...) vp_fmt(b, n, VP_ARGS(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0))
#define snprintf(b,n,...) (G.st = X_HEAD, G.i = G.bits = 0, vp_fmt(b, n, VP_ARGS(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)) < 0 ? (nd_bool() ? -1 : (int) (n) + 1) : 1)
#undef strlcpy
#define strlcpy(d,s,n) vp_cpy(d, (char *) (s), n)
static size_t vp_cpy(char *d, char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "a copy stays within its buffer");
    G.tmp = d; G.src = s; G.enc = NULL;
    if (nd_range(0, 9) == 0) { G.full = 1; return n + nd_range(0, 100); }
    return 1;
}
char * lex_encode(char *s)
{
    G.enc = s;
    if (VP_OP == 0 && s != G.tmp) G.bad = 1;
    if (s == USRS) G.encu = 1;
    if (s == TTYS) G.enct = 1;
    return s;
}
#undef strlen
#define strlen(s) vp_slen(s)
static size_t vp_slen(const char *s) { if (s != G.buf) G.bad = 1; return K.len; }
ssize_t write_n(int fd, void *b, size_t n)
{
    VP_ASSERT(G.st == X_DONE && !G.bad && !G.full && G.bits == K.want && G.sent == K.n, "what is sent is one complete line with exactly what was given");
    if (fd != REQ.sd || b != G.buf || n != (size_t) K.len) G.bad = 1;
    G.wrote++;
    if (nd_bool()) { G.wfail = 1; return -1; }
    return n;
}
int list_count(List l) { if (l != LQ) G.bad = 1; return K.n; }
int list_is_empty(List l) { if (l != LQ) G.bad = 1; return K.n == 0; }
ListIterator list_iterator_create(List l) { if (l != LQ) G.bad = 1; G.its++; G.pos = 0; return (ListIterator) (void *) &It; }
void list_iterator_destroy(ListIterator i) { G.its--; }
#if VP_OP == 0
void * list_next(ListIterator i)
{
    if (G.pos >= K.n) return NULL;
    return G.pos++ == K.j ? &TC : &OC;
}
#endif
void * list_pop(List l)
{
    if (l != LQ) G.bad = 1;
    if (G.pos >= K.n) return NULL;
    return G.pos++ == K.j ? NT : NO;
}
#undef free
#define free(p) vp_free(p)
static void vp_free(void *p) { if (p != ((G.pos - 1 == K.j) ? NT : NO) || G.freed != G.pos - 1) G.bad = 1; G.freed++; }
#define close(fd) vp_close(fd)
static int vp_close(int fd) { if (fd != REQ.sd || !G.rsp) G.bad = 1; return nd_range(-1, 0); }
#define shutdown(fd,h) vp_shut(fd, h)
static int vp_shut(int fd, int h) { if (fd != REQ.sd || h != SHUT_WR || !G.wrote || G.wfail) G.bad = 1; G.shut = 1; return nd_bool() ? 0 : (G.shut = -1); }
char * create_string(const char *s) { return EM; }
#define create_format_string(...) EM
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#if VP_OP > 0
client_conf_t CC;
int recv_rsp(client_conf_t *c) { if (c != &CC || G.wrote != 1 || G.wfail || G.rsp) G.bad = 1; G.rsp = 1; if (nd_bool()) { G.rsp = 2; return 0; } CC.errnum = nd_range(1, 10); return -1; }
#endif

#define P_send_rsp(R) R(req == &REQ && errnum == K.err && errmsg == (K.nomsg ? NULL : MSG))
#define Q_send_rsp(E) \
    E("a reply that fits is sent once, whole, and success reported if it could be", VP_IMPLIES(!G.full, G.wrote == 1 && RV == (G.wfail ? -1 : 0))) \
    E("nothing is sent of one that does not", VP_IMPLIES(G.full, G.wrote == 0 && RV == -1)) \
    E("only copies of names are encoded", !G.bad && VP_IMPLIES(!G.full, G.its == 0))
#define FAILED (CC.errnum > 0 && RV == -1)
#define P_send_greeting(R) R(conf == &CC)
#define Q_send_greeting(E) \
    E("the greeting is sent once, whole, and the reply taken", VP_IMPLIES(!G.full, G.wrote == 1 && (G.wfail ? FAILED : G.rsp && (RV == 0) == (G.rsp == 2) && (RV == 0 || FAILED)))) \
    E("nothing is sent of one that does not fit, which is an error", VP_IMPLIES(G.full, G.wrote == 0 && G.rsp == 0 && FAILED)) \
    E("nothing else is touched", !G.bad)
#define P_send_req(R) R(conf == &CC)
#define Q_send_req(E) \
    E("the request is sent once, whole", VP_IMPLIES(!G.full, G.wrote == 1 && (G.wfail || G.shut < 0 ? FAILED : RV == 0))) \
    E("nothing is sent of one that does not fit, which is an error", VP_IMPLIES(G.full, G.wrote == 0 && FAILED)) \
    E("each name given is released, and only queries end the client's input", !G.bad && G.freed == K.n && VP_IMPLIES(RV == 0, (G.shut == 1) == (K.cmd == CONMAN_CMD_QUERY)))
#if VP_OP == 0
static int send_rsp(req_t *req, int errnum, char *errmsg) VP_REQ(P_send_rsp) VP_ASSIGNS(G, VP, __CPROVER_object_whole(VA), __CPROVER_object_whole(VI)) VP_ENS(Q_send_rsp);
#include "common.c"
#include "server-sock.c"
#else
#define VPF VP_ASSIGNS(G, VP, CC, REQ, __CPROVER_object_whole(VA), __CPROVER_object_whole(VI))
int send_greeting(client_conf_t *conf) VP_REQ(P_send_greeting) VPF VP_ENS(Q_send_greeting);
int send_req(client_conf_t *conf) VP_REQ(P_send_req) VPF VP_ENS(Q_send_req);
#include "common.c"
#include "client-sock.c"
#endif
void harness(void)
{
    int vp_rv;

    memset(&G, 0, sizeof(G));
    memset(&REQ, 0, sizeof(REQ));
    VP.held = VP.err = VP.died = 0;
    NT[0] = NO[0] = 97; NT[1] = NO[1] = USRS[0] = TTYS[0] = FQ[0] = EM[0] = MSG[0] = 0;
    REQ.sd = nd_range(0, 100); REQ.fqdn = REQ.host = FQ; REQ.consoles = LQ; REQ.user = USRS;
    K.n = nd_range(0, NMAX); K.j = nd_range(0, NMAX);
    K.len = nd_range(1, MAX_SOCK_LINE - 1);
    K.err = K.cmd = K.tty = K.nomsg = 0;
#if VP_OP == 0
    { req_t *req = &REQ; int errnum; char *errmsg;
    TC.name = NT; OC.name = NO;
    K.err = errnum = nd_bool() ? 0 : nd_range(0, 100000); K.nomsg = nd_bool(); errmsg = K.nomsg ? NULL : MSG;
    REQ.enableReset = nd_bool();
    K.want = K.err ? O_CODE | O_MSG : REQ.enableReset && K.n > 0 ? O_RESET : 0;
    if (K.err) K.n = 0;
    VP_PRE(P_send_rsp);
    vp_rv = send_rsp(req, errnum, errmsg);
    VP_POST(Q_send_rsp); }
#else
    { client_conf_t *conf = &CC;
    CC.req = &REQ; CC.errnum = 0; CC.errmsg = NULL;
    K.want = 0;
#if VP_OP == 1
    K.n = 0;
    REQ.tty = nd_bool() ? TTYS : NULL;
    K.want = O_USER | (REQ.tty ? O_TTY : 0);
    VP_PRE(P_send_greeting);
    vp_rv = send_greeting(conf);
    VP_POST(Q_send_greeting);
#else
    K.cmd = nd_range(1, 3);
    REQ.command = K.cmd;
    REQ.enableQuiet = nd_bool(); REQ.enableRegex = nd_bool(); REQ.enableForce = nd_bool(); REQ.enableJoin = nd_bool(); REQ.enableBroadcast = nd_bool();
    if (REQ.enableQuiet) K.want |= O_Q;
    if (REQ.enableRegex) K.want |= O_R;
    if (K.cmd == CONMAN_CMD_CONNECT) K.want |= (REQ.enableForce ? O_F : 0) | (REQ.enableJoin ? O_J : 0) | (REQ.enableBroadcast ? O_B : 0);
    VP_PRE(P_send_req);
    vp_rv = send_req(conf);
    VP_POST(Q_send_req);
#endif
    }
#endif
    if (vp_rv == 0) VP_REACH("sent"); else VP_REACH("failed");
}
