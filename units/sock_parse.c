/*VP
{ "properties": ["C15"],
  "sources": ["server-sock.c"],
  "enforce": ["parse_greeting", "parse_cmd_opts", "recv_greeting", "recv_req", "recv_rsp", "parse_rsp_ok", "parse_rsp_err"],
  "stub_defs": ["send_rsp", "check_console_state"],
  "unwind": 4, "bound_unwind": 8, "backends": ["sat", "z3"], "timeout": 150,
  "bound_text": "at most 7 tokens",
  "assumptions": ["a line has fewer than 140000 tokens (it has fewer characters)"],
  "trusted": ["lexer: any sequence of tokens (discharged in lex_next, lex_words)", "read_line (discharged in file_io)", "create_string, list_append, strlcpy, atoi"],
  "per": {
    "recv_greeting": {"stub_defs": ["send_rsp", "check_console_state", "parse_greeting"]},
    "recv_req": {"stub_defs": ["send_rsp", "check_console_state", "parse_cmd_opts"]},
    "recv_rsp": {"properties": ["C16"], "sources": ["client-sock.c"], "stub_defs": ["parse_rsp_ok", "parse_rsp_err"]},
    "parse_rsp_ok": {"properties": ["C16"], "sources": ["client-sock.c"], "stub_defs": []},
    "parse_rsp_err": {"properties": ["C16"], "sources": ["client-sock.c"], "stub_defs": []} },
  "loops": [
   {"file": "server-sock.c", "func": "parse_greeting", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, REQ.user, REQ.tty", "invariant": ["VP_I && VP_DONE(done)", "REQ.user == (G.xu ? CS + G.xu : K.u0 ? U0 : NULL) && REQ.tty == (G.xt ? CS + G.xt : K.t0 ? T0 : NULL)", "G.live == (REQ.user != NULL) + (REQ.tty != NULL)"]},
   {"file": "server-sock.c", "func": "parse_cmd_opts", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, REQ", "invariant": ["VP_I && VP_DONE(done) && G.live == G.xc && REQ.consoles == LQ && REQ.command == (unsigned) K.cmd && REQ.user == U0", "VP_OPTS"]},
   {"file": "server-sock.c", "func": "recv_greeting", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, REQ.user, REQ.tty", "invariant": ["VP_J && VP_DONE(done) && REQ.user == (G.xu ? U0 : NULL)"]},
   {"file": "server-sock.c", "func": "recv_req", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, REQ", "invariant": ["VP_J && VP_DONE(done) && REQ.command == (unsigned) G.xcmd && REQ.consoles == LQ && REQ.fqdn == U0"]},
   {"file": "client-sock.c", "func": "recv_rsp", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, CC.errnum, CC.errmsg", "invariant": ["VP_J && G.xok >= -1 && G.xok <= 1 && G.ended == (G.xok != 0) && (G.xcmd || G.xe == 0) && (G.xcmd == 0 || (G.xcmd == 1 && G.xok == -1)) && done == G.xok && CC.errnum == (G.xok < 0 ? G.xe : 0) && G.calls == (G.xok > 0 || G.xcmd)"]},
   {"file": "client-sock.c", "func": "parse_rsp_ok", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, REQ", "invariant": ["VP_I && VP_DONE(done) && G.live == G.xc && REQ.consoles == LQ && REQ.command == (unsigned) K.cmd && REQ.user == U0", "VP_OPTS"]},
   {"file": "client-sock.c", "func": "parse_rsp_err", "nth": 0, "count": 1, "assigns": "$ASSIGNED, G, TXT[0], VP, __CPROVER_object_whole(buf)", "invariant": ["VP_I && VP_DONE(done) && G.live == 0 && err == G.xe && (buf[0] != 0) == G.xm && (G.cp == NULL || G.cp == buf) && (G.xm == 0 || G.cp == buf)"]} ]
}
*/
#include "vp.h"
#include <fnmatch.h>
#include <regex.h>
#include "common.h"
#include "lex.h"
#include "log.h"
#include "list.h"
#include "tpoll.h"
#if VP_OP < 4
#include "server.h"
#else
#include "client.h"
#endif
#include "util-file.h"
#include "util-net.h"
#include "util-str.h"
#include "stub_str.h"

#define TMAX 140000
req_t REQ;
char CS[TMAX + 2], TXT[4], U0[2], T0[2], UNK[2], EM[2];
char Lq, Lx;
char *proto_strs[2];
#define LQ ((List) (void *) &Lq)
#define LX ((Lex) (void *) &Lx)
#if VP_OP >= 4
client_conf_t CC;
#endif
struct { int u0, t0, cmd, n, rc, opts; } K;
struct {
    int p, key, tok, ended, bad;        /* the request as it should be taken */
    int made, dec, live;
    int xu, xt, xc, apps, xopt, xe, xm, ival, xcmd, xok;
    int lexs, calls, rsp, code, unk;
    char *cp;
} G;
enum { O_Q = 1, O_R = 2, O_F = 4, O_J = 8, O_B = 16, O_RESET = 32 };
#define VP_I (!G.bad && G.dec == G.made && (VP_OP != 6 || G.made == 0) && G.p == 0 && 0 <= G.made && G.made <= TMAX && 0 <= G.xu && G.xu <= G.made && 0 <= G.xt && G.xt <= G.made && 0 <= G.xc && G.apps == G.xc && G.xc <= G.made && (G.xm == 0 || G.xm == 1) && (G.ended == 0 || G.ended == 1) && G.lexs == 0 && G.rsp == 0)
#define VP_J (!G.bad && VP_IMPLIES(VP_OP < 4, G.calls == 0) && (G.ended == 0 || G.ended == 1) && G.lexs == 1 && G.rsp == 0 && G.unk == 0 && G.live == 0 && G.p == 0)
#define VP_DONE(d) ((d) == G.ended)
#define VP_OPTS (REQ.enableBroadcast == (unsigned) !!((G.xopt | K.opts) & O_B) && REQ.enableForce == (unsigned) !!((G.xopt | K.opts) & O_F) && REQ.enableJoin == (unsigned) !!((G.xopt | K.opts) & O_J) \
    && REQ.enableQuiet == (unsigned) !!((G.xopt | K.opts) & O_Q) && REQ.enableRegex == (unsigned) !!((G.xopt | K.opts) & O_R) && REQ.enableReset == (unsigned) !!((G.xopt | K.opts) & O_RESET))
#define VP_KEY(t) (VP_OP == 0 ? (t) == CONMAN_TOK_USER || (t) == CONMAN_TOK_TTY : VP_OP == 1 || VP_OP == 5 ? (t) == CONMAN_TOK_CONSOLE || (t) == CONMAN_TOK_OPTION : VP_OP == 6 ? (t) == CONMAN_TOK_CODE || (t) == CONMAN_TOK_MESSAGE : 0)

/*  the next token: any, and what it should do to the request  */
int lex_next(Lex l)
{
    int t, c = nd_range(0, 7), k = nd_range(CONMAN_TOK_BROADCAST, CONMAN_TOK_USER), ne = nd_bool();

    VP_ASSERT(l == LX && !G.ended, "nothing is read past the end of the line");
    t = c <= 1 ? '=' : c <= 3 ? LEX_STR : c == 4 ? LEX_INT : c == 5 && ne ? (nd_bool() ? LEX_EOF : LEX_EOL) : c == 5 ? (k & 1 ? '-' : LEX_ERR) : k;
    TXT[0] = ne ? 'a' : 0;
    G.tok = t;
    G.ival = nd_range(-1000, 100000);
    if (G.p == 1) { G.p = t == '=' ? 2 : 0; return t; }
    if (G.p == 2) {
        G.p = 0;
        if (G.key == CONMAN_TOK_USER && t == LEX_STR && ne) G.xu = G.made + 1;
        else if (G.key == CONMAN_TOK_TTY && t == LEX_STR && ne) G.xt = G.made + 1;
        else if (G.key == CONMAN_TOK_CONSOLE && t == LEX_STR && (ne || VP_OP == 5)) G.xc++;
        else if (G.key == CONMAN_TOK_CODE && t == LEX_INT) G.xe = G.ival;
        else if (G.key == CONMAN_TOK_MESSAGE && t == LEX_STR) G.xm = ne;
        else if (G.key == CONMAN_TOK_OPTION && VP_OP == 1)
            G.xopt |= t == CONMAN_TOK_BROADCAST ? O_B : t == CONMAN_TOK_FORCE ? O_F : t == CONMAN_TOK_JOIN ? O_J : t == CONMAN_TOK_QUIET ? O_Q : t == CONMAN_TOK_REGEX ? O_R : 0;
        else if (G.key == CONMAN_TOK_OPTION && t == CONMAN_TOK_RESET) G.xopt |= O_RESET;
        return t;
    }
    if (t == LEX_EOF || t == LEX_EOL) { G.ended = 1; if (VP_OP == 4) G.xok = -1; return t; }
    if (VP_KEY(t)) { G.p = 1; G.key = t; }
    if (VP_OP == 2 && t == CONMAN_TOK_HELLO) G.calls = 1;
    if (VP_OP == 3 && (t == CONMAN_TOK_CONNECT || t == CONMAN_TOK_MONITOR || t == CONMAN_TOK_QUERY)) {
        G.xcmd = t == CONMAN_TOK_CONNECT ? CONMAN_CMD_CONNECT : t == CONMAN_TOK_MONITOR ? CONMAN_CMD_MONITOR : CONMAN_CMD_QUERY;
        G.calls = 1;
    }
    if (VP_OP == 4 && t == CONMAN_TOK_OK) { G.ended = 1; G.xok = 1; G.calls = 1; }
    if (VP_OP == 4 && t == CONMAN_TOK_ERROR) { G.ended = 1; G.xok = -1; G.xcmd = 1; G.calls = 1; }
    return t;
}
int lex_prev(Lex l) { return G.tok; }
const char * lex_text(Lex l) { return TXT; }
Lex lex_create(void *b, char *t[]) { if (t != proto_strs || G.lexs) G.bad = 1; G.lexs++; return LX; }
void lex_destroy(Lex l) { if (l != LX || G.lexs != 1) G.bad = 1; G.lexs--; }
char * create_string(const char *s)
{
    if (VP_OP == 2) { G.unk++; return UNK; }
    if (VP_OP == 4) return EM;
    if (s != (VP_OP == 6 ? G.cp : TXT) || s == NULL) G.bad = 1;
    VP_ASSUME(G.made < TMAX);
    G.made++; G.live++;
    return CS + G.made;
}
#define create_format_string(...) EM
char * lex_decode(char *s) { if (s != CS + G.made || G.dec == G.made) G.bad = 1; G.dec = G.made; return s; }
#undef free
#define free(p) vp_free(p)
static void vp_free(void *p) { if (p == NULL || (p != REQ.user && p != REQ.tty)) G.bad = 1; G.live--; }
void * list_append(List l, void *x) { if (l != LQ || x != CS + G.made || G.dec != G.made || G.apps != G.xc - 1) G.bad = 1; G.apps++; return x; }
#undef strlcpy
#define strlcpy(d,s,n) vp_cpy(d, s, n)
static size_t vp_cpy(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 1 && VP_W_OK(d, n), "a copy stays within its buffer");
    if (s != TXT) G.bad = 1;
    d[0] = s[0]; d[1] = 0; G.cp = d;
    return 1;
}
#undef atoi
#define atoi(s) vp_atoi(s)
static int vp_atoi(const char *s) { if (s != TXT) G.bad = 1; return G.ival; }
ssize_t read_line(int fd, void *b, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(b, n), "a line read stays within its buffer");
    if (fd != REQ.sd || G.lexs) G.bad = 1;
    return K.n;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#if VP_OP < 4
static int send_rsp(req_t *r, int code, char *msg) { if (r != &REQ || G.lexs || G.rsp || (code && !msg)) G.bad = 1; G.rsp++; G.code = code; return K.rc; }
static void check_console_state(obj_t *c, obj_t *l) { }
#endif
#if VP_OP == 2
static void parse_greeting(Lex l, req_t *r) { if (l != LX || r != &REQ || G.calls != 1) G.bad = 1; G.calls = 0; if (nd_bool()) { REQ.user = U0; G.xu = 1; } if (nd_bool()) REQ.tty = T0; }
#elif VP_OP == 3
static void parse_cmd_opts(Lex l, req_t *r) { if (l != LX || r != &REQ || G.calls != 1 || r->command != (unsigned) G.xcmd) G.bad = 1; G.calls = 0; }
#elif VP_OP == 4
static void parse_rsp_ok(Lex l, client_conf_t *c) { if (l != LX || c != &CC || G.xok != 1) G.bad = 1; }
static void parse_rsp_err(Lex l, client_conf_t *c) { if (l != LX || c != &CC || G.xcmd != 1) G.bad = 1; G.xe = nd_range(-10, 10); CC.errnum = G.xe; }
#endif

#define P_parse_greeting(R) R(l == LX && req == &REQ)
#define Q_parse_greeting(E) \
    E("the user is the decoded text of the last well-formed one given, or unchanged", REQ.user == (G.xu ? CS + G.xu : K.u0 ? U0 : NULL)) \
    E("and so is the terminal", REQ.tty == (G.xt ? CS + G.xt : K.t0 ? T0 : NULL)) \
    E("texts replaced are released, and nothing is left over", G.live == (REQ.user != NULL) + (REQ.tty != NULL) && !G.bad && VP_IMPLIES(G.made > 0, G.dec == G.made))
#define P_parse_cmd_opts(R) R(l == LX && req == &REQ)
#define Q_parse_cmd_opts(E) \
    E("each name given, decoded, is appended in order and once", G.apps == G.xc && G.live == G.xc && !G.bad) \
    E("exactly the options given are set", VP_OPTS) \
    E("the command is kept", REQ.command == (unsigned) K.cmd && REQ.consoles == LQ && REQ.user == U0)
#define P_recv_greeting(R) R(req == &REQ)
#define Q_recv_greeting(E) \
    E("without a line there is no reply", VP_IMPLIES(K.n <= 0, RV == -1 && G.rsp == 0)) \
    E("a greeting that names no user is refused, once", VP_IMPLIES(K.n > 0 && !G.xu, RV == -1 && G.rsp == 1 && G.code == CONMAN_ERR_BAD_REQUEST && REQ.user == UNK)) \
    E("one that does is accepted, once", VP_IMPLIES(K.n > 0 && G.xu, RV == K.rc && G.rsp == 1 && G.code == CONMAN_ERR_NONE && REQ.user == U0)) \
    E("nothing is left over", !G.bad && G.lexs == 0 && G.calls == 0)
#define P_recv_req(R) R(req == &REQ)
#define Q_recv_req(E) \
    E("without a line the request fails", RV == (K.n <= 0 ? -1 : 0)) \
    E("the command is the last one named", REQ.command == (unsigned) G.xcmd) \
    E("its options are taken, and nothing is left over", !G.bad && G.lexs == 0 && G.calls == 0 && G.rsp == 0)
#define P_recv_rsp(R) R(conf == &CC)
#define Q_recv_rsp(E) \
    E("success is reported exactly for a reply that says so", (RV == 0) == (K.n > 0 && G.xok == 1) && (RV == 0 || RV == -1)) \
    E("anything else is an error, as reported by the server if it was", VP_IMPLIES(RV != 0, CC.errnum != 0 && VP_IMPLIES(K.n > 0 && G.xcmd && G.xe, CC.errnum == G.xe))) \
    E("nothing is left over", !G.bad && G.lexs == 0)
#define P_parse_rsp_ok(R) R(l == LX && conf == &CC)
#define Q_parse_rsp_ok(E) \
    E("each console given, decoded, is appended in order and once", G.apps == G.xc && G.live == G.xc && !G.bad) \
    E("reset is available exactly if offered", VP_OPTS) \
    E("the request is kept", REQ.command == (unsigned) K.cmd && REQ.consoles == LQ && REQ.user == U0 && CC.errnum == 0)
#define P_parse_rsp_err(R) R(l == LX && conf == &CC)
#define Q_parse_rsp_err(E) \
    E("the error is the last one given", CC.errnum == G.xe) \
    E("its message is the decoded text of the last one given", G.xm ? CC.errmsg == CS + 1 && G.made == 1 && G.dec == 1 : CC.errmsg == EM && G.made == 0) \
    E("nothing is left over", !G.bad)
#define VPS VP_ASSIGNS(REQ, G, TXT[0], VP)
#define VPC VP_ASSIGNS(REQ, CC, G, TXT[0], VP)
#if VP_OP < 4
#if VP_OP != 2
static void parse_greeting(Lex l, req_t *req) VP_REQ(P_parse_greeting) VPS VP_ENS(Q_parse_greeting);
#endif
#if VP_OP != 3
static void parse_cmd_opts(Lex l, req_t *req) VP_REQ(P_parse_cmd_opts) VPS VP_ENS(Q_parse_cmd_opts);
#endif
static int recv_greeting(req_t *req) VP_REQ(P_recv_greeting) VPS VP_ENS(Q_recv_greeting);
static int recv_req(req_t *req) VP_REQ(P_recv_req) VPS VP_ENS(Q_recv_req);
#include "server-sock.c"
#else
int recv_rsp(client_conf_t *conf) VP_REQ(P_recv_rsp) VPC VP_ENS(Q_recv_rsp);
#if VP_OP != 4
static void parse_rsp_ok(Lex l, client_conf_t *conf) VP_REQ(P_parse_rsp_ok) VPC VP_ENS(Q_parse_rsp_ok);
static void parse_rsp_err(Lex l, client_conf_t *conf) VP_REQ(P_parse_rsp_err) VPC VP_ENS(Q_parse_rsp_err);
#endif
#include "client-sock.c"
#endif
#define CALLV(f, a) { VP_PRE(P_##f); f a; VP_POST(Q_##f); VP_REACH("done"); }
#define CALL(f, a) { int vp_rv; VP_PRE(P_##f); vp_rv = f a; VP_POST(Q_##f); if (vp_rv == 0) VP_REACH("done"); else VP_REACH("failed"); }
void harness(void)
{
    Lex l = LX;
    req_t *req = &REQ;

    (void) l; (void) req;
    memset(&G, 0, sizeof(G));
    memset(&REQ, 0, sizeof(REQ));
    VP.held = VP.err = VP.died = 0;
    TXT[0] = TXT[1] = U0[0] = T0[0] = UNK[0] = EM[0] = 0;
    K.cmd = nd_range(1, 3); K.n = nd_range(-1, MAX_SOCK_LINE - 1); K.rc = nd_range(-1, 0);
    K.u0 = nd_bool(); K.t0 = nd_bool(); K.opts = 0;
    REQ.sd = nd_range(0, 100); REQ.fqdn = REQ.host = U0; REQ.consoles = LQ;
#if VP_OP == 0
    REQ.user = K.u0 ? U0 : NULL; REQ.tty = K.t0 ? T0 : NULL; G.live = K.u0 + K.t0;
    CALLV(parse_greeting, (l, req))
#elif VP_OP == 1
    REQ.user = U0; REQ.command = K.cmd;
    CALLV(parse_cmd_opts, (l, req))
#elif VP_OP == 2
    CALL(recv_greeting, (req))
#elif VP_OP == 3
    CALL(recv_req, (req))
#else
    { client_conf_t *conf = &CC;
    CC.req = &REQ; CC.errnum = 0; CC.errmsg = EM;
#if VP_OP == 4
    CALL(recv_rsp, (conf))
#elif VP_OP == 5
    K.opts = nd_range(0, 31);
    REQ.enableQuiet = K.opts & 1; REQ.enableRegex = K.opts >> 1; REQ.enableForce = K.opts >> 2; REQ.enableJoin = K.opts >> 3; REQ.enableBroadcast = K.opts >> 4;
    REQ.user = U0; REQ.command = K.cmd;
    CALLV(parse_rsp_ok, (l, conf))
#else
    CALLV(parse_rsp_err, (l, conf))
#endif
    }
#endif
}
