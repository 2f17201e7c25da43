/*VP
{ "properties": ["C09"],
  "sources": ["server-sock.c"],
  "enforce": ["check_too_many_consoles", "check_busy_consoles", "validate_req", "perform_query_cmd", "perform_monitor_cmd", "perform_connect_cmd",
     "process_client", "query_consoles", "query_consoles_via_globbing", "query_consoles_via_regex"],
  "stub_defs": ["send_rsp", "check_console_state"],
  "unwind": 4, "bound_unwind": 6, "backends": ["sat", "z3"], "timeout": 150,
  "assumptions": ["the members of aux_obj_t are laid side by side, as only aux.client is used (the bounded run uses the real union)"],
  "bound_text": "at most 4 consoles, writers and patterns",
  "trusted": ["snprintf, strlen, strlcpy, strlcat, fnmatch, regcomp, regexec (C library)", "list operations (discharged in list_*)", "link_objs (discharged in obj_link)", "send_rsp, create_client_obj, check_console_state"],
  "per": {
    "process_client": {"properties": ["C09", "C15"], "stub_defs": ["send_rsp", "check_console_state", "resolve_addr", "recv_greeting", "recv_req", "query_consoles", "validate_req", "perform_query_cmd", "perform_monitor_cmd", "perform_connect_cmd"]},
    "query_consoles": {"properties": ["C28"], "stub_defs": ["send_rsp", "check_console_state", "query_consoles_via_globbing", "query_consoles_via_regex"]},
    "query_consoles_via_globbing": {"properties": ["C28"]}, "query_consoles_via_regex": {"properties": ["C28"], "stub_defs": ["send_rsp", "check_console_state"]} },
  "loops": [
   {"func": "check_too_many_consoles", "nth": 0, "count": 1, "assigns": "$LOCALS, OC.type, G, VP, __CPROVER_object_whole(buf)", "invariant": ["VP_Z && VP_RSP && VP_ITL && G.itk == LQN && 0 <= G.pos && G.pos <= K.n"]},
   {"func": "check_busy_consoles", "nth": 0, "count": 3, "assigns": "$LOCALS, OC.type, G, VP",
     "invariant": ["VP_Z && VP_ITL && G.itk == LQN && G.rsp == 0 && 0 <= G.pos && G.pos <= K.n && 0 <= G.nb && G.nb <= G.pos && (G.nb > 0) == (K.b >= 0 && G.pos > K.b) && G.tapp == (G.pos > K.j && K.tb) && G.tapp <= G.nb && G.tpop == 0"]},
   {"func": "check_busy_consoles", "nth": 1, "count": 3, "assigns": "$LOCALS, OC.type, G, VP, __CPROVER_object_whole(buf)",
     "invariant": ["VP_Z && VP_RSP && G.its == 0 && 0 <= G.nb && G.nb <= K.n && G.tapp == K.tb && (G.tpop == 0 || (G.tpop == 1 && G.tapp))"]},
   {"func": "check_busy_consoles", "nth": 2, "count": 3, "assigns": "$ASSIGNED, G, VP, __CPROVER_object_whole(buf)",
     "invariant": ["VP_Z && VP_RSP && G.its == 1 && G.itk == (console == &TC ? LWTN : LWON) && 0 <= G.nb && G.nb <= K.n && G.tapp == K.tb && (G.tpop == 0 || (G.tpop == 1 && G.tapp)) && (console == &TC || console == &OC)"]},
   {"func": "perform_connect_cmd", "nth": 0, "count": 1, "assigns": "$LOCALS, OC.type, G, VP", "entry_only": 0,
     "invariant": ["VP_Z && VP_ITL && G.itk == LQN && 0 <= G.pos && G.pos <= K.n && G.created == 1 && G.rsp == 1 && G.l_ct == (G.pos > K.j) && G.l_co == G.pos - G.l_ct && G.l_tc == 0 && G.l_oc == 0"]},
   {"func": "query_consoles_via_globbing", "nth": 0, "count": 2, "assigns": "$LOCALS, OC.type, G, VP",
     "invariant": ["VP_Z && VP_NP && G.rsp == 0 && G.its == 2 && 0 <= G.pi && G.pi <= G.np && 0 <= G.pos && G.pos <= K.n && G.tin == (K.tcon && VP_M >= 0 && G.pi > VP_M)"]},
   {"func": "query_consoles_via_globbing", "nth": 1, "count": 2, "assigns": "$ASSIGNED, OC.type, G, VP",
     "invariant": ["VP_Z && VP_NP && G.rsp == 0 && G.its == 2 && 1 <= G.pi && G.pi <= G.np && 0 <= G.pos && G.pos <= K.n && pat == (G.star ? STAR : PATS) && G.tin == (K.tcon && VP_M >= 0 && (G.pi - 1 > VP_M || (G.pi - 1 == VP_M && G.pos > K.j)))"]},
   {"func": "query_consoles_via_regex", "nth": 0, "count": 2, "assigns": "$LOCALS, G, VP",
     "invariant": ["VP_Z && VP_NP && VP_ITL && G.rsp == 0 && G.tin == 0 && G.freed == 0 && 1 <= G.pi && G.pi <= G.np && G.pieces == G.pi && G.bar == 0 && G.comp == 0 && G.buf == buf && G.its == 1"]},
   {"func": "query_consoles_via_regex", "nth": 1, "count": 2, "assigns": "$LOCALS, OC.type, G, VP, match",
     "invariant": ["VP_Z && VP_ITL && 0 <= G.pos && G.pos <= K.n && G.comp == 1 && G.rex == &rex && VP_NP && G.freed == 0 && G.tin == (K.tcon && K.tm == 1 && G.pos > K.j) && G.rsp == 0"]} ]
}
*/
#include "vp.h"
#include <fnmatch.h>
#include <regex.h>
#include "common.h"
#include "lex.h"
#include "log.h"
#include "list.h"
#include "tpoll.h"
#include <netinet/in.h>
#include <pthread.h>
#include <termios.h>
#include <time.h>
#ifdef VP_PROVE
#define union struct    /* the members of aux_obj_t side by side: these functions use only aux.client */
#endif
#include "server.h"
#undef union
#include "util-file.h"
#include "util-net.h"
#include "util-str.h"
#include "stub_str.h"

#define NMAX VP_LIM(1000000, 4)
obj_t TC, OC, CL;
req_t REQ, REQC;
server_conf_t C;
char NT[4], NO[4], PATS[4], STAR[4], DST[4], USR[4], TTYS[4], REXB[4], FQ[4];
char Lq, Lm, Lb, Lo, Lwt, Lwo, Lwc, Lj;
#define LQ ((List) (void *) &Lq)        /* the request's consoles or patterns */
#define LM ((List) (void *) &Lm)        /* the matches                       */
#define LB ((List) (void *) &Lb)        /* a scratch list                    */
#define LO ((List) (void *) &Lo)        /* all objects                       */
#define LWT ((List) (void *) &Lwt)      /* the tracked console's writers     */
#define LWO ((List) (void *) &Lwo)
#define LWC ((List) (void *) &Lwc)      /* the writing client's consoles     */
enum { LQN = 1, LON, LWTN, LWON };
struct {
    int n, j;                           /* length, tracked position          */
    int b, tb;                          /* first busy console, is the tracked one busy */
    int np, m, tcon, tm, tl, ol, rxfail;
    int cmd, force, join, bcast, bc, fail, tty, reset, rc, regex;
} K;
struct {
    int pos, its, itk, ob;              /* consoles visited, iterators alive */
    int nb, tapp, tpop, lb; /* the busy list                    */
    int rsp, code, wfail, bad;
    int created, l_ct, l_co, l_tc, l_oc, destroyed;
    int pi, np, star, tin, om, ofound, comp, pieces, bar, freed;
    char *buf; regex_t *rex;
    int stage, perf, sorted, olddest, argfree, strs;
} G;
#define VP_ITL (G.its == 1)
#define VP_RSP (G.rsp == 1)
#define VP_Z (!G.bad && !G.destroyed && G.strs == 0 && VP.held == 0 && G.code == (G.rsp ? (VP_OP == 5 ? CONMAN_ERR_NONE : VP_CODE) : 0) && VP_IMPLIES(VP_OP != 5, NOLINK) && G.lb == (VP_OP == 1 || (VP_OP == 2 && !TOOMANY)))
#define VP_CODE (VP_OP == 0 || (VP_OP == 2 && TOOMANY) ? CONMAN_ERR_TOO_MANY_CONSOLES : CONMAN_ERR_BUSY_CONSOLES)
#define VP_NP (G.np == (K.np ? K.np : 1) && G.star == (K.np == 0))
#define VP_M (G.star ? 0 : K.m)         /* the first pattern the tracked console matches */
#define TOOMANY (K.cmd != CONMAN_CMD_QUERY && K.n != 1 && !(K.cmd == CONMAN_CMD_CONNECT && K.bc))
#define BUSY (K.cmd != CONMAN_CMD_QUERY && K.cmd != CONMAN_CMD_MONITOR && !K.force && !K.join && K.b >= 0)

/*  ---- lists ---- */
static int it1, it2;
int list_is_empty(List l)
{
    if (l == LQ) return VP_OP >= 8 ? G.np == 0 : K.n == 0;
    if (l == LB) return G.nb == 0;
    if (l == LWT) return !K.tb;
    if (l == LWO) return !G.ob;
    if (l == LWC) return nd_bool();
    G.bad = 1;
    return 0;
}
int list_count(List l)
{
    if (l == LQ) return K.n;
    if (l == LB) return G.nb;
    if (l == LM) return K.n;
    if (l == LWT) return K.tb ? nd_range(1, 9) : 0;
    if (l == LWO) return G.ob ? nd_range(1, 9) : 0;
    if (l == LWC) return nd_range(0, 9);
    G.bad = 1;
    return 0;
}
List list_create(ListDelF f) { if (f != NULL || G.lb) G.bad = 1; G.lb = 1; return VP_OP == 7 ? LM : LB; }
void list_destroy(List l)
{
    if (l == LB) { if (!G.lb) G.bad = 1; G.lb = 0; }
    else if (l == LQ && VP_OP == 7) G.olddest++;
    else G.bad = 1;
}
ListIterator list_iterator_create(List l)
{
    G.its++;
    if (l == LO) { G.pos = 0; return (ListIterator) (void *) &it2; }
    if (l == LQ && VP_OP >= 8) { G.pi = 0; return (ListIterator) (void *) &it1; }
    if (l == LQ) { G.pos = 0; G.itk = LQN; }
    else if (l == LWT) G.itk = LWTN;
    else if (l == LWO) G.itk = LWON;
    else G.bad = 1;
    return (ListIterator) (void *) &it1;
}
void list_iterator_destroy(ListIterator i) { if (i != (ListIterator) (void *) &it1 && i != (ListIterator) (void *) &it2) G.bad = 1; G.its--; }
void list_iterator_reset(ListIterator i) { if (i == (ListIterator) (void *) &it2) G.pos = 0; else G.bad = 1; }
static void * vp_item(void)
{
    int p = G.pos;

    if (p >= K.n) return NULL;
    G.pos = p + 1;
    G.ofound = G.om = 0;
    if (p == K.j) return &TC;
    G.ob = (K.b < 0 || p < K.b) ? 0 : p == K.b ? 1 : nd_bool();
    if (VP_OP >= 8) OC.type = 1u << nd_range(0, 7);
    return &OC;
}
void * list_next(ListIterator i)
{
    if (i == (ListIterator) (void *) &it2) return vp_item();
    if (VP_OP >= 8) {
        if (G.pi >= G.np) return NULL;
        G.pi++;
        return G.star ? STAR : PATS;
    }
    if (G.itk == LQN) return vp_item();
    if (nd_bool()) return NULL;
    return &CL;
}
void * list_peek(List l) { if (l != LQ || K.n == 0) G.bad = 1; return K.j == 0 ? &TC : &OC; }
void * list_pop(List l)
{
    if (l != LB) G.bad = 1;
    if (G.nb <= 0) return NULL;
    G.nb--;
    if (G.tapp && !G.tpop && (G.nb == 0 || nd_bool())) { G.tpop = 1; return &TC; }
    return &OC;
}
void * list_append(List l, void *x)
{
    if (l == LB && VP_OP < 8) {
        if (x == &TC) { if (!K.tb || G.tapp) G.bad = 1; G.tapp = 1; }
        else if (x != &OC || !G.ob) G.bad = 1;
        G.nb++;
    }
    else if (l == LM) {
        if (x == &TC) G.tin++;
        else if (x == &OC) VP_ASSERT(OC.type > CONMAN_OBJ_LOGFILE && G.om && !G.ofound, "only a console that matches is selected, and only once");
        else G.bad = 1;
    }
    else if (l == LQ && VP_OP >= 8 && x == STAR && G.np == 0) { G.np = 1; G.star = 1; }
    else G.bad = 1;
    return x;
}
void * list_find_first(List l, ListFindF f, void *k)
{
    if (l != LM || f != (ListFindF) find_obj) G.bad = 1;
    if (k == &TC) return G.tin ? &TC : NULL;
    if (k != &OC) G.bad = 1;
    G.ofound = nd_bool();
    return G.ofound ? &OC : NULL;
}
void list_sort(List l, ListCmpF f) { if (l != LM || f != (ListCmpF) compare_objs) G.bad = 1; G.sorted++; }
int find_obj(obj_t *o, obj_t *k) { return o == k; }
int compare_objs(obj_t *a, obj_t *b) { return 0; }

/*  ---- others ---- */
#undef strlen
#undef snprintf
#ifdef VP_NATIVE
static size_t vp_slen(const char *s) { return s == NT ? (size_t) K.tl : s == NO ? (size_t) K.ol : strlen(s); }
#else
/*  some length that fits in the object */
static size_t vp_slen(const char *s)
{
    long r = vp_hid_();
    if (s == NT) return K.tl;
    if (s == NO) return K.ol;
    VP_ASSERT(VP_R_OK(s, 1), "string argument is valid");
    VP_ASSUME(r >= 0 && (size_t) r < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s));
    return (size_t) r;
}
static int vp_snp(char *s, size_t n)
{
    long r = vp_hid_();
    VP_ASSUME(r >= 0 && r <= 100000);
    VP_ASSERT(n == 0 || VP_W_OK(s, n), "formatted output range is valid");
    return (int) r;
}
#define snprintf(s,n,...)   (vp_use(__VA_ARGS__), vp_snp(s, n))
#endif
#define strlen(s) vp_slen(s)
#define fnmatch(p,s,f) vp_fnmatch(p, s, f)
static int vp_fnmatch(const char *p, const char *s, int f)
{
    int m;
    if (p != (G.star ? STAR : PATS) || f != 0) G.bad = 1;
    if (s == NT) m = VP_M >= 0 && G.pi - 1 >= VP_M && (G.star || G.pi - 1 == VP_M || nd_bool());
    else { if (s != NO) G.bad = 1; m = G.om = nd_bool(); }
    return m ? 0 : FNM_NOMATCH;
}
#undef strlcpy
#undef strlcat
#define strlcpy(d,s,n) vp_cpy(d, s, n)
#define strlcat(d,s,n) vp_cat(d, s, n)
static size_t vp_cpy(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "a copy stays within its buffer");
    if (VP_OP == 9) { if (G.pieces || s != (G.star ? STAR : PATS)) G.bad = 1; G.pieces = 1; G.buf = d; }
    else d[0] = 0;
    return 1;
}
static size_t vp_cat(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "a copy stays within its buffer");
    if (VP_OP != 9) return 1;
    if (d != G.buf) G.bad = 1;
    if (s == PATS) { if (!G.bar) G.bad = 1; G.pieces++; G.bar = 0; }
    else { if (s[0] != '|' || s[1] || G.bar) G.bad = 1; G.bar = 1; }
    return 1;
}
#define regcomp(r,b,f) vp_regcomp(r, b, f)
#define regerror(c,r,b,n) vp_regerror(c, r, b, n)
#define regfree(r) vp_regfree(r)
#define regexec(r,s,n,m,f) vp_regexec(r, s, n, m, f)
static int vp_regcomp(regex_t *r, const char *b, int f)
{
    VP_ASSERT(b == G.buf && G.pieces == G.np && !G.bar, "the expression is the alternation of all patterns requested");
    if (!(f & REG_EXTENDED)) G.bad = 1;
    if (K.rxfail) return REG_BADPAT;
    G.comp++; G.rex = r;
    return 0;
}
static size_t vp_regerror(int c, regex_t *r, char *b, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(b, n), "a copy stays within its buffer");
    b[0] = 0;
    return nd_range(1, 10000);
}
static void vp_regfree(regex_t *r) { if (G.comp && r != G.rex) G.bad = 1; G.freed++; }
static int vp_regexec(regex_t *r, const char *s, size_t n, regmatch_t *m, int f)
{
    if (r != G.rex || !G.comp || G.freed || n < 1 || f) G.bad = 1;
    m[0].rm_so = nd_range(0, 1000); m[0].rm_eo = nd_range(0, 1000);
    if (s == NT) {
        if (K.tm == 1) { m[0].rm_so = 0; m[0].rm_eo = K.tl; }
        else if (K.tm == 2) VP_ASSUME(m[0].rm_so != 0 || m[0].rm_eo != K.tl);
        return K.tm == 0;
    }
    if (s != NO) G.bad = 1;
    G.om = nd_bool() && m[0].rm_so == 0 && m[0].rm_eo == K.ol;
    return G.om ? 0 : (m[0].rm_so == 0 && m[0].rm_eo == K.ol) ? REG_NOMATCH : nd_bool() ? REG_NOMATCH : 0;
}
char * create_string(const char *s)
{
    if (VP_OP == 8 ? (s[0] != '*' || s[1]) : (s[0] != '.' || s[1] != '*' || s[2])) G.bad = 1;
    return STAR;
}
char * create_time_delta_string(time_t a, time_t b) { if (nd_bool()) return NULL; G.strs++; return DST; }
#undef free
#define free(p) vp_free(p)
static void vp_free(void *p) { if (p == DST) G.strs--; else if (VP_OP == 6 && !G.argfree) G.argfree++; else G.bad = 1; }
ssize_t write_n(int fd, void *buf, size_t n)
{
    VP_ASSERT(VP_R_OK(buf, n), "only what is in the buffer is sent");
    if (fd != REQ.sd) G.bad = 1;
    return nd_bool() ? (ssize_t) n : -1;
}
static int send_rsp(req_t *req, int code, char *msg)
{
    if (req != &REQ) G.bad = 1;
    G.rsp++; G.code = code;
    return nd_range(-1, 0);
}
obj_t * create_client_obj(server_conf_t *c, req_t *r) { if (c != &C || r != &REQ || G.rsp != 1) G.bad = 1; G.created++; return &CL; }
void link_objs(obj_t *s, obj_t *d)
{
    if (!G.created) G.bad = 1;
    if (s == &CL && d == &TC) G.l_ct++;
    else if (s == &CL && d == &OC) G.l_co++;
    else if (s == &TC && d == &CL) G.l_tc++;
    else if (s == &OC && d == &CL) G.l_oc++;
    else G.bad = 1;
}
static void check_console_state(obj_t *console, obj_t *client) { if ((console != &TC && console != &OC) || client != &CL) G.bad = 1; }
void destroy_req(req_t *r) { if (r != &REQ) G.bad = 1; G.destroyed++; }
req_t * create_req(void) { return &REQ; }
#if VP_OP == 6
static int vp_stage(int k) { VP_ASSERT(G.stage == k && !G.destroyed && !G.perf, "each step follows the one before, which succeeded"); G.stage = k + 1; return K.fail == k ? -1 : 0; }
static int vp_perf(int c, req_t *r)
{
    VP_ASSERT(G.stage == 5 && K.fail > 4 && r->command == (unsigned) c && !G.destroyed, "a command is performed only for a valid request of that kind");
    if (r != &REQ || (c != CONMAN_CMD_QUERY && r->enableReset != K.reset)) G.bad = 1;
    G.perf++;
    if (K.fail == 5) return -1;
    if (c == CONMAN_CMD_QUERY) destroy_req(r);
    return 0;
}
static int resolve_addr(server_conf_t *c, req_t *r, int sd) { if (c != &C || r != &REQ || sd != 7) G.bad = 1; return vp_stage(0); }
static int recv_greeting(req_t *r) { if (r != &REQ) G.bad = 1; return vp_stage(1); }
static int recv_req(req_t *r) { if (r != &REQ) G.bad = 1; r->command = K.cmd; return vp_stage(2); }
static int query_consoles(server_conf_t *c, req_t *r) { if (c != &C || r != &REQ) G.bad = 1; return vp_stage(3); }
static int validate_req(req_t *r) { if (r != &REQ) G.bad = 1; return vp_stage(4); }
static int perform_query_cmd(req_t *r) { return vp_perf(CONMAN_CMD_QUERY, r); }
static int perform_monitor_cmd(req_t *r, server_conf_t *c) { if (c != &C) G.bad = 1; return vp_perf(CONMAN_CMD_MONITOR, r); }
static int perform_connect_cmd(req_t *r, server_conf_t *c) { if (c != &C) G.bad = 1; return vp_perf(CONMAN_CMD_CONNECT, r); }
#define pthread_detach(t) 0
#define pthread_self() ((pthread_t) 0)
#elif VP_OP == 7
static int query_consoles_via_globbing(server_conf_t *c, req_t *r, List m) { if (c != &C || r != &REQ || m != LM || K.regex || r->consoles != LQ || G.olddest) G.bad = 1; G.stage++; return K.rc; }
static int query_consoles_via_regex(server_conf_t *c, req_t *r, List m) { if (c != &C || r != &REQ || m != LM || !K.regex || r->consoles != LQ || G.olddest) G.bad = 1; G.stage++; return K.rc; }
#endif
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define SAME (REQ.consoles == (VP_OP == 7 && G.stage ? LM : LQ) && REQ.command == (unsigned) K.cmd && REQ.enableForce == (unsigned) K.force && REQ.enableJoin == (unsigned) K.join)
#define TIDY (!G.bad && G.its == 0 && G.lb == (VP_OP == 7 && G.stage) && VP.held == 0 && G.strs == 0 && SAME)
#define NOLINK (G.created == 0 && G.l_ct == 0 && G.l_co == 0 && G.l_tc == 0 && G.l_oc == 0)

#define P_check_too_many_consoles(R) R(req == &REQ && K.n > 0)
#define Q_check_too_many_consoles(E) \
    E("only a query or a broadcast connection may select several consoles", RV == (TOOMANY ? -1 : 0)) \
    E("a refusal is reported once, as too many consoles", G.rsp == (RV != 0) && VP_IMPLIES(G.rsp, G.code == CONMAN_ERR_TOO_MANY_CONSOLES)) \
    E("no session changes and nothing is left behind", NOLINK && TIDY)
#define P_check_busy_consoles(R) R(req == &REQ && K.n > 0)
#define Q_check_busy_consoles(E) \
    E("a request to write to a console that has a writer is refused, unless to join or force", RV == (BUSY ? -1 : 0)) \
    E("a refusal is reported once, as busy consoles", G.rsp == (RV != 0) && VP_IMPLIES(G.rsp, G.code == CONMAN_ERR_BUSY_CONSOLES)) \
    E("no session changes and nothing is left behind", NOLINK && TIDY)
#define P_validate_req(R) R(req == &REQ)
#define Q_validate_req(E) \
    E("a request is accepted exactly if it selects consoles, not too many, and none is busy", RV == (K.n == 0 || TOOMANY || BUSY ? -1 : 0)) \
    E("a refusal is reported once, with its reason", G.rsp == (RV != 0) && VP_IMPLIES(G.rsp, G.code == (K.n == 0 ? CONMAN_ERR_NO_CONSOLES : TOOMANY ? CONMAN_ERR_TOO_MANY_CONSOLES : CONMAN_ERR_BUSY_CONSOLES))) \
    E("no session changes and nothing is left behind", NOLINK && TIDY)
#define P_perform_query_cmd(R) R(req == &REQ && K.cmd == CONMAN_CMD_QUERY && K.n > 0)
#define Q_perform_query_cmd(E) \
    E("the result is sent once and the request ended, or left to the caller if that failed", G.rsp == 1 && G.code == CONMAN_ERR_NONE && G.destroyed == (RV == 0) && (RV == 0 || RV == -1)) \
    E("no session is created", NOLINK && TIDY)
#define P_perform_monitor_cmd(R) R(req == &REQ && conf == &C && K.cmd == CONMAN_CMD_MONITOR && K.n == 1)
#define Q_perform_monitor_cmd(E) \
    E("success makes the client a reader of its console and a writer of none", VP_IMPLIES(RV == 0, G.created == 1 && G.l_tc == 1 && G.l_ct == 0 && G.l_co == 0 && G.l_oc == 0)) \
    E("failure creates no session", VP_IMPLIES(RV != 0, RV == -1 && NOLINK)) \
    E("the client is told first, and owns the request", G.rsp == 1 && G.code == CONMAN_ERR_NONE && !G.destroyed && TIDY)
#define P_perform_connect_cmd(R) R(req == &REQ && conf == &C && K.cmd == CONMAN_CMD_CONNECT && K.n > 0 && (K.n == 1 || K.bc))
#define Q_perform_connect_cmd(E) \
    E("with one console the client reads and writes it", VP_IMPLIES(RV == 0 && K.n == 1, G.created == 1 && G.l_ct == 1 && G.l_tc == 1 && G.l_co == 0 && G.l_oc == 0)) \
    E("with several it writes each of them, once, and reads none", VP_IMPLIES(RV == 0 && K.n > 1, G.created == 1 && G.l_ct == 1 && G.l_co == K.n - 1 && G.l_tc == 0 && G.l_oc == 0)) \
    E("failure creates no session", VP_IMPLIES(RV != 0, RV == -1 && NOLINK)) \
    E("the client is told first, and owns the request", G.rsp == 1 && G.code == CONMAN_ERR_NONE && !G.destroyed && TIDY)
#define P_process_client(R) R(K.n >= 0)
#define Q_process_client(E) \
    E("a request is performed only if every check before it succeeded", G.perf == (K.fail > 4 && K.cmd != CONMAN_CMD_NONE)) \
    E("a refused or failed request is ended, once", VP_IMPLIES(K.fail <= 5 || K.cmd == CONMAN_CMD_NONE, G.destroyed == 1)) \
    E("one that became a session is not, one that was answered is", VP_IMPLIES(K.fail > 5 && K.cmd != CONMAN_CMD_NONE, G.destroyed == (K.cmd == CONMAN_CMD_QUERY))) \
    E("nothing is left behind", !G.bad && G.argfree == 1)
#define P_query_consoles(R) R(conf == &C && req == &REQ && REQ.consoles == LQ)
#define Q_query_consoles(E) \
    E("a request that names no console selects none, unless it is a query", (G.stage == 0) == (K.n == 0 && K.cmd != CONMAN_CMD_QUERY) && G.stage <= 1 && VP_IMPLIES(!G.stage, RV == 0 && !G.sorted && !G.olddest)) \
    E("otherwise the patterns are replaced by what they match, in order", VP_IMPLIES(G.stage, RV == K.rc && G.sorted == 1 && G.olddest == 1)) \
    E("a single console is not a broadcast", REQ.enableBroadcast == (unsigned) (G.stage && K.n == 1 ? 0 : K.bc)) \
    E("no session changes and nothing is left behind", NOLINK && TIDY && G.rsp == 0)
#define P_query_consoles_via_globbing(R) R(conf == &C && req == &REQ && matches == LM)
#define Q_query_consoles_via_globbing(E) \
    E("a console is selected, once, exactly if some pattern matches its name, or there are none", G.tin == (K.tcon && VP_M >= 0) && RV == 0 && G.star == (K.np == 0)) \
    E("no session changes and nothing is left behind", NOLINK && TIDY && G.rsp == 0)
#define P_query_consoles_via_regex(R) R(conf == &C && req == &REQ && matches == LM)
#define Q_query_consoles_via_regex(E) \
    E("a console is selected, once, exactly if the expression matches all of its name", VP_IMPLIES(!K.rxfail, RV == 0 && G.tin == (K.tcon && K.tm == 1))) \
    E("an invalid expression selects nothing and is reported once", G.rsp == K.rxfail && VP_IMPLIES(K.rxfail, RV == -1 && G.tin == 0 && G.code == CONMAN_ERR_BAD_REGEX)) \
    E("no session changes and nothing is left behind", NOLINK && TIDY && VP_IMPLIES(!K.rxfail, G.freed == 1) && G.star == (K.np == 0))
#define VPF VP_ASSIGNS(REQ, OC.type, G, VP)
#define D1(f) static int f(req_t *req) VP_REQ(P_##f) VPF VP_ENS(Q_##f);
#define D2(f) static int f(req_t *req, server_conf_t *conf) VP_REQ(P_##f) VPF VP_ENS(Q_##f);
D1(check_too_many_consoles) D1(check_busy_consoles)
#if VP_OP != 6
D1(validate_req) D1(perform_query_cmd) D2(perform_monitor_cmd) D2(perform_connect_cmd)
static int query_consoles(server_conf_t *conf, req_t *req) VP_REQ(P_query_consoles) VPF VP_ENS(Q_query_consoles);
#else
void process_client(client_arg_t *args) VP_REQ(P_process_client) VPF VP_ENS(Q_process_client);
#endif
#if VP_OP != 7
static int query_consoles_via_globbing(server_conf_t *conf, req_t *req, List matches) VP_REQ(P_query_consoles_via_globbing) VPF VP_ENS(Q_query_consoles_via_globbing);
static int query_consoles_via_regex(server_conf_t *conf, req_t *req, List matches) VP_REQ(P_query_consoles_via_regex) VPF VP_ENS(Q_query_consoles_via_regex);
#endif
#include "server-sock.c"
#define CALL(f, a) { int vp_rv; VP_PRE(P_##f); vp_rv = f a; VP_POST(Q_##f); if (vp_rv == 0) VP_REACH("accepted"); else VP_REACH("refused"); }
#define CALL1(f, a) { int vp_rv; VP_PRE(P_##f); vp_rv = f a; VP_POST(Q_##f); VP_REACH("done"); }
client_arg_t ARGS;
void harness(void)
{
    req_t *req = &REQ;
    server_conf_t *conf = &C;
    client_arg_t *args = &ARGS;
    List matches = LM;

    (void) req; (void) conf; (void) args; (void) matches;
    memset(&G, 0, sizeof(G));
    memset(&REQ, 0, sizeof(REQ));
    VP.held = VP.err = VP.died = 0;
    NT[0] = NO[0] = 97; NT[1] = NO[1] = PATS[0] = STAR[0] = DST[0] = USR[0] = TTYS[0] = FQ[0] = 0;
    TC.name = NT; OC.name = NO; TC.writers = LWT; OC.writers = LWO;
    CL.type = CONMAN_OBJ_CLIENT; CL.writers = LWC; CL.aux.client.req = &REQC;
    REQC.user = REQC.host = USR;
    REQC.tty = nd_bool() ? TTYS : NULL;
    TC.type = OC.type = 1u << nd_range(2, 7);
    K.cmd = nd_range(0, 3); K.force = nd_bool(); K.join = nd_bool(); K.bc = nd_bool();
    REQ.sd = 5; REQ.user = REQ.fqdn = REQ.host = USR; REQ.consoles = LQ;
    REQ.enableForce = K.force; REQ.enableJoin = K.join; REQ.enableBroadcast = K.bc;
    K.n = nd_range(0, NMAX);
    K.j = nd_range(0, NMAX);
    if (K.n > 0) VP_ASSUME(K.j < K.n);
    K.b = nd_range(-1, NMAX); VP_ASSUME(K.b < K.n);
    K.tb = (K.b < 0 || K.j < K.b) ? 0 : K.j == K.b ? 1 : nd_bool();
    if (K.n == 0) K.tb = 0;
    G.ob = K.n == 1 ? 0 : nd_bool();
    K.np = nd_range(0, NMAX); K.m = nd_range(-1, NMAX); VP_ASSUME(K.m < K.np);
    K.tm = nd_range(0, 2); K.tl = nd_range(1, 1000); K.ol = nd_range(1, 1000); K.rxfail = nd_bool();
    K.fail = nd_range(0, 7); K.reset = nd_bool(); K.rc = nd_range(-1, 0); K.regex = nd_bool();
    C.resetCmd = K.reset ? USR : NULL;
    C.objs = LO;
    K.tcon = 1;
    if (VP_OP >= 8) {
        G.np = K.np;
        if (VP_OP == 9 && K.np == 0) K.tm = nd_range(0, 1);
        TC.type = 1u << nd_range(0, 7);
        K.tcon = TC.type > CONMAN_OBJ_LOGFILE && K.n > 0;
        if (K.n == 0) VP_ASSUME(K.tcon == 0);
        REQ.enableRegex = VP_OP == 9;
    }
    if (VP_OP == 6) { REQ.command = 0; }
    else REQ.command = K.cmd;
    if (VP_OP == 7) REQ.enableRegex = K.regex;
    ARGS.sd = 7; ARGS.conf = &C;
#if VP_OP == 0
    CALL(check_too_many_consoles, (req))
#elif VP_OP == 1
    CALL(check_busy_consoles, (req))
#elif VP_OP == 2
    CALL(validate_req, (req))
#elif VP_OP == 3
    CALL(perform_query_cmd, (req))
#elif VP_OP == 4
    CALL(perform_monitor_cmd, (req, conf))
#elif VP_OP == 5
    CALL(perform_connect_cmd, (req, conf))
#elif VP_OP == 6
    { VP_PRE(P_process_client); process_client(args); VP_POST(Q_process_client); if (G.perf) VP_REACH("performed"); else VP_REACH("refused"); }
#elif VP_OP == 7
    CALL(query_consoles, (conf, req))
#elif VP_OP == 8
    CALL1(query_consoles_via_globbing, (conf, req, matches))
#else
    CALL(query_consoles_via_regex, (conf, req, matches))
#endif
}
