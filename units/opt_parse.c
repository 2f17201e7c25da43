/*VP
{ "properties": ["C19"],
  "sources": ["server-serial.c"],
  "enforce": ["parse_serial_opts", "parse_logfile_opts", "parse_test_opts", "process_test_opt"],
  "unwind": 22, "bound_unwind": 22, "backends": ["sat", "z3"], "timeout": 150,
  "bound_text": "at most 4 options",
  "assumptions": ["nothing changes the table of speeds (its values are those the source gives)"],
  "trusted": ["sscanf, strtok, strtol, strspn, strlcpy, toupper (C standard)"],
  "keep_static": ["bps_table"],
  "per": {
    "parse_logfile_opts": {"sources": ["server-logfile.c"]},
    "parse_test_opts": {"sources": ["server-test.c"], "stub_defs": ["process_test_opt"]},
    "process_test_opt": {"sources": ["server-test.c"]} },
  "loops": [
   {"file": "server-logfile.c", "func": "parse_logfile_opts", "nth": 0, "count": 1, "locals": ["tok", "optsTmp"], "assigns": "tok, optsTmp, G, VP",
     "invariant": ["(tok == NULL) == (G.left == 0) && VP_IMPLIES(tok != NULL, tok == TK) && G.kind >= 0 && G.kind <= 6 && G.bad == 0 && G.toks > 0",
       "optsTmp.enableLock == G.lk && optsTmp.enableSanitize == G.sn && optsTmp.enableTimestamp == G.ts && (G.lk == 0 || G.lk == 1) && (G.sn == 0 || G.sn == 1) && (G.ts == 0 || G.ts == 1)"]},
   {"file": "server-test.c", "func": "parse_test_opts", "nth": 0, "count": 1, "locals": ["tok"], "assigns": "tok, G, VP, opts_tmp",
     "invariant": ["(tok == NULL) == (G.left == 0) && VP_IMPLIES(tok != NULL, tok == TK) && G.bad == 0 && G.toks > 0 && G.refused == 0",
       "opts_tmp.numBytes == G.o.numBytes && opts_tmp.msecMax == G.o.msecMax && opts_tmp.msecMin == G.o.msecMin && opts_tmp.probability == G.o.probability"]} ]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"
#include "util-file.h"
#include "log.h"

tpoll_t tp_global;
char STR[8], TK[8], ERRB[80], *BUFP;
seropt_t SO;
logopt_t LO;
test_opt_t TO;
struct {
    int n, bps, db, sb; char par;       /* what sscanf finds                 */
    int null, empty, fits, errnull, errlen;
    int c0, c1, endok, range; long val; /* a test option                     */
    int lk, sn, ts;
    seropt_t so; test_opt_t to;
    int stale;                          /* errno on entry                    */
} K;
struct {
    int left, toks, kind, bad, lk, sn, ts, refused, steps;
    test_opt_t o;
} G;
/*  what each kind of log option token is; 6 is anything else  */
static const char * const WORDS[6] = { "lock", "nolock", "sanitize", "nosanitize", "timestamp", "notimestamp" };
#undef strtok
#undef strcasecmp
#undef strcmp
#undef strlcpy
#undef snprintf
#undef sscanf
#undef strtol
#undef strspn
#undef toupper
#define strlcpy(d,s,n) vp_strlcpy(d, s, n)
#define snprintf(p,n,...) vp_snprintf(p, n)
#define strtok(s,d) vp_strtok(s, d)
#define strtok_r(s,d,p) vp_strtok(s, d)
#define strcasecmp(a,b) vp_strcasecmp(a, b)
#define sscanf(s,f,a,b,c,d) vp_sscanf(s, f, a, b, c, d)
#define strtol(s,e,b) vp_strtol(s, e, b)
#define strspn(s,a) vp_strspn(s, a)
#define toupper(c) (((c) >= 'a' && (c) <= 'z') ? (c) - 32 : (c))
static size_t vp_strlcpy(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "the copy stays within its buffer");
    if (s != STR) G.bad = 1;
    BUFP = d;
    d[0] = s[0];
    return K.fits ? n - 1 : n + nd_range(0, 100);
}
static int vp_snprintf(char *p, size_t n)
{
    VP_ASSERT(p == ERRB && !K.errnull && n > 0 && n <= (size_t) K.errlen, "an error message stays within its buffer");
    return 1;
}
static int vp_same(const char *a, const char *b)
{
    int i;
    for (i = 0; i < 20; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
static int vp_strcasecmp(const char *a, const char *b)
{
    if (a != TK) G.bad = 1;
    return G.kind == 6 ? 1 : !vp_same(WORDS[G.kind], b);
}
/*  the next token: its kind, and what it asks for  */
static char * vp_strtok(char *s, const char *d)
{
    if (G.toks ? s != NULL : s != BUFP) G.bad = 1;
    if (G.toks && !G.left) G.bad = 1;
#if VP_OP == 1
    /*  the token before this one has been taken by now  */
    if (!G.toks) G.kind = 6;
    if (G.kind == 0) G.lk = 1;
    if (G.kind == 1) G.lk = 0;
    if (G.kind == 2) G.sn = 1;
    if (G.kind == 3) G.sn = 0;
    if (G.kind == 4) G.ts = 1;
    if (G.kind == 5) G.ts = 0;
#endif
    G.toks = 1;
#ifndef VP_PROVE
    VP_ASSUME(G.steps < 5);
    G.steps++;
#endif
    G.left = nd_bool();
    if (!G.left) return NULL;
    G.kind = nd_range(0, 6);
    return TK;
}
static int vp_sscanf(const char *s, const char *f, int *a, int *b, char *c, int *d)
{
    if (s != STR || !vp_same(f, "%d,%d%c%d")) G.bad = 1;
    if (K.n >= 1) *a = K.bps;
    if (K.n >= 2) *b = K.db;
    if (K.n >= 3) *c = K.par;
    if (K.n >= 4) *d = K.sb;
    return K.n;
}
/*  sets errno only when out of range, as the standard says  */
static long vp_strtol(const char *s, char **e, int b)
{
    if (s != TK + 2) G.bad = 1;
    *e = TK + (K.endok ? 5 : 4);
    if (K.range) VP.err = ERANGE;
    return K.val;
}
static int vp_isopt(int c) { return c == 'B' || c == 'b' || c == 'M' || c == 'm' || c == 'N' || c == 'n' || c == 'P' || c == 'p'; }
static size_t vp_strspn(const char *s, const char *a)
{
    if (s != TK || !vp_same(a, "BbMmNnPp")) G.bad = 1;
    return !vp_isopt(K.c0) ? 0 : !vp_isopt(K.c1) ? 1 : 2;
}
#if VP_OP == 2
static int process_test_opt(test_opt_t *o, const char *str, char *errbuf, int errlen)
{
    if (str != TK || o == &TO || errbuf != (K.errnull ? NULL : ERRB) || errlen != K.errlen) G.bad = 1;
    if (o->numBytes != G.o.numBytes || o->msecMax != G.o.msecMax || o->msecMin != G.o.msecMin || o->probability != G.o.probability) G.bad = 1;
    if (nd_bool()) { G.refused = 1; return -1; }
    switch (nd_range(0, 3)) {
        case 0: o->numBytes = G.o.numBytes = nd_range(0, 9); break;
        case 1: o->msecMax = G.o.msecMax = nd_range(0, 9); break;
        case 2: o->msecMin = G.o.msecMin = nd_range(0, 9); break;
        default: o->probability = G.o.probability = nd_range(0, 9); break;
    }
    return 0;
}
#endif
char * create_string(const char *s) { return TK; }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_COM (str == (K.null ? NULL : STR) && errbuf == (K.errnull ? NULL : ERRB) && errlen == K.errlen)
static const struct { int v; speed_t s; } RATE[19] = { {50, B50}, {75, B75}, {110, B110}, {134, B134}, {150, B150}, {200, B200}, {300, B300}, {600, B600}, {1200, B1200},
    {1800, B1800}, {2400, B2400}, {4800, B4800}, {9600, B9600}, {19200, B19200}, {38400, B38400}, {57600, B57600}, {115200, B115200}, {230400, B230400}, {460800, B460800} };
static speed_t vp_rate(int v)
{
    speed_t s = 0;
    int i;
    for (i = 0; i < 19; i++) if (RATE[i].v <= v) s = RATE[i].s;
    return s;
}
#define SER_BAD ((K.n >= 1 && K.bps < 50) || (K.n >= 2 && (K.db < 5 || K.db > 8)) || (K.n >= 3 && K.par != 'N' && K.par != 'n' && K.par != 'O' && K.par != 'o' && K.par != 'E' && K.par != 'e') || (K.n >= 4 && (K.sb < 1 || K.sb > 2)))
#define P_parse_serial_opts(R) R(P_COM && opts == &SO)
#define Q_parse_serial_opts(E) \
    E("serial options are refused if empty or out of range", (RV == 0 || RV == -1) && (RV == -1) == (K.null || K.empty || SER_BAD)) \
    E("refused, every option stays", VP_IMPLIES(RV == -1, SO.bps == K.so.bps && SO.databits == K.so.databits && SO.parity == K.so.parity && SO.stopbits == K.so.stopbits)) \
    E("the speed is the fastest standard one not above the value given", VP_IMPLIES(RV == 0, SO.bps == (K.n >= 1 ? G.kind : (int) K.so.bps))) \
    E("data bits, parity and stop bits are as given, or stay", VP_IMPLIES(RV == 0, SO.databits == (K.n >= 2 ? K.db : K.so.databits) && SO.stopbits == (K.n >= 4 ? K.sb : K.so.stopbits) \
        && SO.parity == (K.n < 3 ? K.so.parity : (K.par == 'N' || K.par == 'n') ? 0 : (K.par == 'O' || K.par == 'o') ? 1 : 2))) \
    E("the text is what was given", G.bad == 0)
#define P_parse_logfile_opts(R) R(P_COM && opts == &LO)
#define Q_parse_logfile_opts(E) \
    E("log options are refused if empty or too long", (RV == 0 || RV == -1) && (RV == -1) == (K.null || K.empty || !K.fits)) \
    E("refused, every option stays", VP_IMPLIES(RV == -1, LO.enableLock == (unsigned) K.lk && LO.enableSanitize == (unsigned) K.sn && LO.enableTimestamp == (unsigned) K.ts)) \
    E("each option is as last given, or stays", VP_IMPLIES(RV == 0, LO.enableLock == (unsigned) G.lk && LO.enableSanitize == (unsigned) G.sn && LO.enableTimestamp == (unsigned) G.ts)) \
    E("every option given is taken", VP_IMPLIES(RV == 0, G.left == 0) && G.bad == 0)
#define P_parse_test_opts(R) R(P_COM && opts == &TO)
#define Q_parse_test_opts(E) \
    E("test options are refused if too long or one is invalid", (RV == 0 || RV == -1) && (RV == -1) == (K.null || !K.fits || G.refused)) \
    E("refused, every option stays", VP_IMPLIES(RV == -1, TO.numBytes == K.to.numBytes && TO.msecMax == K.to.msecMax && TO.msecMin == K.to.msecMin && TO.probability == K.to.probability)) \
    E("every option given is taken", VP_IMPLIES(RV == 0, G.left == 0 && TO.numBytes == G.o.numBytes && TO.msecMax == G.o.msecMax && TO.msecMin == G.o.msecMin && TO.probability == G.o.probability) && G.bad == 0)
#define TST_BAD (!vp_isopt(K.c0) || K.c1 != ':' || !K.endok || K.range || K.val < 0 || K.val > INT_MAX)
/*  known_findings.txt: a valid option met with ERANGE left in errno is refused */
#define KNOWN_1 (RV == -1 && K.stale == ERANGE)
#define P_process_test_opt(R) R(errbuf == (K.errnull ? NULL : ERRB) && errlen == K.errlen && opts == &TO && str == TK)
#define Q_process_test_opt(E) \
    E("a test option is refused exactly if its letter or value is invalid", (RV == 0 || RV == -1) && ((RV == -1) == (G.kind != 0) || KNOWN_1)) \
    E("the option given takes the value given; the others stay", \
        TO.numBytes == (RV == 0 && (K.c0 == 'B' || K.c0 == 'b') ? (int) K.val : K.to.numBytes) && TO.msecMax == (RV == 0 && (K.c0 == 'M' || K.c0 == 'm') ? (int) K.val : K.to.msecMax) \
        && TO.msecMin == (RV == 0 && (K.c0 == 'N' || K.c0 == 'n') ? (int) K.val : K.to.msecMin) && TO.probability == (RV == 0 && (K.c0 == 'P' || K.c0 == 'p') ? (K.val > 100 ? 100 : (int) K.val) : K.to.probability)) \
    E("the text is what was given", G.bad == 0)
#define VPF VP_ASSIGNS(SO, LO, TO, G, VP, BUFP)
#if VP_OP == 0
int parse_serial_opts(seropt_t *opts, const char *str, char *errbuf, int errlen) VP_REQ(P_parse_serial_opts) VPF VP_ENS(Q_parse_serial_opts);
#include "server-serial.c"
#elif VP_OP == 1
int parse_logfile_opts(logopt_t *opts, const char *str, char *errbuf, int errlen) VP_REQ(P_parse_logfile_opts) VPF VP_ENS(Q_parse_logfile_opts);
#include "server-logfile.c"
#else
int parse_test_opts(test_opt_t *opts, const char *str, char *errbuf, int errlen) VP_REQ(P_parse_test_opts) VPF VP_ENS(Q_parse_test_opts);
static int process_test_opt(test_opt_t *opts, const char *str, char *errbuf, int errlen)
#if VP_OP == 3
    VP_REQ(P_process_test_opt) VPF VP_ENS(Q_process_test_opt)
#endif
    ;
#include "server-test.c"
#endif
#define CALL(f, args) { int vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); if (vp_rv == 0) VP_REACH("accepted"); else VP_REACH("refused"); }

void harness(void)
{
    char *errbuf;
    const char *str;
    int errlen;

    K.n = nd_range(-1, 4); K.bps = nd_int(); K.db = nd_int(); K.sb = nd_int(); K.par = nd_pick("NnOoEex");
    K.null = nd_bool(); K.empty = nd_bool(); K.fits = nd_bool(); K.errnull = nd_bool(); K.errlen = nd_range(-1, 80);
    K.c0 = nd_pick("BbMmNnPpx"); K.c1 = nd_pick(":::bx"); K.endok = nd_bool(); K.range = nd_bool(); K.val = vp_nd_range(LONG_MIN, LONG_MAX);
    if (K.n < 4 && nd_bool()) K.n = 4;
    if (nd_bool()) { K.db = nd_range(4, 9); K.sb = nd_range(0, 3); }
    if (nd_bool()) { K.val = nd_range(-1, 120); K.range = 0; K.endok = 1; }
    K.lk = nd_bool(); K.sn = nd_bool(); K.ts = nd_bool(); K.stale = nd_range(0, 130);
    if (nd_bool()) K.stale = ERANGE;
    VP.held = 0; VP.err = K.stale;
    memset(&G, 0, sizeof(G));
    G.kind = 0; BUFP = NULL;
    G.lk = LO.enableLock = K.lk; G.sn = LO.enableSanitize = K.sn; G.ts = LO.enableTimestamp = K.ts;
    K.so.bps = nd_uint(); K.so.databits = nd_int(); K.so.parity = nd_int(); K.so.stopbits = nd_int();
    SO = K.so;
    K.to.numBytes = nd_int(); K.to.msecMax = nd_int(); K.to.msecMin = nd_int(); K.to.probability = nd_int();
    TO = K.to; G.o = K.to;
    STR[0] = K.empty ? 0 : 'x'; STR[1] = 0;
    TK[0] = K.c0; TK[1] = K.c1; TK[2] = TK[3] = TK[4] = '1'; TK[5] = 0;
    str = K.null ? NULL : STR; errbuf = K.errnull ? NULL : ERRB; errlen = K.errlen;
#if VP_OP == 0
    seropt_t *opts = &SO;
    G.kind = vp_rate(K.bps);
    CALL(parse_serial_opts, (opts, str, errbuf, errlen))
#elif VP_OP == 1
    logopt_t *opts = &LO;
    CALL(parse_logfile_opts, (opts, str, errbuf, errlen))
#elif VP_OP == 2
    test_opt_t *opts = &TO;
    CALL(parse_test_opts, (opts, str, errbuf, errlen))
#else
    test_opt_t *opts = &TO;
    str = TK;
    G.kind = TST_BAD;
    CALL(process_test_opt, (opts, str, errbuf, errlen))
#endif
}
