/*VP
{ "properties": ["C20"],
  "sources": ["server-serial.c"],
  "enforce": ["create_serial_obj", "create_telnet_obj", "create_process_obj", "create_unixsock_obj", "create_test_obj", "create_ipmi_obj", "create_logfile_obj"],
  "unwind": 3, "bound_unwind": 6, "backends": ["sat", "z3"], "timeout": 150,
  "bound_text": "at most 4 configured objects, at most 4 arguments",
  "assumptions": ["a program has fewer than 64 arguments", "create_process_obj: the members of aux_obj_t are laid side by side, as it uses only one of them (the bounded run uses the real union)"],
  "trusted": ["strcmp, strchr, strrchr, strlen, snprintf, calloc (C standard)", "list operations (discharged in list_*)", "create_obj, create_string, inevent_add"],
  "per": {
    "create_telnet_obj": {"sources": ["server-telnet.c"]},
    "create_process_obj": {"sources": ["server-process.c"]},
    "create_unixsock_obj": {"sources": ["server-unixsock.c"]},
    "create_test_obj": {"sources": ["server-test.c"]},
    "create_ipmi_obj": {"sources": ["server-ipmi.c"]},
    "create_logfile_obj": {"sources": ["server-logfile.c"]} },
  "loops": [
   {"file": "server-serial.c", "func": "create_serial_obj", "nth": 0, "count": 1, "locals": ["serial"], "assigns": "serial, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-telnet.c", "func": "create_telnet_obj", "nth": 0, "count": 1, "locals": ["telnet"], "assigns": "telnet, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-process.c", "func": "create_process_obj", "nth": 0, "count": 2, "locals": ["process"], "assigns": "process, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-process.c", "func": "create_process_obj", "nth": 1, "count": 2, "locals": ["n", "arg"], "assigns": "n, arg, __CPROVER_object_whole(AV), G.pops, N.aux.process.argv", "ghost": "VP_PIN(N.aux.process.argv, AV);",
     "invariant": ["N.aux.process.argv == AV && 0 <= n && n <= K.na && G.pops == n && VP_IMPLIES(K.j < n, AV[K.j] == AS + K.j) && VP_IMPLIES(n > 0, AV[0] == AS)"]},
   {"file": "server-unixsock.c", "func": "create_unixsock_obj", "nth": 0, "count": 1, "locals": ["unixsock"], "assigns": "unixsock, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-test.c", "func": "create_test_obj", "nth": 0, "count": 1, "locals": ["test"], "assigns": "test, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-ipmi.c", "func": "create_ipmi_obj", "nth": 0, "count": 1, "locals": ["ipmi"], "assigns": "ipmi, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-logfile.c", "func": "create_logfile_obj", "nth": 0, "count": 2, "locals": ["logfile"], "assigns": "logfile, NA, G, VP", "invariant": ["VP_WALK"]},
   {"file": "server-logfile.c", "func": "create_logfile_obj", "nth": 1, "count": 2, "locals": ["obj"], "assigns": "obj, NA, G, VP", "invariant": ["VP_WALK2"]} ]
}
*/
#define TELOPTS
#define TELCMDS
#include "vp.h"
#include "common.h"
#include "list.h"
#include "tpoll.h"
#include <netinet/in.h>
#include <pthread.h>
#include <termios.h>
#include <time.h>
#if VP_OP == 2 && defined(VP_PROVE)
#define union struct    /* the members of aux_obj_t side by side: this function uses only aux.process */
#endif
#include "server.h"
#undef union
#include "inevent.h"
#include "list.h"

tpoll_t tp_global;
obj_t T, NA, N, CON;
server_conf_t C;
#define AMAX 64
char AS[AMAX], *AV[AMAX + 1];
/*  names, by identity: the new object's, the tracked object's, another's  */
char NM[8], DV[8], TN[8], TD[8], ON[8], OD[8], CN[8], ERRB[80], ITB[1], LSB[2], FMTD[2], NC[2], DC[2];
struct {
    int has, type, samename, samedev;   /* an arbitrary configured object    */
    int port, na, j, dl, fmt, fr, lim;
    int errnull, errlen, keep, zero;
} K;
struct {
    int pops, bad, iters, seen, oth, made, appended, inserted, fd, type, dev, walks, steps, incon;
    unsigned cur;                       /* type of the other object at hand  */
} G;
char *BUFP;                             /* where an expanded name is        */
#if VP_OP == 6
#define VP_TDUP (K.has && K.type == CONMAN_OBJ_LOGFILE && K.samename)
#elif VP_OP == 0
#define VP_TDUP (K.has && (((K.type & CONMAN_OBJ_IS_CONSOLE) && K.samename) || (K.type == CONMAN_OBJ_SERIAL && K.samedev)))
#elif VP_OP == 3
#define VP_TDUP (K.has && (((K.type & CONMAN_OBJ_IS_CONSOLE) && K.samename) || (K.type == CONMAN_OBJ_UNIXSOCK && K.samedev)))
#elif VP_OP == 5
#define VP_TDUP (K.has && (((K.type & CONMAN_OBJ_IS_CONSOLE) && K.samename) || (K.type == CONMAN_OBJ_IPMI && K.samedev)))
#else
#define VP_TDUP (K.has && (K.type & CONMAN_OBJ_IS_CONSOLE) && K.samename)
#endif
#define VP_WALK (G.iters == 1 && G.walks == 1 && G.incon == 0 && G.pops == 0 && G.oth == 0 && G.bad == 0 && G.made == 0 && G.appended == 0 && G.inserted == 0 && (G.seen == 0 || (G.seen == 1 && K.has && !VP_TDUP)))
#define VP_WALK2 (G.iters == 1 && G.walks == 2 && G.oth == 0 && G.bad == 0 && G.made == 1 && G.appended == 0 && G.inserted == 0 && G.incon == 0 && G.fd == -1 && G.type == CONMAN_OBJ_LOGFILE)
#undef strcmp
#undef strchr
#undef strrchr
#undef strlen
#undef snprintf
#undef calloc
#undef free
#define strcmp(a,b) vp_strcmp(a, b)
#define strlen(a) vp_strlen(a)
#define snprintf(p,n,...) vp_snprintf(p, n)
#define calloc(a,b) vp_calloc(a, b)
static int vp_strcmp(const char *a, const char *b)
{
    const char *o, *n;
    int r;

    /*  either order  */
    if (b == NM || b == DV || b == BUFP) { n = b; o = a; } else { n = a; o = b; }
#if VP_OP == 6
    if (n != (K.fmt && K.fr >= 0 ? BUFP : NM)) G.bad = 1;
    if (o == TN) { return K.samename ? 0 : 1; }
    if (o != ON) G.bad = 1;
    r = nd_bool();
    if (!r && G.cur == CONMAN_OBJ_LOGFILE) G.oth = 1;
    return r;
#else
    if (o == TN && n == NM) return K.samename ? 0 : 1;
    if (o == TD && n == DV) return K.samedev ? 0 : -1;
    if (!(o == ON && n == NM) && !(o == OD && n == DV)) G.bad = 1;
    r = nd_bool();
    if (!r && (o == ON ? (G.cur & CONMAN_OBJ_IS_CONSOLE) : (VP_OP == 0 && G.cur == CONMAN_OBJ_SERIAL) || (VP_OP == 3 && G.cur == CONMAN_OBJ_UNIXSOCK) || (VP_OP == 5 && G.cur == CONMAN_OBJ_IPMI))) G.oth = 1;
    return r;
#endif
}
static size_t vp_strlen(const char *s) { if (s != DV) G.bad = 1; return K.dl; }
static int vp_snprintf(char *p, size_t n)
{
    VP_ASSERT(p == ERRB && !K.errnull && n > 0 && n <= (size_t) K.errlen, "an error message stays within its buffer");
    return 1;
}
#define strchr(s,c) (((s) != NM || (c) != '%') ? (G.bad = 1, (char *) NULL) : K.fmt ? NM : (char *) NULL)
#define strrchr(s,c) vp_strrchr(s, c)
static char *vp_strrchr(char *s, int c) { if (s != AS || c != '/') G.bad = 1; return K.fmt ? AS + 7 : NULL; }
static void *vp_calloc(size_t n, size_t m)
{
    int i;
    if (n < (size_t) K.na + 1 || m != sizeof(char *)) G.bad = 1;
#ifndef VP_PROVE
    for (i = 0; i < 8; i++) AV[i] = NULL;
#endif
    (void) i;
    return AV;
}
ListIterator list_iterator_create(List l)
{
    if (l != (List) LSB || G.iters) G.bad = 1;
    G.iters = 1; G.walks++; G.seen = 0; G.incon = 0; G.steps = 0;
    return (ListIterator) ITB;
}
void list_iterator_destroy(ListIterator i) { if (i != (ListIterator) ITB || G.iters != 1) G.bad = 1; G.iters = 0; }
void * list_next(ListIterator i)
{
    static const unsigned types[8] = { 1, 2, 4, 8, 16, 32, 64, 128 };

    if (i != (ListIterator) ITB || !G.iters || G.incon) G.bad = 1;
#ifndef VP_PROVE
    VP_ASSUME(G.steps < 4);
    G.steps++;
#endif
    if (G.walks == 2 && nd_bool()) { G.incon = 1; return &CON; }
    if (nd_bool()) {
        /*  one of the others  */
        NA.type = G.cur = types[nd_range(0, 7)];
        NA.name = ON;
#if VP_OP == 0
        NA.aux.serial.dev = OD;
#elif VP_OP == 3
        NA.aux.unixsock.dev = OD;
#elif VP_OP == 5
        NA.aux.ipmi.host = OD;
#elif VP_OP == 6
        NA.aux.logfile.console = &CON;
#endif
        return &NA;
    }
    if (K.has && !G.seen) { G.seen = 1; return &T; }
    /*  the console a log is made for is in the list  */
    if (G.walks == 2) { G.incon = 1; return &CON; }
    return NULL;
}
void * list_append(List l, void *x) { if (l != (List) LSB || x != &N || !G.made) G.bad = 1; G.appended++; return x; }
void * list_insert(ListIterator i, void *x) { if (i != (ListIterator) ITB || x != &N || !G.incon) G.bad = 1; G.inserted++; return x; }
int list_count(List l) { if (l != (List) FMTD) G.bad = 1; return K.na; }
void * list_pop(List l) { if (l != (List) FMTD) G.bad = 1; return G.pops < K.na ? AS + G.pops++ : NULL; }
int format_obj_string(char *buf, int n, obj_t *obj, const char *fmt)
{
    VP_ASSERT(VP_W_OK(buf, n), "an expanded name stays within its buffer");
    if (obj != &CON || fmt != NM) G.bad = 1;
    BUFP = buf;
    return K.fr;
}
char * create_string(const char *s) { if (s == NM) return NC; if (s != DV) G.bad = 1; return DC; }
obj_t * create_obj(server_conf_t *conf, char *name, int fd, enum obj_type type)
{
#if VP_OP == 6
    VP_ASSERT(name == (K.fmt && K.fr >= 0 ? BUFP : NM), "the log is named by what later definitions are compared with");
#else
    VP_ASSERT(name == NM, "the console has the name given");
#endif
    if (conf != &C) G.bad = 1;
    G.fd = fd; G.type = type; G.made++;
    N.fd = fd; N.type = type; N.name = NC;
    return &N;
}
int inevent_add(const char *path, inevent_cb_f cb, void *arg) { if (path != DC || arg != &N) G.bad = 1; return nd_range(-1, 0); }
void out_of_memory_(void) { }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define VP_DUP (VP_TDUP || G.oth)
#define VP_COM(E_, ty) \
    E_("a definition that conflicts with a configured console is refused", VP_IMPLIES(K.has && VP_TDUP, RV == NULL)) \
    E_("a definition without a conflict is accepted", VP_IMPLIES(RV == NULL, VP_REFUSE || VP_DUP)) \
    E_("a refused definition adds nothing", VP_IMPLIES(RV == NULL, !G.made && !G.appended && !G.inserted)) \
    E_("an accepted one is added once, closed", VP_IMPLIES(RV != NULL, RV == &N && G.made == 1 && G.fd == -1 && G.type == (ty) && N.fd == -1 && (ty == CONMAN_OBJ_LOGFILE ? G.inserted == 1 && !G.appended : G.appended == 1 && !G.inserted))) \
    E_("configured objects are not touched", G.iters == 0 && G.bad == 0 && T.name == TN && T.type == (unsigned) K.type)
#define VP_ERRP (conf == &C && name == NM && errbuf == (K.errnull ? NULL : ERRB) && errlen == K.errlen)
#if VP_OP == 1
#define VP_REFUSE (K.port <= 0)
#elif VP_OP == 3
#define VP_REFUSE (K.dl > (int) sizeof(((struct sockaddr_un *) 0)->sun_path) - 1)
#else
#define VP_REFUSE 0
#endif
#define VP_NEW(x) VP_IMPLIES(RV != NULL, x)
#define P_create_serial_obj(R) R(VP_ERRP && dev == DV && opts == &C.globalSerOpts)
#define Q_create_serial_obj(E) VP_COM(E, CONMAN_OBJ_SERIAL) \
    E("it has its device and options, and no log yet", VP_NEW(N.aux.serial.dev == DC && N.aux.serial.logfile == NULL && N.aux.serial.opts.bps == C.globalSerOpts.bps && N.aux.serial.opts.databits == C.globalSerOpts.databits && N.aux.serial.opts.parity == C.globalSerOpts.parity && N.aux.serial.opts.stopbits == C.globalSerOpts.stopbits))
#define P_create_telnet_obj(R) R(VP_ERRP && host == DV && port == K.port)
#define Q_create_telnet_obj(E) VP_COM(E, CONMAN_OBJ_TELNET) \
    E("it is down, with its host and port, the shortest delay, no timer and no log", VP_NEW(N.aux.telnet.host == DC && N.aux.telnet.port == K.port && N.aux.telnet.logfile == NULL && N.aux.telnet.timer == -1 && N.aux.telnet.delay == TELNET_MIN_TIMEOUT && N.aux.telnet.iac == -1 && N.aux.telnet.state == CONMAN_TELNET_DOWN && N.aux.telnet.enableKeepAlive == (unsigned) K.keep)) \
    E("an invalid port is refused", VP_IMPLIES(K.port <= 0, RV == NULL))
#define P_create_process_obj(R) R(VP_ERRP && args == (List) FMTD)
#define Q_create_process_obj(E) VP_COM(E, CONMAN_OBJ_PROCESS) \
    E("it is down, with the shortest delay, no timer, no process and no log", VP_NEW(N.aux.process.timer == -1 && N.aux.process.delay == PROCESS_MIN_TIMEOUT && N.aux.process.pid == -1 && N.aux.process.logfile == NULL && N.aux.process.state == CONMAN_PROCESS_DOWN && N.aux.process.tStart == 0)) \
    E("it has its program and arguments, all of them in order", VP_NEW(N.aux.process.argv == AV && G.pops == K.na && AV[K.j] == (K.j < K.na ? AS + K.j : NULL) && N.aux.process.prog == (K.fmt ? AS + 8 : AS)))
#define P_create_unixsock_obj(R) R(VP_ERRP && !K.errnull && K.errlen > 0 && dev == DV)
#define Q_create_unixsock_obj(E) VP_COM(E, CONMAN_OBJ_UNIXSOCK) \
    E("it is down, with its device, the shortest delay, no timer and no log", VP_NEW(N.aux.unixsock.dev == DC && N.aux.unixsock.logfile == NULL && N.aux.unixsock.timer == -1 && N.aux.unixsock.state == CONMAN_UNIXSOCK_DOWN && N.aux.unixsock.isViaInotify == 0 && N.aux.unixsock.delay == UNIXSOCK_MIN_TIMEOUT)) \
    E("a name that does not fit is refused", VP_IMPLIES(VP_REFUSE, RV == NULL))
#define P_create_test_obj(R) R(VP_ERRP && opts == &C.globalTestOpts)
#define Q_create_test_obj(E) VP_COM(E, CONMAN_OBJ_TEST) \
    E("it has its options, no timer and no log", VP_NEW(N.aux.test.logfile == NULL && N.aux.test.timer == -1 && N.aux.test.numLeft == 0 && N.aux.test.opts.numBytes == C.globalTestOpts.numBytes))
#define P_create_ipmi_obj(R) R(VP_ERRP && iconf == &C.globalIpmiOpts && host == DV)
#define Q_create_ipmi_obj(E) VP_COM(E, CONMAN_OBJ_IPMI) \
    E("it is down, with its host, the shortest delay, no session, no timer and no log", VP_NEW(N.aux.ipmi.host == DC && N.aux.ipmi.ctx == NULL && N.aux.ipmi.logfile == NULL && N.aux.ipmi.timer == -1 && N.aux.ipmi.state == CONMAN_IPMI_DOWN && N.aux.ipmi.delay == IPMI_MIN_TIMEOUT)) \
    E("IPMI consoles are counted", C.numIpmiObjs == K.na + (RV != NULL))
#define P_create_logfile_obj(R) R(VP_ERRP && console == &CON && opts == &C.globalLogOpts)
#define VP_LG(o) VP_IMPLIES(CON.type == o, 1)
#define Q_create_logfile_obj(E) VP_COM(E, CONMAN_OBJ_LOGFILE) \
    E("it belongs to its console, with its options", VP_NEW(N.aux.logfile.console == &CON && N.aux.logfile.opts.enableLock == C.globalLogOpts.enableLock && N.aux.logfile.opts.enableSanitize == C.globalLogOpts.enableSanitize && N.aux.logfile.opts.enableTimestamp == C.globalLogOpts.enableTimestamp)) \
    E("it is truncated on first open only if so configured", VP_NEW(N.aux.logfile.gotTruncate == (unsigned) K.zero)) \
    E("its text is processed only if so configured, from the start of a line", VP_NEW(N.aux.logfile.gotProcessing == (C.globalLogOpts.enableSanitize || C.globalLogOpts.enableTimestamp) && N.aux.logfile.lineState == CONMAN_LOG_LINE_INIT)) \
    E("a name template is kept for when it is reopened", VP_NEW(N.aux.logfile.fmtName == (K.fmt ? NC : NULL))) \
    E("its console has it as its log", VP_NEW((CON.type == CONMAN_OBJ_PROCESS ? CON.aux.process.logfile : CON.type == CONMAN_OBJ_SERIAL ? CON.aux.serial.logfile : CON.type == CONMAN_OBJ_TELNET ? CON.aux.telnet.logfile \
        : CON.type == CONMAN_OBJ_UNIXSOCK ? CON.aux.unixsock.logfile : CON.type == CONMAN_OBJ_IPMI ? CON.aux.ipmi.logfile : CON.aux.test.logfile) == &N))
#define VPF VP_ASSIGNS(N, NA, BUFP, CON.aux, C.numIpmiObjs, __CPROVER_object_whole(AV), G, VP)
#if VP_OP == 0
obj_t * create_serial_obj(server_conf_t *conf, char *name, char *dev, seropt_t *opts, char *errbuf, int errlen) VP_REQ(P_create_serial_obj) VPF VP_ENS(Q_create_serial_obj);
#include "server-serial.c"
#elif VP_OP == 1
obj_t * create_telnet_obj(server_conf_t *conf, char *name, char *host, int port, char *errbuf, int errlen) VP_REQ(P_create_telnet_obj) VPF VP_ENS(Q_create_telnet_obj);
#include "server-telnet.c"
#elif VP_OP == 2
obj_t * create_process_obj(server_conf_t *conf, char *name, List args, char *errbuf, int errlen) VP_REQ(P_create_process_obj) VPF VP_ENS(Q_create_process_obj);
#include "server-process.c"
#elif VP_OP == 3
obj_t * create_unixsock_obj(server_conf_t *conf, char *name, char *dev, char *errbuf, int errlen) VP_REQ(P_create_unixsock_obj) VPF VP_ENS(Q_create_unixsock_obj);
#include "server-unixsock.c"
#elif VP_OP == 4
obj_t * create_test_obj(server_conf_t *conf, char *name, test_opt_t *opts, char *errbuf, int errlen) VP_REQ(P_create_test_obj) VPF VP_ENS(Q_create_test_obj);
#include "server-test.c"
#elif VP_OP == 5
obj_t * create_ipmi_obj(server_conf_t *conf, char *name, ipmiopt_t *iconf, char *host, char *errbuf, int errlen) VP_REQ(P_create_ipmi_obj) VPF VP_ENS(Q_create_ipmi_obj);
#include "server-ipmi.c"
#else
obj_t * create_logfile_obj(server_conf_t *conf, char *name, obj_t *console, logopt_t *opts, char *errbuf, int errlen) VP_REQ(P_create_logfile_obj) VPF VP_ENS(Q_create_logfile_obj);
#include "server-logfile.c"
#endif
#define CALL(f, args) { obj_t *vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); if (vp_rv) VP_REACH("added"); else VP_REACH("refused"); }

void harness(void)
{
    server_conf_t *conf = &C;
    char *name = NM, *errbuf, *dev = DV, *host = DV;
    int errlen, port, i;
    static const unsigned types[8] = { 1, 2, 4, 8, 16, 32, 64, 128 };

    K.has = nd_bool(); K.samename = nd_bool(); K.samedev = nd_bool(); K.type = types[nd_range(0, 7)];
    K.port = nd_range(-2, 70000); K.na = nd_range(1, VP_LIM(AMAX - 1, 4)); K.j = nd_range(0, K.na);
    K.dl = nd_range(0, 300); K.fmt = nd_bool(); K.fr = nd_range(-1, 20);
    K.errnull = nd_bool(); K.errlen = nd_range(0, 80); K.keep = nd_bool(); K.zero = nd_bool();
    if (VP_OP == 3) { K.errnull = 0; if (!K.errlen) K.errlen = 1; }
    G.pops = G.bad = G.iters = G.seen = G.oth = G.made = G.appended = G.inserted = G.walks = G.steps = G.incon = 0;
    G.fd = 0; G.type = 0; G.cur = 0; BUFP = NULL;
    VP.held = VP.err = 0;
    T.type = K.type; T.name = TN;
#if VP_OP == 0
    T.aux.serial.dev = TD;
#elif VP_OP == 3
    T.aux.unixsock.dev = TD;
#elif VP_OP == 5
    T.aux.ipmi.host = TD;
#elif VP_OP == 6
    T.aux.logfile.console = &CON;
#endif
    C.objs = (List) LSB;
    C.enableKeepAlive = K.keep; C.enableZeroLogs = K.zero; C.numIpmiObjs = K.na;
    C.globalSerOpts.bps = nd_uint(); C.globalSerOpts.databits = nd_range(5, 8); C.globalSerOpts.parity = nd_range(0, 2); C.globalSerOpts.stopbits = nd_range(1, 2);
    C.globalLogOpts.enableLock = nd_bool(); C.globalLogOpts.enableSanitize = nd_bool(); C.globalLogOpts.enableTimestamp = nd_bool();
    C.globalTestOpts.numBytes = nd_int();
    CON.name = CN; CON.type = types[nd_range(2, 7)];
    errbuf = K.errnull ? NULL : ERRB; errlen = K.errlen; port = K.port;
    (void) i; (void) dev; (void) host; (void) port; (void) name;
#if VP_OP == 0
    seropt_t *opts = &C.globalSerOpts;
    CALL(create_serial_obj, (conf, name, dev, opts, errbuf, errlen))
#elif VP_OP == 1
    CALL(create_telnet_obj, (conf, name, host, port, errbuf, errlen))
#elif VP_OP == 2
    List args = (List) FMTD;
    CALL(create_process_obj, (conf, name, args, errbuf, errlen))
#elif VP_OP == 3
    CALL(create_unixsock_obj, (conf, name, dev, errbuf, errlen))
#elif VP_OP == 4
    test_opt_t *opts = &C.globalTestOpts;
    CALL(create_test_obj, (conf, name, opts, errbuf, errlen))
#elif VP_OP == 5
    ipmiopt_t *iconf = &C.globalIpmiOpts;
    CALL(create_ipmi_obj, (conf, name, iconf, host, errbuf, errlen))
#else
    obj_t *console = &CON;
    logopt_t *opts = &C.globalLogOpts;
    CALL(create_logfile_obj, (conf, name, console, opts, errbuf, errlen))
#endif
}
