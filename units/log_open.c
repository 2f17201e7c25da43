/*VP
{ "properties": ["C25"],
  "sources": ["server-logfile.c"],
  "enforce": ["open_logfile_obj", "get_console_logfile_obj"],
  "unwind": 2, "backends": ["sat", "z3"], "timeout": 150,
  "trusted": ["open, close: any result", "get_dir_name, create_dirs, get_write_lock, set_fd_* (C25: file_dirs)", "format_obj_string (C17: obj_format)", "write_obj_data (C03: obj_write)", "create_string, create_format_string, create_long_time_string return fresh strings"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"
#include "util-file.h"
#include "log.h"

tpoll_t tp_global;
obj_t L, CON;
char NAME[8], NEWN[8], FMT[4], CN[4], NOW[4], MSG[4], *BUFP, *DIRP;
#define VP_FD 9                         /* the new descriptor               */
#define VP_OLD 5
struct { int had, fmt, trunc, lock, type, lfd; } K;
struct {
    int oldopen, oldev, isopen, opens, flags, lockok, nonblock, cloexec, bad, expanded, oldname, dirs, now, msg, wrote, order;
    const char *opened;
} G;
#undef free
#undef strlen
#define free(p) vp_free(p)
#define close(fd) vp_close(fd)
#define open(p,...) vp_open(p, __VA_ARGS__)
#define strlen(s) vp_strlen(s)
#define create_format_string(...) (G.msg++, MSG)
static size_t vp_strlen(const char *s) { if (s != MSG || G.msg != 1) G.bad = 1; return 3; }
int tpoll_clear(tpoll_t tp, int fd, short int ev)
{
    if (fd != VP_OLD || !G.oldopen) G.bad = 1;
    if (ev & POLLOUT) G.oldev = 0;
    return 0;
}
static int vp_close(int fd)
{
    if (fd == VP_OLD && G.oldopen && !G.oldev) G.oldopen = 0;
    else if (fd == VP_FD && G.isopen) G.isopen = 0;
    else G.bad = 1;
    if (nd_bool()) return 0;
    VP.err = nd_range(1, 130);
    return -1;
}
static int vp_open(const char *p, int flags, int mode)
{
    if (G.isopen || G.oldopen) G.bad = 1;
    /*  the name is complete before use, and its directory is made first  */
    if (p != L.name) G.bad = 1;
    G.opens++; G.flags = flags; G.opened = p;
    if (nd_bool()) { VP.err = nd_range(1, 130); return -1; }
    G.isopen = 1; G.lockok = 0; G.cloexec = (flags & O_CLOEXEC) != 0; G.nonblock = (flags & O_NONBLOCK) != 0;
    return VP_FD;
}
int format_obj_string(char *buf, int n, obj_t *obj, const char *fmt)
{
    VP_ASSERT(VP_W_OK(buf, n), "an expanded name stays within its buffer");
    if (obj != &CON || fmt != FMT) G.bad = 1;
    BUFP = buf;
    if (nd_bool()) return -1;
    G.expanded = 1;
    return 1;
}
char * create_string(const char *s) { if (s != BUFP || !G.expanded) G.bad = 1; return NEWN; }
static void vp_free(void *p)
{
    if (p == NAME) { if (!G.expanded) G.bad = 1; G.oldname--; }
    else if (p == NOW) G.now--;
    else if (p == MSG) G.msg--;
    else if (p) G.bad = 1;
}
char * get_dir_name(const char *s, char *d, size_t n)
{
    VP_ASSERT(VP_W_OK(d, n), "a directory name stays within its buffer");
    if (s != L.name) G.bad = 1;
    DIRP = d;
    return nd_bool() ? d : NULL;
}
int create_dirs(const char *d) { if (d != DIRP || G.opens) G.bad = 1; G.dirs++; return nd_range(-1, 0); }
int get_write_lock(int fd)
{
    if (fd != VP_FD || !G.isopen) G.bad = 1;
    if (nd_bool()) return -1;
    G.lockok = 1;
    return 0;
}
void set_fd_nonblocking(int fd) { if (fd != VP_FD || !G.isopen) G.bad = 1; G.nonblock = 1; }
void set_fd_closed_on_exec(int fd) { if (fd != VP_FD || !G.isopen) G.bad = 1; G.cloexec = 1; }
char * create_long_time_string(time_t t) { G.now++; return NOW; }
int write_obj_data(obj_t *o, const void *s, int n, int info)
{
    if (o != &L || s != MSG || G.msg != 1 || n != 3 || L.fd != VP_FD || !G.isopen) G.bad = 1;
    if (L.gotEOF) G.bad = 1;
    G.wrote++;
    L.aux.logfile.lineState = nd_range(0, 3);
    return n;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define LG L.aux.logfile
#define VP_NM ((K.fmt && G.expanded) ? NEWN : NAME)
#define P_open_logfile_obj(R) R(logfile == &L)
#define Q_open_logfile_obj(E) \
    E("it succeeds exactly if the log ends up open", (RV == 0 || RV == -1) && (RV == 0) == (L.fd >= 0) && (RV == 0) == (G.isopen == 1)) \
    E("the log's descriptor is the one opened", L.fd == (RV == 0 ? VP_FD : -1)) \
    E("the earlier descriptor was closed, out of the poll set", G.oldopen == 0) \
    E("earlier output is kept: a log is opened for appending", VP_IMPLIES(G.opens, (G.flags & O_APPEND) && (G.flags & O_ACCMODE) == O_WRONLY && (G.flags & O_CREAT) && !(G.flags & O_EXCL))) \
    E("a log is truncated only if asked, and only on the first open", VP_IMPLIES(G.opens, !!(G.flags & O_TRUNC) == K.trunc) && L.aux.logfile.gotTruncate == (unsigned) (G.opens ? 0 : K.trunc)) \
    E("it is opened once, by its expanded name", G.opens <= 1 && (G.opens == 1) == (!K.fmt || G.expanded) && VP_IMPLIES(G.opens, G.opened == VP_NM)) \
    E("its name is the expansion of its template", L.name == VP_NM && G.oldname == ((K.fmt && G.expanded) ? 0 : 1)) \
    E("it is locked if so configured, and not used otherwise", VP_IMPLIES(RV == 0 && K.lock, G.lockok)) \
    E("it does not block and is not inherited", VP_IMPLIES(RV == 0, G.nonblock && G.cloexec)) \
    E("it starts with a note, on a fresh line", VP_IMPLIES(RV == 0, G.wrote == 1 && LG.lineState == CONMAN_LOG_LINE_INIT && L.gotEOF == 0) && VP_IMPLIES(RV != 0, !G.wrote)) \
    E("nothing else is opened, closed or freed", G.bad == 0 && G.now == 0 && G.msg == 0) \
    E("its console and options stay", LG.console == &CON && LG.fmtName == (K.fmt ? FMT : NULL) && LG.opts.enableLock == (unsigned) K.lock)
#define P_get_console_logfile_obj(R) R(console == &CON)
#define Q_get_console_logfile_obj(E) \
    E("a console's log is used only while it is open", RV == (K.had && K.lfd >= 0 ? &L : NULL)) \
    E("nothing changes", L.fd == K.lfd && CON.type == (unsigned) K.type)
#ifndef VP_OP
#define VP_OP 0
#endif
int open_logfile_obj(obj_t *logfile) VP_REQ(P_open_logfile_obj) VP_ASSIGNS(L, G, VP, BUFP, DIRP) VP_ENS(Q_open_logfile_obj);
obj_t * get_console_logfile_obj(obj_t *console) VP_REQ(P_get_console_logfile_obj) VP_ASSIGNS(G, VP) VP_ENS(Q_get_console_logfile_obj);
#include "server-logfile.c"

void harness(void)
{
    static const unsigned types[8] = { 1, 2, 4, 8, 16, 32, 64, 128 };
    obj_t *logfile = &L, *console = &CON, *lg;

    K.had = nd_bool(); K.fmt = nd_bool(); K.trunc = nd_bool(); K.lock = nd_bool();
    K.type = types[nd_range(2, 7)]; K.lfd = nd_range(-1, 100);
    VP.held = VP.err = 0;
    memset(&G, 0, sizeof(G));
    G.oldname = 1; BUFP = DIRP = NULL;
    NAME[0] = NEWN[0] = 47; NAME[1] = NEWN[1] = 110;
    L.type = CONMAN_OBJ_LOGFILE; L.name = NAME; L.gotEOF = nd_bool();
    LG.console = &CON; LG.fmtName = K.fmt ? FMT : NULL;
    LG.gotTruncate = K.trunc; LG.opts.enableLock = K.lock; LG.lineState = nd_range(0, 3);
    LG.opts.enableSanitize = nd_bool(); LG.opts.enableTimestamp = nd_bool();
    CON.name = CN; CON.type = K.type; CON.fd = nd_range(-1, 100);
    lg = K.had ? &L : NULL;
    switch (CON.type) {
        case CONMAN_OBJ_PROCESS: CON.aux.process.logfile = lg; break;
        case CONMAN_OBJ_SERIAL: CON.aux.serial.logfile = lg; break;
        case CONMAN_OBJ_TELNET: CON.aux.telnet.logfile = lg; break;
        case CONMAN_OBJ_UNIXSOCK: CON.aux.unixsock.logfile = lg; break;
        case CONMAN_OBJ_IPMI: CON.aux.ipmi.logfile = lg; break;
        default: CON.aux.test.logfile = lg;
    }
#if VP_OP == 0
    int vp_rv;
    L.fd = K.had ? VP_OLD : -1;
    G.oldopen = K.had; G.oldev = nd_bool();
    VP_PRE(P_open_logfile_obj);
    vp_rv = open_logfile_obj(logfile);
    VP_POST(Q_open_logfile_obj);
    if (vp_rv == 0) VP_REACH("opened"); else VP_REACH("failed");
#else
    obj_t *vp_rv;
    L.fd = K.lfd;
    VP_PRE(P_get_console_logfile_obj);
    vp_rv = get_console_logfile_obj(console);
    VP_POST(Q_get_console_logfile_obj);
    if (vp_rv) VP_REACH("open"); else VP_REACH("none");
#endif
}
