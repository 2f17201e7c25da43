/*VP
{ "properties": ["C25"],
  "sources": ["util-file.c"],
  "enforce": ["get_dir_name", "get_write_lock", "set_fd_nonblocking", "set_fd_closed_on_exec", "set_fd_blocking"],
  "stub_defs": ["create_dirs"],
  "unwind": 2, "bound_unwind": 10, "backends": ["uf", "z3"], "timeout": 150,
  "bound_text": "paths of at most 8 characters",
  "assumptions": ["a path is at most 64 KiB"],
  "trusted": ["fcntl: any result", "strlen, strncpy (C standard)"],
  "loops": [
   {"func": "get_dir_name", "nth": 0, "count": 3, "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, A) - 1; VP_PIN(p, A + 1 + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &A) && VP_OFFS(p, A) >= 1 + K.e1 && VP_OFFS(p, A) <= K.n"]},
   {"func": "get_dir_name", "nth": 1, "count": 3, "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, A) - 1; VP_PIN(p, A + 1 + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &A) && VP_OFFS(p, A) >= 1 + K.e2 && VP_OFFS(p, A) <= 1 + K.e1"]},
   {"func": "get_dir_name", "nth": 2, "count": 3, "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, A) - 1; VP_PIN(p, A + 1 + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &A) && VP_OFFS(p, A) >= 1 + K.e3 && VP_OFFS(p, A) <= 1 + (K.e2 < 0 ? -1 : K.e2)"]} ]
}
*/
#include "vp.h"
#include "util-file.h"
#include "util-str.h"
#include "log.h"

#define BMAX VP_LIM(1 << 16, 9)
char A[BMAX + 2], D[BMAX + 2];          /* the path is at A + 1             */
struct {
    int n, dn, k;                       /* length, room, a position          */
    int e1, e2, e3;                     /* where the last part, its slash and the directory end */
    int fd, flags; char fv;
} K;
struct { int i, bad, gets, sets, flags, cloexec, locks, refused; } G;
#define S(x) A[1 + (x)]
/*  what defines e1, e2, e3, at position x  */
#define VP_INST(x) do { VP_ASSUME((x) <= K.e1 || (x) >= K.n || S(x) == '/'); \
    VP_ASSUME((x) <= K.e2 || (x) > K.e1 || (x) < 0 || S(x) != '/'); \
    VP_ASSUME(K.e2 < 0 || (x) <= K.e3 || (x) > K.e2 || S(x) == '/'); } while (0)
#undef strlen
#undef strncpy
#define strlen(s) vp_strlen(s)
#define strncpy(d,s,n) vp_strncpy(d, s, n)
static size_t vp_strlen(const char *s) { if (s != A + 1) G.bad = 1; return K.n; }
static char * vp_strncpy(char *d, const char *s, size_t n)
{
    int i;
    VP_ASSERT(d == D && n <= (size_t) K.dn, "the directory name stays within its buffer");
    if (s != A + 1 || n > (size_t) K.n) G.bad = 1;
    if (K.k < (int) n) d[K.k] = s[K.k];
#ifndef VP_PROVE
    for (i = 0; i < (int) n; i++) d[i] = s[i];
#endif
    (void) i;
    return d;
}
#define fcntl(...) VP_FC(__VA_ARGS__, 0)
#define VP_FC(fd,cmd,arg,...) _Generic((arg), struct flock *: vp_fcntl_l, default: vp_fcntl_i)(fd, cmd, arg)
static int vp_fcntl_l(int fd, int cmd, struct flock *l)
{
    if (fd != K.fd || cmd != F_SETLK) G.bad = 1;
    if (l->l_type != F_WRLCK || l->l_start != 0 || l->l_len != 0 || l->l_whence != SEEK_SET) G.bad = 1;
    G.locks++;
    if (nd_bool()) { G.refused = 1; VP.err = nd_range(1, 130); return -1; }
    return 0;
}
static int vp_fcntl_i(int fd, int cmd, int arg)
{
    if (fd != K.fd) G.bad = 1;
    if (nd_bool()) { VP.err = nd_range(1, 130); return -1; }
    if (cmd == F_GETFL) { G.gets++; return G.flags; }
    if (cmd == F_SETFL) { G.flags = arg; G.sets++; }
    else if (cmd == F_SETFD) G.cloexec = (arg & FD_CLOEXEC) != 0;
    else G.bad = 1;
    return 0;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#define VP_FIT (K.e2 < 0 ? K.dn >= 2 : K.e3 + 1 < K.dn)
#define P_get_dir_name(R) R(srcpath == A + 1 && dstdir == D && dstdirlen == (size_t) K.dn)
#define Q_get_dir_name(E) \
    E("a directory name is given if and only if it fits", RV == (VP_FIT ? D : NULL)) \
    E("it is the path up to its last part, or the current directory", VP_IMPLIES(VP_FIT && K.e2 >= 0, D[K.e3 + 1] == 0 && VP_IMPLIES(K.k <= K.e3, D[K.k] == S(K.k))) && VP_IMPLIES(VP_FIT && K.e2 < 0, D[0] == '.' && D[1] == 0)) \
    E("nothing beyond the buffer is written", D[K.dn] == K.fv && G.bad == 0)
#define P_get_write_lock(R) R(fd == K.fd)
#define Q_get_write_lock(E) \
    E("the whole file is locked for writing, without waiting, or -1 is returned", G.locks == 1 && RV == -G.refused && G.bad == 0)
#define P_set_fd_nonblocking(R) R(fd == K.fd)
#define Q_set_fd_nonblocking(E) E("the descriptor does not block; its other flags stay", G.flags == (K.flags | O_NONBLOCK) && G.bad == 0)
#define P_set_fd_blocking(R) R(fd == K.fd)
#define Q_set_fd_blocking(E) E("the descriptor blocks; its other flags stay", G.flags == (K.flags & ~O_NONBLOCK) && G.bad == 0)
#define P_set_fd_closed_on_exec(R) R(fd == K.fd)
#define Q_set_fd_closed_on_exec(E) E("the descriptor is not inherited", G.cloexec == 1 && G.flags == K.flags && G.bad == 0)
char * get_dir_name(const char *srcpath, char *dstdir, size_t dstdirlen) VP_REQ(P_get_dir_name) VP_ASSIGNS(__CPROVER_object_whole(D), G, VP) VP_ENS(Q_get_dir_name);
int get_write_lock(int fd) VP_REQ(P_get_write_lock) VP_ASSIGNS(G, VP) VP_ENS(Q_get_write_lock);
void set_fd_nonblocking(int fd) VP_REQ(P_set_fd_nonblocking) VP_ASSIGNS(G, VP) VP_ENS(Q_set_fd_nonblocking);
void set_fd_blocking(int fd) VP_REQ(P_set_fd_blocking) VP_ASSIGNS(G, VP) VP_ENS(Q_set_fd_blocking);
void set_fd_closed_on_exec(int fd) VP_REQ(P_set_fd_closed_on_exec) VP_ASSIGNS(G, VP) VP_ENS(Q_set_fd_closed_on_exec);
#include "util-file.c"

void harness(void)
{
    const char *srcpath = A + 1;
    char *dstdir = D;
    size_t dstdirlen;
    int fd, i;

    VP.held = VP.err = 0;
    memset(&G, 0, sizeof(G));
    K.fd = fd = nd_range(0, 1000); K.flags = G.flags = nd_int();
    K.n = nd_range(1, VP_LIM(BMAX - 1, 8)); K.dn = nd_range(0, VP_LIM(BMAX, 9)); K.k = nd_range(0, BMAX - 1);
    dstdirlen = K.dn;
    VP_ANY(A); VP_ANY(D);
#ifdef VP_PROVE
    K.e1 = nd_range(0, K.n - 1); VP_ASSUME(K.e1 == 0 || S(K.e1) != '/');
    K.e2 = nd_range(-1, K.e1); VP_ASSUME(K.e2 < 0 || S(K.e2) == '/');
    K.e3 = nd_range(0, K.n - 1); VP_ASSUME(K.e2 < 0 || (K.e3 <= K.e2 && (K.e3 == 0 || S(K.e3) != '/')));
    VP_ASSUME(S(K.n) == 0);
#else
    for (i = 0; i < K.n; i++) { S(i) = nd_bool() ? '/' : 'a'; }
    S(K.n) = 0;
    for (K.e1 = K.n - 1; K.e1 > 0 && S(K.e1) == '/'; K.e1--) ;
    for (K.e2 = K.e1; K.e2 >= 0 && S(K.e2) != '/'; K.e2--) ;
    for (K.e3 = K.e2 < 0 ? 0 : K.e2; K.e3 > 0 && S(K.e3) == '/'; K.e3--) ;
    for (i = 0; i < (int) sizeof(D); i++) D[i] = 77;
#endif
    (void) i;
    K.fv = D[K.dn];
#if VP_OP == 0
    char *vp_rv;
    VP_PRE(P_get_dir_name);
    vp_rv = get_dir_name(srcpath, dstdir, dstdirlen);
    VP_POST(Q_get_dir_name);
    if (vp_rv) VP_REACH("given"); else VP_REACH("too long");
#elif VP_OP == 1
    int vp_rv;
    VP_PRE(P_get_write_lock);
    vp_rv = get_write_lock(fd);
    VP_POST(Q_get_write_lock);
    if (vp_rv) VP_REACH("refused"); else VP_REACH("locked");
#elif VP_OP == 2
    VP_PRE(P_set_fd_nonblocking);
    set_fd_nonblocking(fd);
    VP_POST(Q_set_fd_nonblocking);
    VP_REACH("set");
#elif VP_OP == 3
    VP_PRE(P_set_fd_closed_on_exec);
    set_fd_closed_on_exec(fd);
    VP_POST(Q_set_fd_closed_on_exec);
    VP_REACH("set");
#else
    VP_PRE(P_set_fd_blocking);
    set_fd_blocking(fd);
    VP_POST(Q_set_fd_blocking);
    VP_REACH("set");
#endif
}
