/*VP
{ "properties": ["C22"],
  "sources": ["util-file.c"],
  "enforce": ["read_n", "write_n", "read_line"],
  "unwind": 2, "bound_unwind": 9, "backends": ["uf"],
  "per": {"read_line": {"backends": ["ufc", "cvc5"]}},
  "bound_text": "transfers of at most 5 bytes with at most 2 interruptions",
  "assumptions": ["buffers are at most 64 KiB"],
  "trusted": ["read/write transfer a prefix of what is asked, signal end-of-file, or fail with errno set"],
  "loops": [
   {"func": "read_n", "nth": 0, "count": 1, "locals": ["p", "nleft", "nread"],
     "assigns": "$LOCALS, __CPROVER_object_whole(B), G, VP",
     "ghost": "VP_PIN(p, B + G.got);",
     "invariant": ["0 <= G.got && G.got <= K.n && nleft == (size_t) (K.n - G.got) && p == B + G.got",
       "G.fatal == 0 && G.eof == 0 && G.got <= K.end",
       "VP_IMPLIES(K.k < G.got, B[K.k] == K.kv) && B[K.f] == K.fv"]},
   {"func": "write_n", "nth": 0, "count": 1, "locals": ["p", "nleft", "nwritten"],
     "assigns": "$LOCALS, G, VP",
     "ghost": "VP_PIN(p, B + G.got);",
     "invariant": ["0 <= G.got && G.got <= K.n && nleft == (size_t) (K.n - G.got) && p == B + G.got",
       "G.fatal == 0 && G.eof == 0"]},
   {"func": "read_line", "nth": 0, "count": 1, "locals": ["p", "n", "rv", "c"],
     "assigns": "$LOCALS, __CPROVER_object_whole(B), G, VP",
     "ghost": "VP_PIN(p, B + G.got);",
     "invariant": ["0 <= G.got && G.got < K.n && n == (size_t) G.got && p == B + G.got && G.got <= K.nl && G.got <= K.end",
       "G.fatal == 0 && G.eof == 0",
       "VP_IMPLIES(K.k < G.got, B[K.k] == K.kv) && B[K.f] == K.fv"]} ]
}
*/
#include "vp.h"
#include "util-file.h"

#define BMAX VP_LIM(1 << 16, 8)
unsigned char B[BMAX];
struct {
    int n;                              /* bytes asked for                   */
    int k; unsigned char kv;            /* an arbitrary position, its byte   */
    int f; unsigned char fv;            /* a position beyond the buffer      */
    int nl, end;                        /* stream: first newline, its end    */
} K;
struct {
    int got;                            /* bytes transferred                 */
    int eof, fatal, eintr;
} G;

static int vp_fails(void)
{
    int r = nd_range(0, 3);
    if (r == 0 && VP_LIM(1, G.eintr < 2)) { G.eintr = VP_LIM(0, G.eintr + 1); errno = EINTR; return 1; }
    if (r == 1) { errno = nd_range(1, 133); VP_ASSUME(errno != EINTR); G.fatal = 1; return 1; }
    return 0;
}
#define FD 5
static void vp_range(int fd, const void *p, size_t n)
{
    VP_ASSERT(fd == FD, "transfer on the given descriptor");
    VP_ASSERT(!G.fatal && !G.eof, "nothing is attempted after an error or end-of-file");
    VP_ASSERT(n > 0, "a transfer asks for at least one byte");
    VP_ASSERT(!VP_SAME(p, &B) || (const unsigned char *) p + n <= B + K.n, "transfer stays within the given buffer");
}
static ssize_t vp_read(int fd, void *p, size_t n)
{
    int r;
    vp_range(fd, p, n);
    VP_ASSERT(VP_W_OK(p, n), "read target is valid");
    if (vp_fails()) return -1;
    if (G.got >= K.end) { G.eof = 1; return 0; }
    r = nd_range(1, BMAX);
    VP_ASSUME((size_t) r <= n && G.got + r <= K.end);
#ifdef VP_PROVE
    if (n == 1) *(unsigned char *) p = (G.got == K.k) ? K.kv : (G.got == K.nl) ? '\n' : 'x';
    else if (K.k >= G.got && K.k < G.got + r) ((unsigned char *) p)[K.k - G.got] = K.kv;
    if (n > 1 && K.nl >= G.got && K.nl < G.got + r) ((unsigned char *) p)[K.nl - G.got] = '\n';
#else
    { int i; for (i = 0; i < r; i++) ((unsigned char *) p)[i] = G.got + i == K.k ? K.kv : G.got + i == K.nl ? '\n' : 'x'; }
#endif
    G.got += r;
    return r;
}
static ssize_t vp_write(int fd, const void *p, size_t n)
{
    int r;
    vp_range(fd, p, n);
    VP_ASSERT(VP_R_OK(p, n), "write source is valid");
    VP_ASSERT(n <= (size_t) (K.n - G.got), "no byte is written twice");
    if (K.k >= G.got && (size_t) (K.k - G.got) < n)
        VP_ASSERT(((const unsigned char *) p)[K.k - G.got] == K.kv, "bytes are written in order, unaltered");
    if (vp_fails()) return -1;
    r = nd_range(1, BMAX);
    VP_ASSUME((size_t) r <= n);
    G.got += r;
    return r;
}
#define read(fd,p,n)    vp_read(fd,p,n)
#define write(fd,p,n)   vp_write(fd,p,n)
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#define MINI(a,b) ((a) < (b) ? (a) : (b))
#define WANT MINI(K.n - 1, MINI(K.nl + 1, K.end))

#define P_read_n(R) R(fd == FD && buf == (void *) B && n == (size_t) K.n)
#define Q_read_n(E) \
    E("exactly the bytes received are counted; fewer than asked only at end-of-file", \
        G.fatal ? RV == -1 : (RV == G.got && G.got == (K.n < K.end ? K.n : K.end))) \
    E("an interruption is never reported as an error", VP_IMPLIES(RV == -1, VP.err != EINTR)) \
    E("the bytes arrive in order, unaltered", VP_IMPLIES(K.k < G.got, B[K.k] == K.kv)) \
    E("nothing beyond the buffer is written", B[K.f] == K.fv)

#define P_write_n(R) R(fd == FD && buf == (void *) B && n == (size_t) K.n)
#define Q_write_n(E) \
    E("all bytes are written, or an error is reported", G.fatal ? RV == -1 : (RV == K.n && G.got == K.n)) \
    E("an interruption is never reported as an error", VP_IMPLIES(RV == -1, VP.err != EINTR))

#define P_read_line(R) R(fd == FD && buf == (void *) B && maxlen == (size_t) K.n)
#define Q_read_line(E) \
    E("a line is read up to its newline, the size less one, or end-of-file, and its length returned", \
        G.fatal ? RV == -1 : (RV == G.got && G.got == (K.n == 0 ? 0 : WANT))) \
    E("an interruption is never reported as an error", VP_IMPLIES(RV == -1, VP.err != EINTR)) \
    E("the bytes arrive in order, unaltered", VP_IMPLIES(K.k < G.got, B[K.k] == K.kv)) \
    E("the line is NUL-terminated", VP_IMPLIES(RV > 0, B[RV] == 0)) \
    E("nothing beyond the given size is written", B[K.f] == K.fv)

ssize_t read_n(int fd, void *buf, size_t n)
    VP_REQ(P_read_n) VP_ASSIGNS(__CPROVER_object_whole(B), G, VP) VP_ENS(Q_read_n);
ssize_t write_n(int fd, void *buf, size_t n)
    VP_REQ(P_write_n) VP_ASSIGNS(G, VP) VP_ENS(Q_write_n);
ssize_t read_line(int fd, void *buf, size_t maxlen)
    VP_REQ(P_read_line) VP_ASSIGNS(__CPROVER_object_whole(B), G, VP) VP_ENS(Q_read_line);

#include "util-file.c"

void harness(void)
{
    int fd = FD;
    void *buf = B;
    size_t n, maxlen;
    ssize_t vp_rv;

    VP_ANY(B);
    VP_FILL(B, BMAX);
    K.n = nd_range(0, BMAX - 1);
    K.k = nd_range(0, BMAX - 1);
    K.kv = nd_uchar();
    K.f = nd_range(0, BMAX - 1);
    VP_ASSUME(K.f >= K.n);
    K.fv = B[K.f];
    K.end = nd_range(0, 1 << 21);
    K.nl = 1 << 22;
#if VP_OP == 2
    K.nl = nd_range(0, 1 << 21);
    VP_ASSUME((K.k == K.nl) == (K.kv == '\n') || K.k > K.nl);
#endif
#if VP_OP == 1
    if (K.k < K.n) B[K.k] = K.kv;
#endif
    G.got = G.eof = G.fatal = G.eintr = 0;
    VP.held = VP.err = 0;
    n = maxlen = K.n;
#if VP_OP == 0
    VP_PRE(P_read_n);
    vp_rv = read_n(fd, buf, n);
    VP_POST(Q_read_n);
#elif VP_OP == 1
    VP_PRE(P_write_n);
    vp_rv = write_n(fd, buf, n);
    VP_POST(Q_write_n);
#else
    VP_PRE(P_read_line);
    vp_rv = read_line(fd, buf, maxlen);
    VP_POST(Q_read_line);
#endif
    if (G.got > 2) VP_REACH("transferred");
    if (vp_rv < 0) VP_REACH("error");
}
