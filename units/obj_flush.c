/*VP
{ "properties": ["C01"],
  "sources": ["server-obj.c"],
  "enforce": ["write_to_obj"], "stub_defs": ["shutdown_obj"],
  "functions": ["write_to_obj"],
  "unwind": 4, "backends": ["uf"],
  "trusted": ["writev(fd,iov,n) writes a prefix of the gathered bytes and returns its length, or fails with errno set (assumed contract)",
              "writev is interrupted (EINTR) at most 3 times in a row; a retry restarts from an unchanged state"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

/*  The code compares out + n (up to twice the queue size) with the queue's end;
 *    the padding keeps that pointer inside one C object, so that the verifier
 *    does not stop at the (harmless) out-of-object pointer value.
 */
struct { obj_t o; unsigned char pad[OBJ_BUF_SIZE]; } W;
#define OBJ W.o
tpoll_t tp_global;

struct {
    int in, out;                        /* queue indices on entry            */
    int queued;                         /* bytes queued on entry             */
    int k;                              /* position of an arbitrary queued byte */
    unsigned char val;                  /* its value                         */
    int fd, eof, pending;
    int calls, eintr;                   /* writev() calls, EINTR so far      */
    int wrote;                          /* bytes accepted by the descriptor  */
    int fatal;                          /* writev() failed for good          */
    int cleared;                        /* POLLOUT cleared                   */
    int shut, opened;                   /* shutdown_obj/open_telnet_obj calls */
    int shutrc;
} G;

#define MOD(x) ((x) & (OBJ_BUF_SIZE - 1))

/*  What reaches the descriptor: a prefix of the gathered bytes.  The k-th byte
 *    of the gather list must be the k-th queued byte, for arbitrary k.
 */
static ssize_t vp_out(int fd, const unsigned char *a, size_t an,
    const unsigned char *b, size_t bn)
{
    size_t tot = an + bn;
    int r;

    G.calls++;
    VP_ASSERT(fd == G.fd, "write goes to the object's own descriptor");
    VP_ASSERT(an <= OBJ_BUF_SIZE && bn <= OBJ_BUF_SIZE, "sane write sizes");
    VP_ASSERT(VP_R_OK(a, an), "first written range is valid");
    VP_ASSERT(bn == 0 || VP_R_OK(b, bn), "second written range is valid");
    VP_ASSERT((int) tot <= G.queued - G.wrote, "no more than the queued bytes are offered");
    VP_ASSERT(tot > 0, "a write offers at least one byte");
    if ((G.k >= G.wrote) && (size_t) (G.k - G.wrote) < tot) {
        size_t q = G.k - G.wrote;
        const unsigned char *w = (q < an) ? a + q : b + (q - an);
        VP_ASSERT(w == &OBJ.buf[MOD(G.out + G.k)]
            || (!VP_SAME(w, &W) && *w == G.val),
            "bytes are written in queue order, unaltered");
    }
    r = nd_range(0, 4);
    if (r == 0 && G.eintr < 3) {
        G.eintr++;
        errno = EINTR;
        return -1;
    }
    if (r == 1) {
        errno = nd_bool() ? EAGAIN : EWOULDBLOCK;
        return -1;
    }
    if (r == 2) {
        errno = nd_range(1, 133);
        VP_ASSUME(errno != EINTR && errno != EAGAIN && errno != EWOULDBLOCK);
        G.fatal = 1;
        return -1;
    }
    r = nd_range(0, OBJ_BUF_SIZE);
    VP_ASSUME(r <= (int) tot);
    G.wrote += r;
    return r;
}
static ssize_t vp_writev(int fd, const struct iovec *v, int n)
{
    VP_ASSERT(n == 1 || n == 2, "one or two gather segments");
    return vp_out(fd, v[0].iov_base, v[0].iov_len,
        (n > 1) ? v[1].iov_base : NULL, (n > 1) ? v[1].iov_len : 0);
}
static ssize_t vp_write(int fd, const void *p, size_t n)
{
    return vp_out(fd, p, n, NULL, 0);
}
#define writev(fd,v,n)  vp_writev(fd,v,n)
#define write(fd,p,n)   vp_write(fd,p,n)

int tpoll_clear(tpoll_t tp, int fd, short ev)
{
    VP_ASSERT(fd == OBJ.fd, "poll request is for this object");
    if (ev & POLLOUT) G.cleared++;
    VP_ASSERT(!(ev & POLLIN), "reading is not disabled by a flush");
    return 0;
}
void log_msg(int p, const char *f, ...) { }
int open_telnet_obj(obj_t *telnet) { G.opened++; return 0; }


/*  shutdown_obj(): its own contract is discharged in unit obj_shutdown  */
int shutdown_obj(obj_t *obj)
{
    VP_ASSERT(obj == &OBJ, "shutdown of the object being flushed");
    VP_ASSERT(VP.held == 0, "shutdown is entered without the lock");
    G.shut++;
    return G.shutrc;
}

#define IDLE (G.fd < 0 || G.pending)
#define DEAD (!IDLE && (G.fatal || (G.eof && G.wrote == G.queued)))
#define P_write_to_obj(R) \
    R(obj == &OBJ) \
    R(OBJ.bufInPtr == OBJ.buf + G.in && OBJ.bufOutPtr == OBJ.buf + G.out) \
    R(VP.held == 0 && G.wrote == 0)
#define Q_write_to_obj(E) \
    E("out-index advances by exactly the bytes written", \
        OBJ.bufOutPtr == OBJ.buf + MOD(G.out + G.wrote)) \
    E("in-index unchanged by a flush", OBJ.bufInPtr == OBJ.buf + G.in) \
    E("data is written if and only if some is queued", \
        IDLE ? (G.calls == 0) : ((G.calls > 0) == (G.queued > 0))) \
    E("writability polling stops only when the queue is empty", \
        VP_IMPLIES(G.cleared > 0, !IDLE && G.wrote == G.queued)) \
    E("writability polling stops once the queue is empty", \
        VP_IMPLIES(!IDLE && G.wrote == G.queued, G.cleared > 0)) \
    E("shut down exactly on a write error or a drained end-of-file", \
        G.shut == (DEAD ? 1 : 0)) \
    E("a pending telnet connect is completed instead of written to", \
        G.opened == ((G.fd >= 0 && G.pending) ? 1 : 0)) \
    E("returns the shutdown result, or 0", RV == (DEAD ? G.shutrc : 0)) \
    E("lock released", VP.held == 0)

int write_to_obj(obj_t *obj)
    VP_REQ(P_write_to_obj)
    VP_ASSIGNS(OBJ.bufOutPtr, OBJ.bufLock, VP, G)
    VP_ENS(Q_write_to_obj);

#include "server-obj.c"

void harness(void)
{
    obj_t *obj = &OBJ;
    int vp_rv;

    VP_HAVOC(W);
    VP.held = 0;
    G.in = nd_range(0, OBJ_BUF_SIZE - 1);
    G.out = nd_range(0, OBJ_BUF_SIZE - 1);
    OBJ.bufInPtr = OBJ.buf + G.in;
    OBJ.bufOutPtr = OBJ.buf + G.out;
    G.queued = MOD(G.in + OBJ_BUF_SIZE - G.out);
    G.k = nd_range(0, OBJ_BUF_SIZE - 1);
    G.val = nd_uchar();
    if (G.k < G.queued) OBJ.buf[MOD(G.out + G.k)] = G.val;
    OBJ.fd = G.fd = nd_range(-1, 1 << 20);
    OBJ.name = "obj";
    OBJ.type = 1u << nd_range(0, 7);
    G.pending = 0;
    if (OBJ.type == CONMAN_OBJ_TELNET) {
        OBJ.aux.telnet.state = nd_range(0, 3);
        G.pending = (OBJ.aux.telnet.state == CONMAN_TELNET_PENDING);
    }
    OBJ.gotEOF = G.eof = nd_bool();
    G.calls = G.eintr = G.wrote = G.fatal = G.cleared = G.shut = G.opened = 0;
    G.shutrc = nd_range(-1, 0);

    VP_PRE(P_write_to_obj);
    vp_rv = write_to_obj(obj);
    VP_POST(Q_write_to_obj);

    VP_REACH("return");
    if (G.wrote > 0 && G.wrote < G.queued) VP_REACH("short write");
    if (G.in < G.out && G.wrote > OBJ_BUF_SIZE - G.out) VP_REACH("wrapping write");
    if (G.shut) VP_REACH("shutdown");
    if (G.eintr) VP_REACH("interrupted");
}
