/*VP
{ "properties": ["C02"],
  "sources": ["server-obj.c"],
  "enforce": ["read_from_obj"],
  "functions": ["read_from_obj"],
  "stub_defs": ["shutdown_obj", "write_obj_data"],
  "unwind": 5, "bound_unwind": 6, "backends": ["z3"],
  "loops": [ {"func": "read_from_obj", "nth": 0, "count": 1, "assigns": "$LOCALS, G.got, G.seqbad, IT, OTHER.type",
     "invariant": ["G.got == (IT[0].seen[0] ? G.n : 0)", "IT[0].live && IT[0].l == &LR && IT[0].left >= 0",
                   "IT[0].seen[0] == 0 || (IT[0].seen[0] == 1 && LR.has[0])", "VP.held == 0 && G.seqbad == 0"] } ],
  "bound_text": "at most 3 readers besides the arbitrary one",
  "trusted": ["read(fd,buf,n) stores at most n bytes and returns their number, or fails with errno set (assumed contract)",
              "read is interrupted (EINTR) at most 3 times in a row; a retry restarts from an unchanged state"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t OBJ;                              /* the object read from              */
obj_t RDR;                              /* an arbitrary reader candidate     */
obj_t OTHER;                            /* any other reader                  */
tpoll_t tp_global;

#define VP_NT 1
#define VP_NIT 1
#define VP_TRACKED(i) ((void *) &RDR)
static void * vp_other(void) { OTHER.type = 1u << nd_range(0, 7); return &OTHER; }
#define VP_OTHER() vp_other()
#include "stub_list.h"
struct list LR, LW;

struct {
    int fd, type, up, eof, empty;       /* state on entry                    */
    int res;                            /* final result of read()            */
    int reads, eintr;
    int n;                              /* bytes to be delivered             */
    int k; unsigned char val;           /* arbitrary byte of them            */
    int esc, tel;                       /* stream processor calls            */
    int got;                            /* bytes delivered to RDR            */
    int seqbad;                         /* a delivery out of order           */
    int shut, shutrc, cleared, stamped;
} G;

/*  A delivery to the arbitrary reader must be the next bytes of the block.  */
static void vp_deliver(obj_t *obj, const void *src, int len)
{
    VP_ASSERT(obj != &OBJ, "data read from an object is not queued to itself");
    VP_ASSERT(len > 0 && len <= G.n, "a delivery is part of the block");
    VP_ASSERT(VP_R_OK(src, len), "delivered range is valid");
    if (obj == &RDR) {
        if (G.k >= G.got && G.k - G.got < len
                && ((const unsigned char *) src)[G.k - G.got] != G.val)
            G.seqbad = 1;
        G.got += len;
    }
}
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    VP_ASSERT(obj->type != CONMAN_OBJ_LOGFILE, "log data goes through the log formatter");
    VP_ASSERT(!isInfo, "console data is not informational");
    vp_deliver(obj, src, len);
    return len;
}
int write_log_data(obj_t *log, const void *src, int len)
{
    VP_ASSERT(log->type == CONMAN_OBJ_LOGFILE, "only logs use the log formatter");
    vp_deliver(log, src, len);
    return len;
}
int shutdown_obj(obj_t *obj)
{
    VP_ASSERT(obj == &OBJ && VP.held == 0, "shutdown of the object read from");
    G.shut++;
    return G.shutrc;
}
int tpoll_clear(tpoll_t tp, int fd, short ev)
{
    VP_ASSERT(fd == G.fd && ev == POLLIN, "only reading is disabled at end-of-file");
    G.cleared++;
    return 0;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

static ssize_t vp_read(int fd, void *buf, size_t n)
{
    int r;
    VP_ASSERT(fd == G.fd, "reads its own descriptor");
    VP_ASSERT(n > 0 && VP_W_OK(buf, n), "read buffer is valid");
    G.reads++;
    r = nd_range(0, 3);
    if (r == 0 && G.eintr < 3) { G.eintr++; errno = EINTR; return -1; }
    if (r == 1) {
        G.res = -2; errno = nd_bool() ? EAGAIN : EWOULDBLOCK; return -1;
    }
    if (r == 2) {
        G.res = -1; errno = nd_range(1, 133);
        VP_ASSUME(errno != EINTR && errno != EAGAIN && errno != EWOULDBLOCK);
        return -1;
    }
    r = nd_range(0, VP_LIM(OBJ_BUF_SIZE, 12));
    VP_ASSUME((size_t) r <= n);
    VP_FILL(buf, r);
    G.res = G.n = r;
    if (G.k < r) G.val = ((unsigned char *) buf)[G.k];
    return r;
}
#define read(fd,b,n) vp_read(fd,b,n)

/*  stream processors: any shorter block may result, in place  */
static int vp_process(void *src, int len)
{
    int r = nd_range(0, OBJ_BUF_SIZE);
    VP_ASSERT(len == G.n && G.res > 0, "the whole block is processed, once");
    VP_ASSERT(VP_W_OK(src, len), "processed range is valid");
    VP_ASSUME(r <= len);
    if (G.k < r) {
        unsigned char c = nd_uchar();
        ((unsigned char *) src)[G.k] = c;
        G.val = c;
    }
    return G.n = r;
}
int process_client_escapes(obj_t *client, void *src, int len)
{
    VP_ASSERT(client == &OBJ, "escapes of the client read from");
    G.esc++;
    return vp_process(src, len);
}
int process_telnet_escapes(obj_t *telnet, void *src, int len)
{
    VP_ASSERT(telnet == &OBJ, "telnet sequences of the device read from");
    G.tel++;
    return vp_process(src, len);
}
static time_t vp_time(time_t *t)
{
    time_t v = nd_range(0, LONG_MAX / 2);
    if (t) *t = v;
    G.stamped++;
    return v;
}
#define time(t) vp_time(t)

#define IDLE (G.fd < 0 || !G.up)
#define P_read_from_obj(R) \
    R(obj == &OBJ && VP.held == 0)
#define Q_read_from_obj(E) \
    E("nothing is read from a closed object or an unconnected telnet device", (G.reads == 0) == IDLE) \
    E("each reader gets the whole block exactly once", \
        G.got == ((!IDLE && G.res > 0 && LR.has[0]) ? G.n : 0)) \
    E("readers get the bytes in order, unaltered", G.seqbad == 0) \
    E("client data is unescaped exactly once", \
        G.esc == (!IDLE && G.res > 0 && G.type == CONMAN_OBJ_CLIENT)) \
    E("telnet data is decoded exactly once", \
        G.tel == (!IDLE && G.res > 0 && G.type == CONMAN_OBJ_TELNET)) \
    E("shut down exactly on a read error, or at end-of-file with nothing queued", \
        G.shut == (!IDLE && (G.res == -1 || (G.res == 0 && G.empty)))) \
    E("end-of-file is recorded, and nothing else is", \
        OBJ.gotEOF == (G.eof || (!IDLE && G.res == 0))) \
    E("reading stops at end-of-file only", G.cleared == (!IDLE && G.res == 0)) \
    E("client activity is timestamped", \
        VP_IMPLIES(!IDLE && G.res > 0 && G.type == CONMAN_OBJ_CLIENT, G.stamped > 0)) \
    E("iterators released", !IT[0].live) \
    E("lock released", VP.held == 0) \
    E("result", RV == (IDLE || G.res == -2 ? 0 : G.res > 0 ? G.n : G.shut ? G.shutrc : 0))

int read_from_obj(obj_t *obj)
    VP_REQ(P_read_from_obj)
    VP_ASSIGNS(OBJ.bufLock, OBJ.aux, OBJ.gotEOF, VP, G, IT, OTHER.type)
    VP_ENS(Q_read_from_obj);

#include "server-obj.c"

void harness(void)
{
    obj_t *obj = &OBJ;
    int vp_rv;

    VP_HAVOC(OBJ);
    VP_HAVOC(RDR);
    VP.held = 0;
    OBJ.name = "obj";
    OBJ.fd = G.fd = nd_range(-1, 1 << 20);
    OBJ.type = G.type = 1u << nd_range(0, 7);
    RDR.type = 1u << nd_range(0, 7);
    OBJ.readers = &LR;
    OBJ.writers = &LW;
    LR.has[0] = nd_bool();
    LR.others = nd_range(0, VP_LIM(1000000, 3));
    LW.has[0] = nd_bool();
    LW.others = nd_range(0, 3);
    IT[0].live = 0;
    G.up = 1;
    if (OBJ.type == CONMAN_OBJ_TELNET) {
        OBJ.aux.telnet.state = nd_range(0, 3);
        G.up = (OBJ.aux.telnet.state == CONMAN_TELNET_UP);
    }
    OBJ.gotEOF = G.eof = nd_bool();
    G.empty = nd_bool();
    OBJ.bufOutPtr = OBJ.buf + nd_range(0, OBJ_BUF_SIZE - 1);
    OBJ.bufInPtr = OBJ.buf + nd_range(0, OBJ_BUF_SIZE - 1);
    if (G.empty) OBJ.bufInPtr = OBJ.bufOutPtr;
    G.empty = (OBJ.bufInPtr == OBJ.bufOutPtr);
    G.res = G.reads = G.eintr = G.n = G.esc = G.tel = G.got = G.seqbad = 0;
    G.shut = G.cleared = G.stamped = 0;
    G.shutrc = nd_range(-1, 0);
    G.k = nd_range(0, VP_LIM(OBJ_BUF_SIZE, 12));

    VP_PRE(P_read_from_obj);
    vp_rv = read_from_obj(obj);
    VP_POST(Q_read_from_obj);

    VP_REACH("return");
    if (G.got > 0) VP_REACH("delivered");
    if (G.shut) VP_REACH("shutdown");
    if (G.tel) VP_REACH("telnet");
}
