/*VP
{ "properties": ["C01"],
  "sources": ["server-obj.c"],
  "enforce": ["write_obj_data"],
  "functions": ["write_obj_data", "num_bytes_buffered"],
  "unwind": 1,
  "trusted": ["memcpy/memmove copy n bytes (observed at one arbitrary destination byte)", "tpoll_set records fd/events", "log_msg has no effect on the queue"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t OBJ;                              /* the destination                   */
req_t REQ;                              /* its request, if it is a client    */
const unsigned char *SRC;               /* the data to be queued             */
tpoll_t tp_global;

/*  Ghost state.  k is an arbitrary cell of the queue, so a clause about cell k
 *    is a clause about every cell.
 */
struct {
    int in, out;                        /* queue indices on entry            */
    int k;                              /* arbitrary cell                    */
    unsigned char oldk;                 /* its value on entry                */
    int rel;                            /* distance of cell k from in-index  */
    int len;                            /* length offered                    */
    int room;                           /* free cells on entry               */
    int eff;                            /* bytes that must be accepted       */
    int eof, sus, cli, log, line, wrap; /* flags on entry                    */
    int pollset;                        /* POLLOUT requested for the obj     */
} G;

#define VP_CELL OBJ.buf[G.k]
#include "stub_mem.h"

int tpoll_set(tpoll_t tp, int fd, short ev)
{
    VP_ASSERT(fd == OBJ.fd && (ev & POLLOUT), "poll request is for this object");
    G.pollset++;
    return 0;
}
void log_msg(int p, const char *f, ...) { }

#define MOD(x) ((x) & (OBJ_BUF_SIZE - 1))
#define P_write_obj_data(R) \
    R(obj == &OBJ && src == SRC && len == G.len) \
    R(OBJ.bufInPtr == OBJ.buf + G.in && OBJ.bufOutPtr == OBJ.buf + G.out) \
    R(VP.held == 0)
#define Q_write_obj_data(E) \
    E("returns the number of bytes queued", RV == G.eff) \
    E("in-index advances by the bytes queued", \
        OBJ.bufInPtr == OBJ.buf + MOD(G.in + G.eff)) \
    E("queued bytes are stored in order after the earlier ones", \
        VP_IMPLIES(G.rel < G.eff, OBJ.buf[G.k] == SRC[G.rel])) \
    E("no other queued byte changes", \
        VP_IMPLIES(G.rel >= G.eff, OBJ.buf[G.k] == G.oldk)) \
    E("nothing is dropped while the queue has room", \
        VP_IMPLIES(G.eff <= G.room, OBJ.bufOutPtr == OBJ.buf + G.out)) \
    E("on overflow exactly the oldest bytes are dropped", \
        VP_IMPLIES(G.eff > G.room, \
            OBJ.bufOutPtr == OBJ.buf + MOD(G.in + G.eff + 1))) \
    E("wrap flag is set when the queue wraps", \
        OBJ.gotBufWrap == (G.wrap || (G.in + G.eff >= OBJ_BUF_SIZE))) \
    E("writability is polled for unless the client is suspended", \
        VP_IMPLIES(G.eff > 0, (G.pollset > 0) == !(G.cli && G.sus))) \
    E("refused data requests no polling", \
        VP_IMPLIES(G.eff == 0, G.pollset == 0)) \
    E("lock released", VP.held == 0) \
    E("eof flag unchanged", OBJ.gotEOF == G.eof) \
    E("an info message to a logfile restarts its line state", \
        VP_IMPLIES(G.log, OBJ.aux.logfile.lineState == \
            ((G.eff > 0 && isInfo) ? CONMAN_LOG_LINE_INIT : G.line))) \
    E("suspension unchanged", VP_IMPLIES(G.cli, \
            OBJ.aux.client.gotSuspend == G.sus))

int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
    VP_REQ(P_write_obj_data)
    VP_ASSIGNS(OBJ.buf, OBJ.bufInPtr, OBJ.bufOutPtr, OBJ.bufLock,
        OBJ.gotBufWrap, OBJ.aux, VP, G)
    VP_ENS(Q_write_obj_data);

#include "server-obj.c"

void harness(void)
{
    obj_t *obj = &OBJ;
    const void *src;
    int vp_rv, isInfo, len, quiet;

    VP_HAVOC(OBJ);
    VP_HAVOC(REQ);
    VP.held = 0;
    G.len = len = nd_range(-2, VP_LIM(INT_MAX, 20000));
    src = SRC = vp_alloc(len > 0 ? len : 0);
    VP_FILL(src, len > 0 && len < 40 ? len : 0);
    isInfo = nd_range(-1, 2);
    G.in = nd_range(0, OBJ_BUF_SIZE - 1);
    G.out = nd_range(0, OBJ_BUF_SIZE - 1);
    OBJ.bufInPtr = OBJ.buf + G.in;
    OBJ.bufOutPtr = OBJ.buf + G.out;
    OBJ.fd = nd_range(-1, 1 << 20);
    OBJ.name = "obj";
    OBJ.type = nd_range(0, 8);
    if (OBJ.type < 8) OBJ.type = 1u << OBJ.type;
    else OBJ.type = CONMAN_OBJ_CLIENT;
    G.cli = (OBJ.type == CONMAN_OBJ_CLIENT);
    G.log = (OBJ.type == CONMAN_OBJ_LOGFILE);
    OBJ.gotEOF = G.eof = nd_bool();
    OBJ.gotBufWrap = G.wrap = nd_bool();
    quiet = 0;
    if (G.cli) {
        OBJ.aux.client.req = &REQ;
        OBJ.aux.client.gotSuspend = G.sus = nd_bool();
        REQ.enableQuiet = quiet = nd_bool();
    }
    if (G.log) {
        OBJ.aux.logfile.lineState = G.line = nd_range(0, 3);
    }
    G.k = nd_range(0, OBJ_BUF_SIZE - 1);
    G.oldk = OBJ.buf[G.k];
    G.rel = MOD(G.k + OBJ_BUF_SIZE - G.in);
    G.room = OBJ_BUF_SIZE - 1 - MOD(G.in + OBJ_BUF_SIZE - G.out);
    G.eff = (len <= 0 || G.eof || (isInfo && G.cli && quiet)) ? 0
        : (len >= OBJ_BUF_SIZE ? OBJ_BUF_SIZE - 1 : len);
    G.pollset = 0;

    VP_PRE(P_write_obj_data);
    vp_rv = write_obj_data(obj, src, len, isInfo);
    VP_POST(Q_write_obj_data);

    VP_REACH("return");
    if (G.eff > G.room) VP_REACH("overflow");
    if (G.in + G.eff >= OBJ_BUF_SIZE) VP_REACH("wrap");
    if (G.eff == 0 && len > 0) VP_REACH("refused");
}
