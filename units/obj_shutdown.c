/*VP
{ "properties": ["C10", "C01", "C08"],
  "sources": ["server-obj.c"],
  "enforce": ["shutdown_obj"],
  "functions": ["shutdown_obj", "num_bytes_buffered"],
  "stub_defs": ["reopen_obj", "unlink_obj"],
  "unwind": 2,
  "backends": ["uf", "z3"],
  "trusted": ["close() always releases the descriptor"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t OBJ;
tpoll_t tp_global;
struct { int fd, type, closed, cleared, reopened, unlinked, order; } G;

#define RESET_STATE (OBJ.fd == -1 && OBJ.bufInPtr == OBJ.bufOutPtr && OBJ.gotBufWrap == 0 \
    && OBJ.bufInPtr == OBJ.buf && OBJ.gotEOF == 0 && VP.held == 0 && G.closed == 1)
int tpoll_clear(tpoll_t tp, int fd, short ev)
{
    VP_ASSERT(fd == G.fd, "poll request is for this object");
    VP_ASSERT(G.closed == 0, "the descriptor is withdrawn from polling before it is closed");
    if ((ev & (POLLIN | POLLOUT)) == (POLLIN | POLLOUT)) G.cleared++;
    return 0;
}
static int vp_close(int fd)
{
    VP_ASSERT(fd == G.fd, "only its own descriptor is closed");
    G.closed++;
    if (nd_bool()) { errno = nd_range(1, 133); return -1; }
    return 0;
}
#define close(fd) vp_close(fd)
void reopen_obj(obj_t *obj)
{
    VP_ASSERT(obj == &OBJ && RESET_STATE, "a console is reopened after its old state is gone");
    G.reopened++;
}
void unlink_obj(obj_t *obj)
{
    VP_ASSERT(obj == &OBJ && VP.held == 0, "the client is detached");
    G.unlinked++;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define OPEN (G.fd >= 0)
#define P_shutdown_obj(R) R(obj == &OBJ && VP.held == 0)
#define Q_shutdown_obj(E) \
    E("the descriptor is closed exactly once and withdrawn from polling", \
        G.closed == (OPEN ? 1 : 0) && VP_IMPLIES(OPEN, G.cleared >= 1 && OBJ.fd == -1)) \
    E("the queue is emptied, and nothing of it can be taken for newer data later", VP_IMPLIES(OPEN, RESET_STATE)) \
    E("a client is detached from everything; consoles and logs keep their attachments", \
        G.unlinked == ((OPEN && G.type == CONMAN_OBJ_CLIENT) ? 1 : 0)) \
    E("only clients are handed over for removal", RV == ((OPEN && G.type == CONMAN_OBJ_CLIENT) ? -1 : 0)) \
    E("a console is reopened exactly once, nothing else is", \
        G.reopened == ((OPEN && (G.type & CONMAN_OBJ_IS_CONSOLE)) ? 1 : 0)) \
    E("lock released", VP.held == 0)

int shutdown_obj(obj_t *obj)
    VP_REQ(P_shutdown_obj)
    VP_ASSIGNS(OBJ, G, VP)
    VP_ENS(Q_shutdown_obj);

#include "server-obj.c"

void harness(void)
{
    obj_t *obj = &OBJ;
    int vp_rv;

    VP_HAVOC(OBJ);
    OBJ.name = "obj";
    OBJ.fd = G.fd = nd_range(-1, 1 << 20);
    OBJ.type = G.type = 1u << nd_range(0, 7);
    OBJ.gotEOF = nd_bool();
    OBJ.gotBufWrap = nd_bool();
    OBJ.bufInPtr = OBJ.buf + nd_range(0, OBJ_BUF_SIZE - 1);
    OBJ.bufOutPtr = OBJ.buf + nd_range(0, OBJ_BUF_SIZE - 1);
    VP.held = 0;
    G.closed = G.cleared = G.reopened = G.unlinked = 0;

    VP_PRE(P_shutdown_obj);
    vp_rv = shutdown_obj(obj);
    VP_POST(Q_shutdown_obj);

    VP_REACH("return");
    if (G.reopened) VP_REACH("console");
    if (G.unlinked) VP_REACH("client");
}
