/*VP
{ "properties": ["C10", "C27"],
  "sources": ["server-obj.c"],
  "enforce": ["unlink_objs"],
  "functions": ["unlink_objs", "find_obj"],
  "stub_defs": ["notify_console_objs"],
  "unwind": 6,
  "backends": ["uf", "z3"],
  "trusted": ["list API contract (sets of elements; discharged for list.c in the list units)",
              "snprintf/create_short_time_string: some NUL-terminated text"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"
#include "objworld.h"
#include "stub_str.h"

struct { int eofA, eofB; int notes; int strs; int typA, typB; } G;

char * create_short_time_string(time_t t)
{
    char *p = vp_alloc(8); p[0] = 0; G.strs++; return p;
}
#define free(p) do { G.strs--; } while (0)
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
void notify_console_objs(obj_t *console, char *msg)
{
    VP_ASSERT(console == &OB, "observers of the console concerned are notified");
    G.notes++;
}
#define CLI(t) ((t) == CONMAN_OBJ_CLIENT)
#define ISCON(t) ((t) & CONMAN_OBJ_IS_CONSOLE)
#define P_unlink_objs(R) \
    R(src == &OA && dst == &OB)
#define Q_unlink_objs(E) \
    E("the attachment is gone on both sides", !LR[A].has[B] && !LW[B].has[A]) \
    E("attachments of the source to others are untouched", \
        LSAMEX(LR[A], LR0[A], B) && LSAME(LW[A], LW0[A])) \
    E("attachments of the destination to others are untouched", \
        LSAMEX(LW[B], LW0[B], A) && LSAME(LR[B], LR0[B])) \
    E("attachments of third objects are untouched", LSAME(LR[X], LR0[X]) && LSAME(LW[X], LW0[X])) \
    E("a source client is marked finished exactly when nothing is attached any more", \
        OA.gotEOF == ((CLI(G.typA) && LEMPTY(LR[A]) && LEMPTY(LW[A])) ? 1 : G.eofA)) \
    E("a destination client is marked finished exactly when nothing is attached any more", \
        OB.gotEOF == ((CLI(G.typB) && LEMPTY(LR[B]) && LEMPTY(LW[B])) ? 1 : G.eofB)) \
    E("observers learn exactly that a writing client left a console", \
        G.notes == ((CLI(G.typA) && ISCON(G.typB) && LW0[B].has[A]) ? 1 : 0)) \
    E("temporary strings released", G.strs == 0)

void unlink_objs(obj_t *src, obj_t *dst)
    VP_REQ(P_unlink_objs)
    VP_ASSIGNS(LR, LW, OA.gotEOF, OB.gotEOF, G, VP)
    VP_ENS(Q_unlink_objs);

#include "server-obj.c"

void harness(void)
{
    obj_t *src = &OA, *dst = &OB;

    vp_world();
    /* one side is a console, the other a client or a logfile */
    OX.type = 1u << nd_range(0, 7);
    if (nd_bool()) {
        OA.type = 1u << nd_range(2, 7);
        if (nd_bool()) vp_setclient(&OB, &QB); else OB.type = CONMAN_OBJ_LOGFILE;
    }
    else {
        OB.type = 1u << nd_range(2, 7);
        vp_setclient(&OA, &QA);
    }
    G.typA = OA.type; G.typB = OB.type;
    G.eofA = OA.gotEOF; G.eofB = OB.gotEOF;
    G.notes = G.strs = 0;
    vp_world_save();

    VP_PRE(P_unlink_objs);
    unlink_objs(src, dst);
    VP_POST(Q_unlink_objs);

    VP_REACH("return");
    if (G.notes) VP_REACH("notice");
    if (OA.gotEOF && !G.eofA) VP_REACH("source finished");
    if (OB.gotEOF && !G.eofB) VP_REACH("destination finished");
}
