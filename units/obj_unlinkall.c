/*VP
{ "properties": ["C10"],
  "sources": ["server-obj.c"],
  "enforce": ["unlink_obj"],
  "functions": ["unlink_obj"],
  "stub_defs": ["unlink_objs"],
  "unwind": 6, "bound_unwind": 12,
  "backends": ["uf", "z3"],
  "bound_text": "at most 2 further attachments besides the two arbitrary objects",
  "loops": [
    {"func": "unlink_obj", "nth": 0, "count": 2, "kind": "while", "assigns": "$LOCALS, LR, LW, G, VP",
     "invariant": ["SYMALL && LW[B].others >= 0 && LR[B].others >= 0 && VP.held == 0",
        "LSAMEX(LR[A], LR0[A], B) && LSAMEX(LW[A], LW0[A], B) && LSAMEX(LR[X], LR0[X], B) && LSAMEX(LW[X], LW0[X], B)",
        "VP_IMPLIES(LW[B].has[A], LW0[B].has[A]) && VP_IMPLIES(LW[B].has[X], LW0[B].has[X]) && VP_IMPLIES(LR[B].has[A], LR0[B].has[A]) && VP_IMPLIES(LR[B].has[X], LR0[B].has[X])"]},
    {"func": "unlink_obj", "nth": 1, "kind": "while", "assigns": "$LOCALS, LR, LW, G, VP",
     "invariant": ["SYMALL && LW[B].others >= 0 && LR[B].others >= 0 && VP.held == 0",
        "LSAMEX(LR[A], LR0[A], B) && LSAMEX(LW[A], LW0[A], B) && LSAMEX(LR[X], LR0[X], B) && LSAMEX(LW[X], LW0[X], B)",
        "LEMPTY(LW[B])",
        "VP_IMPLIES(LW[B].has[A], LW0[B].has[A]) && VP_IMPLIES(LW[B].has[X], LW0[B].has[X]) && VP_IMPLIES(LR[B].has[A], LR0[B].has[A]) && VP_IMPLIES(LR[B].has[X], LR0[B].has[X])"]}],
  "trusted": ["list API contract (sets of elements; discharged for list.c in the list units)"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "objworld.h"

struct { int n; } G;

/*  contract of unlink_objs (unit obj_unlink)  */
void unlink_objs(obj_t *src, obj_t *dst)
{
    int s = vp_ix(src), d = vp_ix(dst);
    VP_ASSERT(src == &OB || dst == &OB, "only attachments of the object concerned are removed");
    VP_ASSERT(src != dst, "an object is not attached to itself");
    G.n++;
    if (s == 3) { VP_ASSERT(LW[B].others > 0, "a writer is attached"); LW[B].others--; }
    else if (d == 3) { VP_ASSERT(LR[B].others > 0, "a reader is attached"); LR[B].others--; }
    else { LR[s].has[d] = 0; LW[d].has[s] = 0; }
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_unlink_obj(R) R(obj == &OB && SYMALL && VP.held == 0)
#define Q_unlink_obj(E) \
    E("nothing is attached to the object any more", LEMPTY(LR[B]) && LEMPTY(LW[B]) \
        && !LR[A].has[B] && !LR[X].has[B] && !LW[A].has[B] && !LW[X].has[B]) \
    E("no other attachment is disturbed", LSAMEX(LR[A], LR0[A], B) && LSAMEX(LW[A], LW0[A], B) \
        && LSAMEX(LR[X], LR0[X], B) && LSAMEX(LW[X], LW0[X], B)) \
    E("attachments stay symmetric", SYMALL)

void unlink_obj(obj_t *obj)
    VP_REQ(P_unlink_obj)
    VP_ASSIGNS(LR, LW, G, VP, IT)
    VP_ENS(Q_unlink_obj);

#include "server-obj.c"

void harness(void)
{
    obj_t *obj = &OB;

    vp_world();
    OA.type = 1u << nd_range(0, 7);
    OX.type = 1u << nd_range(0, 7);
    OB.type = 1u << nd_range(0, 7);
    G.n = 0;
    vp_world_save();

    VP_PRE(P_unlink_obj);
    unlink_obj(obj);
    VP_POST(Q_unlink_obj);

    VP_REACH("return");
}
