/*VP
{ "properties": ["C10", "C09", "C27"],
  "sources": ["server-obj.c"],
  "enforce": ["link_objs"],
  "functions": ["link_objs", "find_obj"],
  "stub_defs": ["notify_console_objs", "unlink_obj", "write_obj_data"],
  "unwind": 6, "bound_unwind": 10,
  "backends": ["uf", "z3"],
  "bound_text": "at most 2 writers besides the three arbitrary objects",
  "loops": [
    {"func": "link_objs", "nth": 0, "count": 2, "kind": "while", "assigns": "$LOCALS, __CPROVER_object_whole(buf), IT, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LW[B] && IT[0].left >= 0 && IT[0].left <= LW[B].others",
       "!IT[1].live && !IT[2].live && G.badtold == 0 && G.strs == 1 && G.notes == 1 && VP.held == 0",
       "IT[0].seen[A] == 0 && (IT[0].seen[X] == 0 || (IT[0].seen[X] == 1 && LW[B].has[X])) && IT[0].seen[B] == 0",
       "G.told == (LW[B].others - IT[0].left) + IT[0].seen[X] && G.unl[A] == 0 && G.unl[B] == 0 && G.unl[X] == 0 && G.unlo == 0"]},
    {"func": "link_objs", "nth": 1, "kind": "while", "assigns": "$LOCALS, IT, G, VP, LR, LW",
     "invariant": ["IT[0].live && IT[0].l == &LW[B] && LW[B].others >= 0 && IT[0].left == LW[B].others",
       "!IT[1].live && !IT[2].live && G.badtold == 0 && G.strs == 1 && G.notes == 1 && VP.held == 0",
       "G.told == LW0[B].others + LW0[B].has[X]",
       "G.unlo == LW0[B].others - LW[B].others && G.unl[A] == 0 && G.unl[B] == 0",
       "(LW[B].has[X] && G.unl[X] == 0 && LW0[B].has[X] && LSAME(LR[X], LR0[X])) || (!LW[B].has[X] && LW0[B].has[X] && G.unl[X] == 1 && LEMPTY(LR[X])) || (!LW0[B].has[X] && !LW[B].has[X] && G.unl[X] == 0 && LSAME(LR[X], LR0[X]))",
       "!LW[B].has[A] && !LW[B].has[B]",
       "LSAMEX(LR[A], LR0[A], X) && (G.unl[X] == 1 || LR[A].has[X] == LR0[A].has[X]) && IT[0].seen[A] == 0 && IT[0].seen[B] == 0 && (IT[0].seen[X] == 0 || (IT[0].seen[X] == 1 && !LW[B].has[X]))"]}],
  "trusted": ["list API contract (sets of elements; discharged for list.c in the list units)",
              "snprintf/create_short_time_string: some NUL-terminated text"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"
#include "objworld.h"
#include "stub_str.h"

struct { int strs, notes, badtold; long told; int unl[3]; long unlo; } G;
struct { int typA, typB; } K;

char * create_short_time_string(time_t t)
{
    char *p = vp_alloc(8); p[0] = 0; G.strs++; return p;
}
#define free(p) do { G.strs--; } while (0)
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

/*  contract of notify_console_objs (unit obj_notify): every observer of the
 *    console is told; so it must be called while the displaced writers are
 *    still attached  */
void notify_console_objs(obj_t *console, char *msg)
{
    VP_ASSERT(console == &OB, "observers of the console concerned are notified");
    VP_ASSERT(LSAME(LW[B], LW0[B]) && LSAME(LR[B], LR0[B]),
        "those attached before the request are the ones notified");
    VP_ASSERT(VP_W_OK(msg, 1), "message is text");
    G.notes++;
}
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    if (obj != &OA || !isInfo) G.badtold = 1;
    VP_ASSERT(LSAME(LW[B], LW0[B]), "the newcomer is told about those attached before the request");
    VP_ASSERT(len >= 0 && VP_R_OK(src, len), "message range is valid");
    G.told++;
    return len;
}
/*  contract of unlink_obj (unit obj_unlinkall)  */
void unlink_obj(obj_t *o)
{
    int k = vp_ix(o), i;
    VP_ASSERT(o != &OA && o != &OB, "only existing writers lose their access");
    if (k == X) {
        VP_ASSERT(LW[B].has[X], "only writers of the console are displaced");
        for (i = 0; i < 3; i++) { LR[i].has[X] = 0; LW[i].has[X] = 0; LR[X].has[i] = LW[X].has[i] = 0; }
        LR[X].others = LW[X].others = 0;
        G.unl[X]++;
    }
    else {
        VP_ASSERT(LW[B].others > 0, "only writers of the console are displaced");
        LW[B].others--;
        G.unlo++;
    }
}
#define CLI(t) ((t) == CONMAN_OBJ_CLIENT)
#define ISCON(t) ((t) & CONMAN_OBJ_IS_CONSOLE)
#define SESS (CLI(K.typA) && ISCON(K.typB))
#define STOLEN (SESS && QA.enableForce && !LEMPTY(LW0[B]))
#define P_link_objs(R) \
    R(src == &OA && dst == &OB) \
    R(!LR[A].has[B] && !LW[B].has[A])
#define Q_link_objs(E) \
    E("attached on both sides", LR[A].has[B] && LW[B].has[A]) \
    E("a forced connection leaves no other writer", \
        VP_IMPLIES(STOLEN, LW[B].others == 0 && !LW[B].has[X] && !LW[B].has[B])) \
    E("without force every writer keeps its access", VP_IMPLIES(!STOLEN, LSAMEX(LW[B], LW0[B], A))) \
    E("displaced writers are detached exactly once each, nobody else is", \
        G.unl[A] == 0 && G.unl[B] == 0 && G.unl[X] == ((STOLEN && LW0[B].has[X]) ? 1 : 0) \
        && G.unlo == (STOLEN ? LW0[B].others : 0)) \
    E("other attachments of the source are untouched", LR[A].others == LR0[A].others && !LR[A].has[A] \
        && (G.unl[X] || LR[A].has[X] == LR0[A].has[X])) \
    E("a third object that is not displaced keeps its attachments", \
        VP_IMPLIES(!(STOLEN && LW0[B].has[X]), LSAME(LR[X], LR0[X]))) \
    E("observers of a console learn of a new writing client, exactly once", G.notes == (SESS ? 1 : 0)) \
    E("the new client is told, as information, about each existing writer", \
        G.badtold == 0 && G.told == (SESS ? LW0[B].others + LW0[B].has[X] : 0)) \
    E("temporary strings released", G.strs == 0) \
    E("iterators released", !IT[0].live && !IT[1].live && !IT[2].live)

void link_objs(obj_t *src, obj_t *dst)
    VP_REQ(P_link_objs)
    VP_ASSIGNS(LR, LW, IT, G, VP)
    VP_ENS(Q_link_objs);

#include "server-obj.c"

void harness(void)
{
    obj_t *src = &OA, *dst = &OB;

    vp_world();
    vp_setclient(&OX, &QX);             /* writers of a console are clients  */
    if (nd_bool()) {
        vp_setclient(&OA, &QA);
        OB.type = 1u << nd_range(2, 7);
    }
    else {
        OA.type = 1u << nd_range(2, 7);
        if (nd_bool()) vp_setclient(&OB, &QB); else OB.type = CONMAN_OBJ_LOGFILE;
    }
    K.typA = OA.type; K.typB = OB.type;
    G.notes = G.strs = G.badtold = 0;
    G.told = G.unlo = 0;
    G.unl[0] = G.unl[1] = G.unl[2] = 0;
    vp_world_save();

    VP_PRE(P_link_objs);
    link_objs(src, dst);
    VP_POST(Q_link_objs);

    VP_REACH("return");
    if (G.notes) VP_REACH("notice");
    if (G.unl[X]) VP_REACH("stolen from X");
    if (G.told > 2) VP_REACH("several writers");
}
