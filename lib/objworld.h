/*  Three objects and their attachment lists, used by the attachment units:
 *    A and B take part in the operation, X is an arbitrary third object, and
 *    any number of further objects are represented by OTHER.
 */
obj_t OA, OB, OX, OTHER;
req_t QA, QB, QX, QO;
tpoll_t tp_global;

#define VP_NT 3
static void * vp_tr(int i)
{
    return (i == 0) ? (void *) &OA : (i == 1) ? (void *) &OB : (void *) &OX;
}
#define VP_TRACKED(i) vp_tr(i)
static void * vp_other(void) { return &OTHER; }
#define VP_OTHER() vp_other()
#include "stub_list.h"
enum { A, B, X };
struct list LR[3], LW[3], LO[2];        /* readers and writers of A, B, X    */
struct list LR0[3], LW0[3];             /* their values on entry             */

static int vp_ix(obj_t *o) { return o == &OA ? 0 : o == &OB ? 1 : o == &OX ? 2 : 3; }

/*  j is in i's readers iff i is in j's writers; nobody is attached to itself  */
#define SYM(i,j) ((LR[i].has[j]) == (LW[j].has[i]))
#define SYMALL (SYM(A,B) && SYM(B,A) && SYM(A,X) && SYM(X,A) && SYM(B,X) && SYM(X,B) \
    && !LR[A].has[A] && !LR[B].has[B] && !LR[X].has[X] \
    && !LW[A].has[A] && !LW[B].has[B] && !LW[X].has[X])

static void vp_world(void)
{
    int i, j;
    obj_t *o[3];

    VP_HAVOC(OA); VP_HAVOC(OB); VP_HAVOC(OX); VP_HAVOC(OTHER);
    o[0] = &OA; o[1] = &OB; o[2] = &OX;
    QA.user = QB.user = QX.user = QO.user = "user";
    QA.host = QB.host = QX.host = QO.host = "host";
    QA.tty = nd_bool() ? "tty" : NULL; QB.tty = QX.tty = QO.tty = NULL;
    OA.aux.client.req = &QA; OB.aux.client.req = &QB; OX.aux.client.req = &QX;
    OTHER.aux.client.req = &QO;
    OTHER.type = CONMAN_OBJ_CLIENT;
    OTHER.name = "other";
    OTHER.readers = &LO[0]; OTHER.writers = &LO[1];
    for (i = 0; i < 3; i++) {
        o[i]->name = "obj";
        o[i]->readers = &LR[i];
        o[i]->writers = &LW[i];
        o[i]->fd = nd_range(-1, 1 << 20);
        o[i]->gotEOF = nd_bool();
        LR[i].others = nd_range(0, VP_LIM(1000000, 2));
        LW[i].others = nd_range(0, VP_LIM(1000000, 2));
        for (j = 0; j < 3; j++) LR[i].has[j] = LW[i].has[j] = 0;
    }
    LO[0].others = LO[1].others = 1;
    for (i = 0; i < 3; i++)
        for (j = 0; j < 3; j++)
            if (i != j) LR[i].has[j] = LW[j].has[i] = nd_bool();
    for (i = 0; i < VP_NIT; i++) IT[i].live = 0;
    VP.held = 0;
}
static void vp_world_save(void)
{
    int i;
    for (i = 0; i < 3; i++) { LR0[i] = LR[i]; LW0[i] = LW[i]; }
}
static void vp_setclient(obj_t *o, req_t *q)
{
    o->type = CONMAN_OBJ_CLIENT;
    o->aux.client.req = q;
    q->enableForce = nd_bool(); q->enableJoin = nd_bool(); q->enableBroadcast = nd_bool();
    q->enableQuiet = nd_bool();
}
#define LSAME(l,m) ((l).others == (m).others && (l).has[0] == (m).has[0] \
    && (l).has[1] == (m).has[1] && (l).has[2] == (m).has[2])
/*  equal, except possibly in element j  */
#define LSAMEX(l,m,j) ((l).others == (m).others && ((j) == 0 || (l).has[0] == (m).has[0]) \
    && ((j) == 1 || (l).has[1] == (m).has[1]) && ((j) == 2 || (l).has[2] == (m).has[2]))
#define LEMPTY(l) ((l).others == 0 && !(l).has[0] && !(l).has[1] && !(l).has[2])
