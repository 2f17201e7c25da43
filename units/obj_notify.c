/*VP
{ "properties": ["C27"],
  "sources": ["server-obj.c"],
  "enforce": ["notify_console_objs"],
  "functions": ["notify_console_objs", "find_obj"],
  "stub_defs": ["write_obj_data"],
  "unwind": 8, "bound_unwind": 10,
  "backends": ["uf", "z3"],
  "bound_text": "at most 2 observers besides the two arbitrary objects",
  "loops": [
    {"func": "notify_console_objs", "nth": 0, "count": 2, "kind": "while", "assigns": "$LOCALS, IT, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LR[B] && IT[0].left >= 0 && IT[0].left <= LR[B].others && !IT[1].live && !IT[2].live",
       "IT[0].seen[B] == 0 && (IT[0].seen[A] == 0 || (IT[0].seen[A] == 1 && LR[B].has[A])) && (IT[0].seen[X] == 0 || (IT[0].seen[X] == 1 && LR[B].has[X]))",
       "G.bad == 0 && G.got[A] == IT[0].seen[A] && G.got[X] == IT[0].seen[X] && G.got[B] == 0 && VP.held == 0"]},
    {"func": "notify_console_objs", "nth": 1, "kind": "while", "assigns": "$LOCALS, IT, G, VP",
     "invariant": ["IT[0].live && IT[0].l == &LW[B] && IT[0].left >= 0 && IT[0].left <= LW[B].others && !IT[1].live && !IT[2].live",
       "IT[0].seen[B] == 0 && (IT[0].seen[A] == 0 || (IT[0].seen[A] == 1 && LW[B].has[A])) && (IT[0].seen[X] == 0 || (IT[0].seen[X] == 1 && LW[B].has[X]))",
       "G.bad == 0 && G.got[B] == 0 && VP.held == 0",
       "G.got[A] == ((LR[B].has[A] || IT[0].seen[A]) ? 1 : 0) && G.got[X] == ((LR[B].has[X] || IT[0].seen[X]) ? 1 : 0)"]}],
  "trusted": ["strlen(msg) is the length of the message, any value", "list API contract (sets of elements; discharged for list.c in the list units)"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "objworld.h"

struct { int got[3]; int bad; } G;
struct { char *msg; int len; } K;

/*  strlen of the message is K.len */
static size_t vp_len(const char *s)
{
    VP_ASSERT(s == K.msg, "length of the message");
    return K.len;
}
#define strlen(s) vp_len(s)
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    if (src != K.msg || len != K.len || !isInfo) G.bad = 1;
    if (obj == &OTHER) VP_ASSERT(LR[B].others > 0 || LW[B].others > 0, "only observers are told");
    else G.got[vp_ix(obj)]++;
    return len;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_notify_console_objs(R) R(console == &OB && msg == K.msg)
#define Q_notify_console_objs(E) \
    E("each reader or writer of the console is told exactly once, nobody else is", \
        G.got[A] == ((K.len > 0 && (LR[B].has[A] || LW[B].has[A])) ? 1 : 0) \
        && G.got[X] == ((K.len > 0 && (LR[B].has[X] || LW[B].has[X])) ? 1 : 0) && G.got[B] == 0) \
    E("the whole message is queued as information", G.bad == 0) \
    E("iterators released", !IT[0].live && !IT[1].live && !IT[2].live)

void notify_console_objs(obj_t *console, char *msg)
    VP_REQ(P_notify_console_objs)
    VP_ASSIGNS(IT, G, VP)
    VP_ENS(Q_notify_console_objs);

#include "server-obj.c"

char buf[MAX_LINE];
void harness(void)
{
    obj_t *console = &OB;
    char *msg;

    vp_world();
    OA.type = nd_bool() ? CONMAN_OBJ_CLIENT : CONMAN_OBJ_LOGFILE;
    OX.type = nd_bool() ? CONMAN_OBJ_CLIENT : CONMAN_OBJ_LOGFILE;
    OB.type = 1u << nd_range(2, 7);
    K.len = nd_range(0, MAX_LINE - 1);
    if (nd_range(0, 9) == 0) { K.len = 0; K.msg = NULL; }
    else K.msg = buf;
    buf[0] = (K.len > 0) ? nd_range(1, 127) : 0;
    msg = K.msg;
    G.bad = G.got[0] = G.got[1] = G.got[2] = 0;

    VP_PRE(P_notify_console_objs);
    notify_console_objs(console, msg);
    VP_POST(Q_notify_console_objs);

    VP_REACH("return");
    if (G.got[A] && LR[B].has[A] && LW[B].has[A]) VP_REACH("reader and writer");
    if (G.got[A] && G.got[X]) VP_REACH("both");
}
