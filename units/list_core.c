/*VP
{ "properties": ["C11"],
  "sources": ["list.c"],
  "enforce": ["list_node_create", "list_node_destroy"],
  "stub_defs": ["list_node_alloc", "list_node_free"],
  "unwind": 2, "bound_unwind": 5, "backends": ["sat"],
  "bound_text": "at most 3 iterators alive on the list",
  "loops": [
   {"func": "list_node_create", "nth": 0, "count": 1, "locals": ["i"],
     "assigns": "$LOCALS, J, Z, G, VP", "ghost": "VP_ITER(i);", "invariant": ["VP_CHAIN(i) && VP_JOK(G.seen)"]},
   {"func": "list_node_destroy", "nth": 0, "count": 1, "locals": ["i"],
     "assigns": "$LOCALS, J, Z, G, VP", "ghost": "VP_ITER(i);", "invariant": ["VP_CHAIN(i) && VP_JOK(G.seen)"]} ]
}
*/
#include "vp.h"
#include "list.h"

/*  The part of the heap an insertion or removal at slot pp can touch: the node
 *    P owning pp (unless pp is the head), the node R at pp, any node B before
 *    and Q after them; one arbitrary iterator J, and Z for all the others.
 */
extern struct listNode NP, NR, NB, NQ, NN;
extern struct listIterator J, Z;
extern struct list L;
void *out_of_memory(void) { VP_DIE(); return NULL; }
struct {
    int seen;                           /* J has been adjusted               */
} G;
struct {
    int allocs, frees;
    struct listNode *freed;
} A;
struct {
    struct listNode **pp, *r, *rn;      /* the slot, its node, the one after */
    struct listNode *pos, **prev, *cur; /* J on entry                        */
    struct listNode **tail, *head, *pn, *bn, *qn;
    int count, del;
    void *x;
} K;
#define VP_CHAIN(i) ((i) == &Z || ((i) == &J && !G.seen) || ((i) == NULL && G.seen))
#define VP_ITER(i) do { if ((i) == &J) { (i) = &J; G.seen = 1; J.iNext = nd_bool() ? &Z : NULL; } \
    else { VP_PIN(i, &Z); Z.pos = nd_bool() ? K.r : nd_bool() ? K.rn : NULL; Z.prev = nd_bool() ? K.pp : nd_bool() ? &NR.next : &NQ.next; \
        Z.iNext = nd_bool() ? &Z : G.seen ? NULL : &J; } } while (0)
/*  J's state: not yet adjusted, or right for the list as it now is  */
/*  (dereferences of J by cases: its members are arbitrary after the loop)  */
#define VP_SLOT(p)  ((p) == &L.head || (p) == &NB.next || (p) == &NP.next || (p) == &NR.next || (p) == &NQ.next || (p) == &NN.next)
#define VP_AT(p)    ((p) == &L.head ? L.head : (p) == &NB.next ? NB.next : (p) == &NP.next ? NP.next : (p) == &NR.next ? NR.next : (p) == &NQ.next ? NQ.next : NN.next)
#define VP_NXT(n)   ((n) == &NB ? NB.next : (n) == &NP ? NP.next : (n) == &NR ? NR.next : (n) == &NQ ? NQ.next : NN.next)
#define VP_CUR(pos,prev) (VP_AT(prev) != (pos) ? VP_AT(prev) : NULL)
#define VP_JVALID (VP_SLOT(J.prev) && (J.pos == VP_AT(J.prev) || (VP_AT(J.prev) != NULL && J.pos == VP_NXT(VP_AT(J.prev)))))
#define VP_JNEW (K.del ? \
      (J.prev != &NR.next && J.pos == (K.pos == &NR ? K.rn : K.pos) && VP_JVALID \
        && (VP_CUR(J.pos, J.prev) == NULL || VP_CUR(J.pos, J.prev) == K.cur) \
        && VP_IMPLIES(K.cur == &NR, VP_CUR(J.pos, J.prev) == NULL) \
        && VP_IMPLIES(K.cur != &NR && K.pos != &NR, VP_CUR(J.pos, J.prev) == K.cur)) \
    : (J.pos == (K.pos == K.r && K.prev != K.pp ? &NN : K.pos) && VP_JVALID && VP_CUR(J.pos, J.prev) == K.cur))
#define VP_JOK(seen) ((seen) ? VP_JNEW : (J.pos == K.pos && J.prev == K.prev))

#define MINE(p) ((p) == &L.head || (p) == &NP.next)
#define P_list_node_create(R) R(l == &L && pp == K.pp && x == K.x)
#define Q_list_node_create(E) \
    E("the element is inserted, once, exactly at the given place", RV == K.x && *K.pp == &NN && NN.data == K.x && NN.next == K.r && A.allocs == 1 && A.frees == 0) \
    E("the end of the list is right", L.tail == (K.r ? K.tail : &NN.next) && *L.tail == NULL) \
    E("the count is right", L.count == K.count + 1) \
    E("no other link changes", NR.next == K.rn && NB.next == K.bn && NQ.next == K.qn && (K.pp == &NP.next || NP.next == K.pn) && (K.pp == &L.head || L.head == K.head)) \
    E("every iterator keeps its element, and visits the new one exactly if it lies ahead", VP_JNEW)
#define P_list_node_destroy(R) R(l == &L && pp == K.pp)
#define Q_list_node_destroy(E) \
    E("the element at the given place is removed, and returned", K.r ? (RV == NR.data && *K.pp == K.rn) : (RV == NULL && *K.pp == NULL)) \
    E("its node is released exactly once", K.r ? (A.frees == 1 && A.freed == &NR) : A.frees == 0) \
    E("the end of the list is right", L.tail == (K.r && !K.rn ? K.pp : K.tail) && *L.tail == NULL) \
    E("the count is right", L.count == K.count - (K.r ? 1 : 0)) \
    E("no other link changes", NB.next == K.bn && NQ.next == K.qn && (K.pp == &NP.next || NP.next == K.pn) && (K.pp == &L.head || L.head == K.head)) \
    E("every iterator skips the removed element and no other", K.r ? VP_JNEW : (J.pos == K.pos && J.prev == K.prev))

#include "list.c"

struct listNode NP, NR, NB, NQ, NN;
struct listIterator J, Z;
struct list L;
static ListNode list_node_alloc(void) { A.allocs++; return &NN; }
static void list_node_free(ListNode p)
{
    VP_ASSERT(p == &NR, "only the removed node is released");
    A.frees++; A.freed = p;
}
static void * list_node_create(List l, ListNode *pp, void *x)
    VP_REQ(P_list_node_create) VP_ASSIGNS(L.head, L.tail, L.count, NP.next, NN, J, Z, G, A, VP) VP_ENS(Q_list_node_create);
static void * list_node_destroy(List l, ListNode *pp)
    VP_REQ(P_list_node_destroy) VP_ASSIGNS(L.head, L.tail, L.count, NP.next, NR, J, Z, G, A, VP) VP_ENS(Q_list_node_destroy);

void harness(void)
{
    List l = &L;
    ListNode *pp;
    void *x = &L, *vp_rv;
    static int dr;
    int c, hasr, hasq;

    hasr = nd_bool();
    hasq = hasr && nd_bool();
    pp = nd_bool() ? &L.head : &NP.next;
    NB.next = nd_bool() ? &NB : &NP;
    L.head = nd_bool() ? &NB : &NP;
    NP.next = &NR;
    *pp = hasr ? &NR : NULL;
    NR.next = hasq ? &NQ : NULL;
    NR.data = &dr;
    NQ.next = nd_bool() ? &NQ : NULL;
    L.tail = !hasr ? pp : !hasq ? &NR.next : &NQ.next;
    if (hasq) VP_ASSUME(NQ.next == NULL);
    L.count = nd_range(hasr, 1000000);
    /* an arbitrary iterator of the list */
    c = nd_range(0, 4);
    VP_ASSUME((c != 3 || hasr) && (c != 4 || hasq) && (pp != &L.head || (c != 1 && c != 2)));
    J.prev = c == 0 ? &L.head : c == 1 ? &NB.next : c == 2 ? &NP.next : c == 3 ? &NR.next : &NQ.next;
    J.pos = *J.prev;
    if (J.pos && nd_bool()) J.pos = J.pos->next;
    J.list = Z.list = l;
    Z.pos = NULL; Z.prev = &NB.next;
#ifdef VP_PROVE
    L.iNext = nd_bool() ? &J : &Z;
    Z.iNext = nd_bool() ? &J : &Z;
#else
    L.iNext = nd_bool() ? &J : &Z;
    Z.iNext = L.iNext == &Z ? &J : NULL;
    J.iNext = L.iNext == &J && nd_bool() ? &Z : NULL;
#endif
    K.pp = pp; K.r = *pp; K.rn = hasr ? NR.next : NULL;
    if (!hasr) K.rn = NR.next;
    K.pos = J.pos; K.prev = J.prev; K.cur = VP_CUR(J.pos, J.prev);
    K.tail = L.tail; K.head = L.head; K.pn = NP.next; K.bn = NB.next; K.qn = NQ.next;
    K.count = L.count;
    K.x = x;
    K.del = (VP_OP == 1);
    G.seen = 0;
    A.allocs = A.frees = 0;
    A.freed = NULL;
    VP.held = 0;
#if VP_OP == 0
    VP_PRE(P_list_node_create);
    vp_rv = list_node_create(l, pp, x);
    VP_POST(Q_list_node_create);
#else
    VP_PRE(P_list_node_destroy);
    vp_rv = list_node_destroy(l, pp);
    VP_POST(Q_list_node_destroy);
#endif
    if (hasr) VP_REACH("occupied");
    else VP_REACH("at the end");
}
