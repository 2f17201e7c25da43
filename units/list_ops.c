/*VP
{ "properties": ["C11"],
  "sources": ["list.c"],
  "enforce": ["list_create", "list_is_empty", "list_count", "list_append", "list_prepend", "list_push", "list_pop",
     "list_peek", "list_enqueue", "list_dequeue", "list_iterator_create", "list_iterator_reset",
     "list_next", "list_insert", "list_remove", "list_delete"],
  "stub_defs": ["list_node_create", "list_node_destroy", "list_alloc", "list_iterator_alloc"],
  "unwind": 2, "backends": ["sat"]
}
*/
#include "vp.h"
#include "list.h"

/*  A list seen from one arbitrary iterator J: its node(s) around J.  The
 *    insertion and removal primitives are given by the contracts decided in
 *    list_core.
 */
extern struct listNode NP, NR, NQ, NX;
extern struct listIterator J, NJ;
extern struct list L, NL;
void *out_of_memory(void) { VP_DIE(); return NULL; }
void fdel(void *x);
struct {
    int creates, destroys, dels, allocs;
    struct listNode **pp;
    void *x, *deld;
} G;
struct {
    struct listNode *pos, **prev, *cur;
    struct listNode **tail, *head;
    struct listIterator *iNext;
    int count, hasdel, frees;
    void *x, *out;
    struct listNode **slot;
} K;
#undef pthread_mutex_init
#define pthread_mutex_init(m,a) (0)
#define VP_CUR(pos,prev) (*(prev) != (pos) ? *(prev) : NULL)
#define VP_SAMELIST (L.head == K.head && L.tail == K.tail && L.count == K.count && L.iNext == K.iNext)
#define VP_SAMEITER (J.pos == K.pos && J.prev == K.prev)
#define VP_NOOP     (G.creates == 0 && G.destroys == 0 && G.allocs == 0)
#define VP_INS(E, what, sl) \
    E("the element is inserted exactly once, " what, G.creates == 1 && G.pp == (sl) && G.x == K.x && G.destroys == 0) \
    E("the element is returned", RV == K.x) \
    E("the list is unlocked again", VP.held == 0)
#define VP_REM(E, sl) \
    E("the element is removed exactly once, from the right place", G.destroys == 1 && G.pp == (sl) && G.creates == 0) \
    E("the removed element is returned", RV == K.out) \
    E("the list is unlocked again", VP.held == 0)
#define P_list_create(R) R(VP.held == 0)
#define Q_list_create(E) E("a new list is empty and has the given destructor", RV == &NL && NL.head == NULL && NL.tail == &NL.head && NL.count == 0 && NL.iNext == NULL && NL.fDel == fdel)
#define P_list_is_empty(R) R(l == &L && VP.held == 0)
#define Q_list_is_empty(E) E("tells whether the list has no element", (RV != 0) == (K.count == 0)) E("changes nothing", VP_NOOP && VP_SAMELIST && VP.held == 0)
#define P_list_count(R) P_list_is_empty(R)
#define Q_list_count(E) E("tells the number of elements", RV == K.count) E("changes nothing", VP_NOOP && VP_SAMELIST && VP.held == 0)
#define P_list_peek(R) P_list_is_empty(R)
#define Q_list_peek(E) E("tells the first element", RV == (K.head ? K.head->data : NULL)) E("changes nothing", VP_NOOP && VP_SAMELIST && VP.held == 0)
#define P_list_append(R) R(l == &L && x == K.x && VP.held == 0)
#define Q_list_append(E) VP_INS(E, "at the end", K.tail)
#define P_list_enqueue(R) P_list_append(R)
#define Q_list_enqueue(E) VP_INS(E, "at the end", K.tail)
#define P_list_prepend(R) P_list_append(R)
#define Q_list_prepend(E) VP_INS(E, "at the start", &L.head)
#define P_list_push(R) P_list_append(R)
#define Q_list_push(E) VP_INS(E, "at the start", &L.head)
#define P_list_pop(R) P_list_is_empty(R)
#define Q_list_pop(E) VP_REM(E, &L.head)
#define P_list_dequeue(R) P_list_is_empty(R)
#define Q_list_dequeue(E) VP_REM(E, &L.head)
#define P_list_iterator_create(R) P_list_is_empty(R)
#define Q_list_iterator_create(E) \
    E("a new iterator starts before the first element", RV == &NJ && NJ.list == &L && NJ.pos == K.head && NJ.prev == &L.head) \
    E("it is known to the list, as are all earlier ones", L.iNext == &NJ && NJ.iNext == K.iNext && G.allocs == 1) \
    E("the list is otherwise unchanged", G.creates == 0 && G.destroys == 0 && L.head == K.head && L.tail == K.tail && L.count == K.count && VP.held == 0)
#define P_list_iterator_reset(R) R(i == &J && VP.held == 0)
#define Q_list_iterator_reset(E) E("the iterator starts over before the first element", J.pos == K.head && J.prev == &L.head) E("the list is unchanged", VP_NOOP && VP_SAMELIST && VP.held == 0)
#define P_list_next(R) P_list_iterator_reset(R)
#define Q_list_next(E) \
    E("the next element is returned, or NULL at the end", RV == (K.pos ? K.pos->data : NULL)) \
    E("it becomes the current one, and its successor the next", J.pos == (K.pos ? K.pos->next : NULL) && VP_CUR(J.pos, J.prev) == K.pos) \
    E("the list is unchanged", VP_NOOP && VP_SAMELIST && VP.held == 0)
#define P_list_insert(R) R(i == &J && x == K.x && VP.held == 0)
#define Q_list_insert(E) VP_INS(E, "before the current element", K.slot)
#define P_list_remove(R) P_list_iterator_reset(R)
#define Q_list_remove(E) \
    E("the current element is removed exactly once, if there is one", K.cur ? (G.destroys == 1 && G.pp == K.slot) : G.destroys == 0) \
    E("the removed element is returned", RV == (K.cur ? K.out : NULL)) \
    E("nothing else changes", G.creates == 0 && G.allocs == 0 && G.dels == 0 && VP.held == 0)
#define P_list_delete(R) P_list_iterator_reset(R)
#define Q_list_delete(E) \
    E("the current element is removed exactly once, if there is one", K.cur ? (G.destroys == 1 && G.pp == K.slot) : G.destroys == 0) \
    E("the destructor gets the removed element exactly once", K.cur && K.hasdel && K.out ? (G.dels == 1 && G.deld == K.out) : G.dels == 0) \
    E("tells whether an element was removed", RV == (K.cur && K.out != NULL)) \
    E("nothing else changes", G.creates == 0 && G.allocs == 0 && VP.held == 0)

#include "list.c"

struct listNode NP, NR, NQ, NX;
struct listIterator J, NJ;
struct list L, NL;
void fdel(void *x) { G.dels++; G.deld = x; }
static List list_alloc(void) { G.allocs++; return &NL; }
static ListIterator list_iterator_alloc(void) { G.allocs++; return &NJ; }
static void * list_node_create(List l, ListNode *pp, void *x)
{
    VP_ASSERT(VP.held == 1, "the list is locked while it changes");
    VP_ASSERT(l == &L, "the right list changes");
    G.creates++; G.pp = pp; G.x = x;
    return x;
}
static void * list_node_destroy(List l, ListNode *pp)
{
    VP_ASSERT(VP.held == 1, "the list is locked while it changes");
    VP_ASSERT(l == &L, "the right list changes");
    G.destroys++; G.pp = pp;
    return K.out;
}
#define VPF VP_ASSIGNS(L.head, L.tail, L.count, L.iNext, NL, J, NJ, G, VP)
List list_create(ListDelF f) VP_REQ(P_list_create) VPF VP_ENS(Q_list_create);
int list_is_empty(List l) VP_REQ(P_list_is_empty) VPF VP_ENS(Q_list_is_empty);
int list_count(List l) VP_REQ(P_list_count) VPF VP_ENS(Q_list_count);
void * list_append(List l, void *x) VP_REQ(P_list_append) VPF VP_ENS(Q_list_append);
void * list_prepend(List l, void *x) VP_REQ(P_list_prepend) VPF VP_ENS(Q_list_prepend);
void * list_push(List l, void *x) VP_REQ(P_list_push) VPF VP_ENS(Q_list_push);
void * list_pop(List l) VP_REQ(P_list_pop) VPF VP_ENS(Q_list_pop);
void * list_peek(List l) VP_REQ(P_list_peek) VPF VP_ENS(Q_list_peek);
void * list_enqueue(List l, void *x) VP_REQ(P_list_enqueue) VPF VP_ENS(Q_list_enqueue);
void * list_dequeue(List l) VP_REQ(P_list_dequeue) VPF VP_ENS(Q_list_dequeue);
ListIterator list_iterator_create(List l) VP_REQ(P_list_iterator_create) VPF VP_ENS(Q_list_iterator_create);
void list_iterator_reset(ListIterator i) VP_REQ(P_list_iterator_reset) VPF VP_ENS(Q_list_iterator_reset);
void * list_next(ListIterator i) VP_REQ(P_list_next) VPF VP_ENS(Q_list_next);
void * list_insert(ListIterator i, void *x) VP_REQ(P_list_insert) VPF VP_ENS(Q_list_insert);
void * list_remove(ListIterator i) VP_REQ(P_list_remove) VPF VP_ENS(Q_list_remove);
int list_delete(ListIterator i) VP_REQ(P_list_delete) VPF VP_ENS(Q_list_delete);

void harness(void)
{
    List l = &L;
    ListIterator i = &J;
    static int dx, dp, dr, dq;
    void *x = &dx;
    int c, n;

    n = nd_range(0, 3);
    /* J sits at the slot of the P, R or Q at hand; the list has any length */
    L.head = n > 0 ? &NP : NULL;
    NP.next = n > 1 ? &NR : NULL;
    NR.next = n > 2 ? &NQ : NULL;
    NQ.next = nd_bool() ? &NX : NULL;
    NX.next = NULL;
    NP.data = nd_bool() ? (void *) &dp : NULL; NR.data = &dr; NQ.data = &dq;
    L.tail = n == 0 ? &L.head : n == 1 ? &NP.next : n == 2 ? &NR.next : &NQ.next;
    L.count = n < 3 ? n : nd_range(3, 1000000);
    L.iNext = nd_bool() ? &J : NULL;
    K.hasdel = nd_bool();
    L.fDel = K.hasdel ? fdel : NULL;
    c = nd_range(0, n);
    J.prev = c == 0 ? &L.head : c == 1 ? &NP.next : c == 2 ? &NR.next : &NQ.next;
    J.pos = *J.prev;
    if (J.pos && nd_bool()) J.pos = J.pos->next;
    J.list = l;
    J.iNext = NULL;
    K.pos = J.pos; K.prev = J.prev; K.cur = VP_CUR(J.pos, J.prev);
    K.slot = J.prev;
    K.tail = L.tail; K.head = L.head; K.iNext = L.iNext; K.count = L.count;
    K.x = x;
    K.out = nd_bool() ? (void *) &dr : NULL;
    G.creates = G.destroys = G.dels = G.allocs = 0;
    G.pp = NULL; G.x = G.deld = NULL;
    VP.held = 0; VP.err = 0;
#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
#if VP_OP == 0
    { ListDelF f = fdel; CALL(list_create, List, (f)) }
#elif VP_OP == 1
    CALL(list_is_empty, int, (l))
#elif VP_OP == 2
    CALL(list_count, int, (l))
#elif VP_OP == 3
    CALL(list_append, void *, (l, x))
#elif VP_OP == 4
    CALL(list_prepend, void *, (l, x))
#elif VP_OP == 5
    CALL(list_push, void *, (l, x))
#elif VP_OP == 6
    CALL(list_pop, void *, (l))
#elif VP_OP == 7
    CALL(list_peek, void *, (l))
#elif VP_OP == 8
    CALL(list_enqueue, void *, (l, x))
#elif VP_OP == 9
    CALL(list_dequeue, void *, (l))
#elif VP_OP == 10
    CALL(list_iterator_create, ListIterator, (l))
#elif VP_OP == 11
    CALLV(list_iterator_reset, (i))
#elif VP_OP == 12
    CALL(list_next, void *, (i))
#elif VP_OP == 13
    CALL(list_insert, void *, (i, x))
#elif VP_OP == 14
    CALL(list_remove, void *, (i))
#else
    CALL(list_delete, int, (i))
#endif
    if (n == 0) VP_REACH("empty");
    else VP_REACH("not empty");
}
