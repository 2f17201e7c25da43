/*VP
{ "properties": ["C11"],
  "sources": ["list.c"],
  "enforce": ["list_alloc", "list_node_alloc", "list_iterator_alloc", "list_free", "list_node_free", "list_iterator_free"],
  "unwind": 33, "backends": ["sat"],
  "trusted": ["malloc/free of the C library"]
}
*/
#include "vp.h"
#include "list.h"

/*  The free lists: a node handed out is not in use by anyone else, and is on no
 *    free list until it is released.  (The chunk loops have the constant bound
 *    LIST_ALLOC and are unwound completely.)
 */
void *out_of_memory(void) { VP_DIE(); return NULL; }
struct { int allocs, fail; void *chunk; size_t size; } G;
struct { int some; } K;
static void *stub_malloc(size_t n);
#define malloc stub_malloc
#include "list.c"
#undef malloc
static struct list chunk1[LIST_ALLOC];
static struct listNode chunk2[LIST_ALLOC];
static struct listIterator chunk3[LIST_ALLOC];
static struct list l1, l2;
static struct listNode n1, n2;
static struct listIterator i1, i2;
static void *stub_malloc(size_t n)
{
    VP_ASSERT(G.allocs == 0, "memory is fetched at most once");
    G.allocs++;
    if (G.fail) return NULL;
#if VP_OP == 0
    VP_ASSERT(n <= sizeof chunk1, "the block fetched is as large as what is laid out in it"); return chunk1;
#elif VP_OP == 1
    VP_ASSERT(n <= sizeof chunk2, "the block fetched is as large as what is laid out in it"); return chunk2;
#else
    VP_ASSERT(n <= sizeof chunk3, "the block fetched is as large as what is laid out in it"); return chunk3;
#endif
}
#define VP_ENS_ALLOC(E, first, second, chunk, head) \
    E("a released block is used again", VP_IMPLIES(K.some, RV == (first) && (void *) head == (void *) (second) && G.allocs == 0)) \
    E("otherwise memory is fetched, and handed out", \
        VP_IMPLIES(!K.some && !G.fail, G.allocs == 1 && VP_SAME(RV, &chunk) && (void *) head != (void *) RV)) \
    E("failure is reported", VP_IMPLIES(!K.some && G.fail, RV == NULL)) \
    E("the free list is unlocked again", VP.held == 0)
#if VP_OP == 1 || VP_OP == 4
#define VP_NX next
#else
#define VP_NX iNext
#endif
#define P_list_alloc(R) R(VP.held == 0)
#define P_list_node_alloc(R) R(VP.held == 0)
#define P_list_iterator_alloc(R) R(VP.held == 0)
#define P_list_free(R) R(VP.held == 0 && l == &l1)
#define P_list_node_free(R) R(VP.held == 0 && p == &n1)
#define P_list_iterator_free(R) R(VP.held == 0 && i == &i1)
#define Q_list_alloc(E) VP_ENS_ALLOC(E, &l1, &l2, chunk1, freeLists)
#define Q_list_node_alloc(E) VP_ENS_ALLOC(E, &n1, &n2, chunk2, freeListNodes)
#define Q_list_iterator_alloc(E) VP_ENS_ALLOC(E, &i1, &i2, chunk3, freeListIterators)
#define VP_ENS_FREE(E, first, second, head) \
    E("the block is kept for later use, as are all earlier ones", (void *) head == (void *) (first) && (void *) (first)->VP_NX == (K.some ? (void *) (second) : NULL)) \
    E("the free list is unlocked again", VP.held == 0)
#define Q_list_free(E) VP_ENS_FREE(E, &l1, &l2, freeLists)
#define Q_list_node_free(E) VP_ENS_FREE(E, &n1, &n2, freeListNodes)
#define Q_list_iterator_free(E) VP_ENS_FREE(E, &i1, &i2, freeListIterators)
#if VP_OP == 0
static List list_alloc(void) VP_REQ(P_list_alloc) VP_ASSIGNS(freeLists, chunk1, G, VP) VP_ENS(Q_list_alloc);
#endif
#if VP_OP == 1
static ListNode list_node_alloc(void) VP_REQ(P_list_node_alloc) VP_ASSIGNS(freeListNodes, chunk2, G, VP) VP_ENS(Q_list_node_alloc);
#endif
#if VP_OP == 2
static ListIterator list_iterator_alloc(void) VP_REQ(P_list_iterator_alloc) VP_ASSIGNS(freeListIterators, chunk3, G, VP) VP_ENS(Q_list_iterator_alloc);
#endif
#if VP_OP == 3
static void list_free(List l) VP_REQ(P_list_free) VP_ASSIGNS(freeLists, l1, VP) VP_ENS(Q_list_free);
#endif
#if VP_OP == 4
static void list_node_free(ListNode p) VP_REQ(P_list_node_free) VP_ASSIGNS(freeListNodes, n1, VP) VP_ENS(Q_list_node_free);
#endif
#if VP_OP == 5
static void list_iterator_free(ListIterator i) VP_REQ(P_list_iterator_free) VP_ASSIGNS(freeListIterators, i1, VP) VP_ENS(Q_list_iterator_free);
#endif

void harness(void)
{
    K.some = nd_bool();
    G.fail = nd_bool();
    G.allocs = 0;
    VP.held = 0;
/*  every block of the chunk but the one handed out is free, exactly once  */
#define CHUNK(T, head, chunk, out) if (!K.some && !G.fail) { \
        T *q = (T *) head; int n = 0, k; static char used[LIST_ALLOC]; \
        for (k = 0; k < LIST_ALLOC; k++) used[k] = 0; \
        used[(out) - chunk] = 1; \
        for (k = 0; k < LIST_ALLOC && q; k++) { \
            VP_ASSERT(VP_SAME(q, &chunk), "a free block lies within the memory fetched"); VP_ASSUME(VP_SAME(q, &chunk)); \
            VP_ASSERT(!used[q - chunk], "no block is free twice, or both free and in use"); \
            used[q - chunk] = 1; n++; q = (T *) q->VP_NX; } \
        VP_ASSERT(q == NULL, "the free list ends"); \
        VP_ASSERT(n == LIST_ALLOC - 1, "all the memory fetched is kept for later use"); }
#define CALLC(f, T, args, S, head, chunk) { T vp_rv; T vp_o; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); vp_o = vp_rv; CHUNK(S, head, chunk, vp_o) }
#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
#if VP_OP == 0
    l1.iNext = (ListIterator) &l2;
    freeLists = K.some ? &l1 : NULL;
    CALLC(list_alloc, List, (), struct list, freeLists, chunk1)
#elif VP_OP == 1
    n1.next = &n2;
    freeListNodes = K.some ? &n1 : NULL;
    CALLC(list_node_alloc, ListNode, (), struct listNode, freeListNodes, chunk2)
#elif VP_OP == 2
    i1.iNext = &i2;
    freeListIterators = K.some ? &i1 : NULL;
    CALLC(list_iterator_alloc, ListIterator, (), struct listIterator, freeListIterators, chunk3)
#elif VP_OP == 3
    { List l = &l1;
    freeLists = K.some ? &l2 : NULL;
    CALLV(list_free, (l)) }
#elif VP_OP == 4
    { ListNode p = &n1;
    freeListNodes = K.some ? &n2 : NULL;
    CALLV(list_node_free, (p)) }
#else
    { ListIterator i = &i1;
    freeListIterators = K.some ? &i2 : NULL;
    CALLV(list_iterator_free, (i)) }
#endif
    if (K.some) VP_REACH("some free");
    else VP_REACH("none free");
}
