/*VP
{ "properties": ["C11"],
  "sources": ["list.c"],
  "enforce": ["list_sort"],
  "unwind": 7, "backends": ["sat"],
  "bounded": "lists of at most 5 elements and 2 iterators"
}
*/
#include "vp.h"
#include "list.h"

#define N 5
void *out_of_memory(void) { VP_DIE(); return NULL; }
struct { int dummy; } G;
struct { int n; int key[N]; } K;
int fcmp(void *x, void *y);
#include "list.c"
struct listNode NN[N];
struct listIterator J, O;
struct list L;
int fcmp(void *x, void *y)
{
    VP_ASSERT(x != NULL && y != NULL, "elements are compared");
    return *(int *) x < *(int *) y ? -1 : *(int *) x > *(int *) y;
}
#define P_list_sort(R) R(l == &L && f == fcmp && VP.held == 0)
#define Q_list_sort(E) \
    E("every iterator starts over", J.pos == L.head && J.prev == &L.head && O.pos == L.head && O.prev == &L.head || K.n < 2) \
    E("the number of elements stays", L.count == K.n) \
    E("the list is unlocked again", VP.held == 0)
void list_sort(List l, ListCmpF f) VP_REQ(P_list_sort) VP_ASSIGNS(L, NN, J, O, G, VP) VP_ENS(Q_list_sort);

void harness(void)
{
    List l = &L;
    ListCmpF f = fcmp;
    ListNode p;
    int k, seen = 0, n = 0, last = 0, lastk = 0;

    K.n = nd_range(0, N);
    for (k = 0; k < N; k++) {
        K.key[k] = nd_range(0, N);
        NN[k].data = &K.key[k];
        NN[k].next = k + 1 < K.n ? &NN[k + 1] : NULL;
    }
    L.head = K.n ? &NN[0] : NULL;
    L.tail = K.n ? &NN[K.n - 1].next : &L.head;
    L.count = K.n;
    L.iNext = &J; J.iNext = &O; O.iNext = NULL; J.list = O.list = l;
    J.prev = O.prev = &L.head; J.pos = L.head; O.pos = L.head ? L.head->next : NULL;
    VP.held = VP.err = 0;
    VP_PRE(P_list_sort);
    list_sort(l, f);
    VP_POST(Q_list_sort);
    for (p = L.head, n = 0; p && n < N; p = p->next, n++) {
        k = (int *) p->data - K.key;
        VP_ASSERT(!(seen & (1 << k)), "no element is duplicated by sorting");
        seen |= 1 << k;
        VP_ASSERT(n == 0 || last <= K.key[k], "the elements are in order");
        VP_ASSERT(n == 0 || last < K.key[k] || lastk < k, "equal elements keep their order");
        last = K.key[k]; lastk = k;
        if (p->next == NULL) VP_ASSERT(L.tail == &p->next, "the end of the list is right");
    }
    VP_ASSERT(p == NULL && n == K.n, "no element is lost by sorting");
    if (K.n == N) VP_REACH("full");
    else VP_REACH("not full");
}
