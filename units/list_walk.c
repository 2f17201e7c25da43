/*VP
{ "properties": ["C11"],
  "sources": ["list.c"],
  "enforce": ["list_find_first", "list_delete_all", "list_find", "list_iterator_destroy", "list_destroy"],
  "stub_defs": ["list_node_destroy", "list_free", "list_node_free", "list_iterator_free"],
  "unwind": 2, "bound_unwind": 6, "backends": ["sat", "z3"],
  "per": { "list_find": {"stub_defs": ["list_node_destroy", "list_free", "list_node_free", "list_iterator_free", "list_next"]} },
  "bound_text": "lists of at most 5 elements",
  "loops": [
   {"func": "list_find_first", "nth": 0, "count": 1, "locals": ["p", "v"],
     "assigns": "$LOCALS, NT.next, NA.next, NB.next, G, VP", "ghost": "VP_WALK(p);", "invariant": ["VP_NODE(p) && !G.seen && v == NULL && VP.held == 1"]},
   {"func": "list_delete_all", "nth": 0, "count": 1, "locals": ["pp", "n", "v"],
     "assigns": "$LOCALS, L.head, NT.next, NA.next, NB.next, G, VP", "guard": "VP_SLOTPIN(pp)", "ghost": "VP_SLOT(pp);",
     "invariant": ["VP_SLOTOK(pp) && VP.held == 1", "n == G.n && n >= 0 && n <= G.calls && G.calls < 1000000000", "VP_DELOK"]},
   {"func": "list_find", "nth": 0, "count": 1, "locals": ["v"],
     "assigns": "$LOCALS, G, VP", "invariant": ["G.hit == 0 && G.ended == 0 && G.pending == NULL && VP.held == 0"]},
   {"func": "list_iterator_destroy", "nth": 0, "count": 1, "locals": ["pi"],
     "assigns": "$LOCALS, L.iNext, J.iNext, OA.iNext, OB.iNext, I, G, VP", "guard": "VP_ISLOTPIN(pi)", "ghost": "VP_ISLOT(pi);",
     "invariant": ["VP_ISLOTOK(pi) && VP.held == 1 && G.ifree == 0 && L.iNext == I.l && OA.iNext == I.a && OB.iNext == I.b"]},
   {"func": "list_destroy", "nth": 0, "count": 2, "locals": ["i"],
     "assigns": "$LOCALS, J.iNext, OA.iNext, OB.iNext, G, VP", "ghost": "VP_IWALK(i);",
     "invariant": ["VP_ITER(i) && G.ifree == G.iseen && VP.held == 1 && G.seen == 0 && G.frees == 0 && G.lfree == 0 && G.dels == 0 && G.odels == 0"]},
   {"func": "list_destroy", "nth": 1, "count": 2, "locals": ["p"],
     "assigns": "$LOCALS, NT.next, NA.next, NB.next, G, VP", "ghost": "VP_WALK(p);",
     "invariant": ["VP_NODE(p) && G.lfree == 0 && G.frees == G.seen && G.dels == (G.seen && K.hasdel) && VP.held == 1 && G.ifree == K.hasj"]} ]
}
*/
#include "vp.h"
#include "list.h"

/*  A list of any length: one arbitrary element T (if K.has), and N[0], N[1]
 *    standing in turn for every other element.  Likewise iterators J and OA, OB.
 */
void *out_of_memory(void) { VP_DIE(); return NULL; }
void fdel(void *x);
int fmatch(void *x, void *key);
#undef pthread_mutex_destroy
#define pthread_mutex_destroy(m) (0)
struct {
    int seen, iseen;                    /* T, J visited                      */
    int frees, dels, odels, ifree, lfree;
    int n, calls, removed, hit, ended;
    void *pending, *result;             /* data last given to the predicate  */
} G;
struct {
    int has, hasj, hasdel, match;
    void *key, *tdata;
} K;

#ifdef VP_PROVE
#define O2(p)       ((p) == &NA ? &NB : &NA)
/*  what may follow a node: another one, T unless passed, the end if T is passed */
#define VP_PICK(o)  (nd_bool() ? (o) : (K.has && !G.seen) ? &NT : NULL)
#define VP_STEP(p)  do { if ((p) == &NT) { G.seen = 1; NT.next = nd_bool() ? &NA : NULL; } \
                         else if ((p) == &NA) NA.next = VP_PICK(&NB); else NB.next = VP_PICK(&NA); } while (0)
#define VP_SEENOK   (G.seen == 0 || (G.seen == 1 && K.has))
#define VP_NODE(p)  (VP_SEENOK && ((p) == &NA || (p) == &NB || ((p) == &NT && K.has && !G.seen) || ((p) == NULL && G.seen == K.has)))
#define VP_WALK(p)  do { if ((p) == &NT) (p) = &NT; else if ((p) == &NA) (p) = &NA; else VP_PIN(p, &NB); VP_STEP(p); } while (0)
#define VP_IPICK(o) (nd_bool() ? (o) : (K.hasj && !G.iseen) ? &J : NULL)
#define VP_ISTEP(p) do { if ((p) == &J) { G.iseen = 1; J.iNext = nd_bool() ? &OA : NULL; } \
                         else if ((p) == &OA) OA.iNext = VP_IPICK(&OB); else OB.iNext = VP_IPICK(&OA); } while (0)
#define VP_ITER(p)  ((G.iseen == 0 || (G.iseen == 1 && K.hasj)) && ((p) == &OA || (p) == &OB || ((p) == &J && K.hasj && !G.iseen) || ((p) == NULL && G.iseen == K.hasj)))
#define VP_IWALK(p) do { if ((p) == &J) (p) = &J; else if ((p) == &OA) (p) = &OA; else VP_PIN(p, &OB); VP_ISTEP(p); } while (0)
/*  slots  */
#define VP_SLOTOK(q) (VP_SEENOK && (((q) == &L.head && VP_NODE(L.head)) \
    || ((q) == &NT.next && G.seen && VP_NODE(NT.next)) \
    || ((q) == &NA.next && VP_NODE(NA.next) && NA.next != &NA) \
    || ((q) == &NB.next && VP_NODE(NB.next) && NB.next != &NB)))
#define VP_SLOTPIN(q) if ((q) == &L.head) (q) = &L.head; else if ((q) == &NT.next) (q) = &NT.next; \
    else if ((q) == &NA.next) (q) = &NA.next; else VP_PIN(q, &NB.next);
#define VP_SLOT(q)  do { if (*(q) == &NT) *(q) = &NT; else if (*(q) == &NA) *(q) = &NA; else VP_PIN(*(q), &NB); VP_STEP(*(q)); } while (0)
#define VP_ISLOTOK(q) ((((q) == &L.iNext && VP_ITER(L.iNext)) \
    || ((q) == &OA.iNext && VP_ITER(OA.iNext) && OA.iNext != &OA) \
    || ((q) == &OB.iNext && VP_ITER(OB.iNext) && OB.iNext != &OB)) && (G.iseen == 0))
#define VP_ISLOTPIN(q) if ((q) == &L.iNext) (q) = &L.iNext; else if ((q) == &OA.iNext) (q) = &OA.iNext; else VP_PIN(q, &OB.iNext);
#define VP_ISLOT(q) do { if (*(q) == &J) { I.jslot = (q); *(q) = &J; } else if (*(q) == &OA) *(q) = &OA; else VP_PIN(*(q), &OB); VP_ISTEP(*(q)); I.jnext = J.iNext; I.a = OA.iNext; I.b = OB.iNext; } while (0)
#endif
#define VP_DELOK    (G.removed == (G.seen && K.match) && G.dels == (G.removed && K.hasdel))

#ifdef VP_PROVE
#define VP_OFF (L.iNext == (I.jslot == &L.iNext ? I.jnext : I.l) \
    && OA.iNext == (I.jslot == &OA.iNext ? I.jnext : I.a) && OB.iNext == (I.jslot == &OB.iNext ? I.jnext : I.b))
#else
#define VP_OFF (L.iNext == I.l && OA.iNext == I.a && OB.iNext == I.b)
#endif
#define P_list_find_first(R) R(l == &L && f == fmatch && key == K.key && VP.held == 0)
#define Q_list_find_first(E) \
    E("the first matching element is returned, if there is one", RV == (K.has ? K.tdata : NULL)) \
    E("the list is unlocked again", VP.held == 0)
#define P_list_delete_all(R) P_list_find_first(R)
#define Q_list_delete_all(E) \
    E("an element is removed exactly if it matches", G.removed == (K.has && K.match)) \
    E("the destructor gets each removed element exactly once", G.dels == (K.has && K.match && K.hasdel)) \
    E("the number of removed elements is returned", RV == G.n) \
    E("the list is unlocked again", VP.held == 0)
#define P_list_find(R) R(i == &J && f == fmatch && key == K.key && VP.held == 0)
#define Q_list_find(E) \
    E("the walk ends at the first match, or at the end", G.pending == NULL && (G.hit || G.ended)) \
    E("the matching element is returned, or NULL", RV == (G.hit ? G.result : NULL))
#define P_list_iterator_destroy(R) R(i == &J && VP.held == 0 && K.hasj)
#define Q_list_iterator_destroy(E) \
    E("the iterator is taken off the list, no other is", (G.iseen || VP_LIM(0, 1)) && VP_OFF) \
    E("its memory is released exactly once", G.ifree == 1) \
    E("the list is unlocked again", VP.held == 0)
#define P_list_destroy(R) R(l == &L && VP.held == 0)
#define Q_list_destroy(E) \
    E("every element is released exactly once", G.frees == K.has) \
    E("the destructor gets every element exactly once", G.dels == (K.has && K.hasdel)) \
    E("every iterator is released exactly once", G.ifree == K.hasj) \
    E("the list itself is released exactly once", G.lfree == 1)

extern struct list L;
extern struct listIterator J, OA, OB;
extern struct listNode NT, NA, NB;
/*  J's slot and its successor when it was reached; each slot's proper value  */
struct { struct listIterator **jslot, *jnext, *l, *a, *b; } I;
#include "list.c"

struct listNode NT, NA, NB;
struct listIterator J, OA, OB;
struct list L;
void fdel(void *x)
{
    if (x == K.tdata) {
        VP_ASSERT(K.hasdel && G.dels == 0, "the destructor gets an element at most once");
        VP_ASSERT(VP_OP == 4 || G.removed, "the destructor gets removed elements only");
        G.dels++;
    }
    else G.odels++;
}
int fmatch(void *x, void *key)
{
    int r;
    VP_ASSERT(key == K.key, "the predicate gets the given key");
#if VP_OP == 0
    /* T is the first match; after it anything may match; without T nothing does */
    r = (x == K.tdata) ? 1 : (K.has && G.seen) ? nd_bool() : 0;
#elif VP_OP == 1
    r = (x == K.tdata) ? K.match : nd_bool();
    G.pending = r ? x : NULL;
#else
    VP_ASSERT(x == G.pending && x != NULL, "the predicate gets each element visited, once");
    VP_ASSERT(!G.hit, "the walk ends at the first match");
    r = nd_bool();
    G.pending = NULL;
    if (r) { G.hit = 1; G.result = x; }
#endif
    return r ? (nd_bool() ? 1 : -1) : 0;
}
static void list_free(List l) { VP_ASSERT(l == &L && G.lfree == 0, "the list is released once"); G.lfree++; }
static void list_node_free(ListNode p)
{
    if (p == &NT) { VP_ASSERT(G.frees == 0, "an element is released at most once"); G.frees++; NT.next = NULL; }
}
static void list_iterator_free(ListIterator p)
{
    if (p == &J) { VP_ASSERT(G.ifree == 0, "an iterator is released at most once"); G.ifree++; J.iNext = NULL; }
}
#if VP_OP == 2
void * list_next(ListIterator i)
{
    static int d[2];
    VP_ASSERT(i == &J, "the given iterator is advanced");
    VP_ASSERT(G.pending == NULL && !G.hit && !G.ended, "each element visited is tested");
    if (nd_bool()) { G.pending = &d[nd_bool()]; return G.pending; }
    G.ended = 1;
    return NULL;
}
#endif
static void * list_node_destroy(List l, ListNode *pp)
{
    void *v;
    VP_ASSERT(l == &L && VP.held == 1, "elements are removed under the lock");
    if (*pp == NULL) return NULL;
    v = (*pp)->data;
    VP_ASSERT(G.pending == v && v != NULL, "only a matching element is removed");
    G.pending = NULL;
    VP_ASSUME(G.calls < 999999999);
    G.calls++; G.n++;
#ifdef VP_PROVE
    if (*pp == &NT) { G.removed++; *pp = nd_bool() ? (pp == &NA.next ? &NB : &NA) : NULL; }
    else if (pp == &NA.next) *pp = VP_PICK(&NB);
    else *pp = nd_bool() && pp != &NB.next ? &NB : VP_PICK(&NA);
#else
    if (*pp == &NT) G.removed++;
    *pp = (*pp)->next;
#endif
    return v;
}
#define VPF VP_ASSIGNS(NT.next, NA.next, NB.next, G, VP)
#define VPFD VP_ASSIGNS(L, NT, NA, NB, G, VP)
#define VPFI VP_ASSIGNS(L.iNext, J.iNext, OA.iNext, OB.iNext, I, G, VP)
#define VPFA VP_ASSIGNS(L, NT, NA, NB, J, OA, OB, I, G, VP)
void * list_find_first(List l, ListFindF f, void *key) VP_REQ(P_list_find_first) VPF VP_ENS(Q_list_find_first);
int list_delete_all(List l, ListFindF f, void *key) VP_REQ(P_list_delete_all) VPFD VP_ENS(Q_list_delete_all);
void * list_find(ListIterator i, ListFindF f, void *key) VP_REQ(P_list_find) VPF VP_ENS(Q_list_find);
void list_iterator_destroy(ListIterator i) VP_REQ(P_list_iterator_destroy) VPFI VP_ENS(Q_list_iterator_destroy);
void list_destroy(List l) VP_REQ(P_list_destroy) VPFA VP_ENS(Q_list_destroy);

void harness(void)
{
    List l = &L;
    ListIterator i = &J;
    ListFindF f = fmatch;
    static int dt, da, db, k;
    void *key = &k;

    K.has = nd_bool(); K.hasj = VP_OP == 3 ? 1 : nd_bool(); K.hasdel = nd_bool(); K.match = nd_bool();
    K.key = key; K.tdata = &dt;
    G.seen = G.iseen = G.frees = G.dels = G.odels = G.ifree = G.lfree = G.n = G.calls = G.removed = G.hit = G.ended = 0;
    G.pending = G.result = NULL;
    VP.held = 0; VP.err = 0;
    NT.data = &dt; NA.data = &da; NB.data = &db;
    L.fDel = K.hasdel ? fdel : NULL;
    J.list = l;
#ifdef VP_PROVE
    NA.next = NB.next = NT.next = NULL;
    L.head = nd_bool() ? &NB : VP_PICK(&NA);
    L.iNext = nd_bool() ? &OB : VP_IPICK(&OA);
    OA.iNext = OB.iNext = NULL;
    I.l = L.iNext; I.a = I.b = NULL; I.jslot = NULL; I.jnext = NULL;
#else
    { /* up to three elements, T anywhere */
        struct listNode **q = &L.head;
        struct listIterator **w = &L.iNext;
        if (nd_bool()) { *q = &NA; q = &NA.next; }
        if (K.has) { *q = &NT; q = &NT.next; }
        if (nd_bool()) { *q = &NB; q = &NB.next; }
        *q = NULL;
        int ha = nd_bool(), hb = nd_bool();
        OA.iNext = OB.iNext = NULL;
        if (ha) { *w = &OA; w = &OA.iNext; }
        if (K.hasj) { *w = &J; w = &J.iNext; }
        if (hb) { *w = &OB; w = &OB.iNext; }
        *w = NULL;
        I.l = ha ? &OA : hb ? &OB : NULL;
        I.a = ha && hb ? &OB : NULL;
        I.b = NULL;
    }
#endif
    L.count = nd_range(0, 100000);
#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
#if VP_OP == 0
    CALL(list_find_first, void *, (l, f, key))
#elif VP_OP == 1
    CALL(list_delete_all, int, (l, f, key))
#elif VP_OP == 2
    CALL(list_find, void *, (i, f, key))
#elif VP_OP == 3
    CALLV(list_iterator_destroy, (i))
#else
    CALLV(list_destroy, (l))
#endif
    if (K.has) VP_REACH("listed");
    else VP_REACH("not listed");
}
