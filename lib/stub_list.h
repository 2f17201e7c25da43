/*  Abstract lists (contract of the list API, discharged for list.c itself in
 *    the list_* units).  A list is the set of its elements, observed at VP_NT
 *    arbitrary distinct "tracked" elements, plus a number (others) of elements
 *    the unit does not name.  The unit defines, before including this file:
 *      VP_NT          number of tracked elements
 *      VP_TRACKED(i)  address of tracked element i
 *      VP_OTHER()     address standing for one arbitrary untracked element
 *  Iteration order is left unspecified (any order is considered), so what is
 *    proved does not depend on it.  Deleting during iteration is supported, as
 *    the list API promises.
 */
#ifndef STUB_LIST_H
#define STUB_LIST_H
#include "list.h"

struct list {
    long others;                        /* number of untracked elements      */
    _Bool has[VP_NT];                    /* 1 if tracked element i is in      */
};
struct listIterator {
    struct list *l;
    long left;                          /* untracked elements still to visit */
    _Bool seen[VP_NT];                   /* 1 if tracked element i was visited */
    int live;
    void *cur;                          /* last element returned             */
};
#ifndef VP_NIT
#define VP_NIT 3
#endif
struct listIterator IT[VP_NIT];

static int vp_list_len0(struct list *l)
{
    int i, n = (l->others > 0);
    for (i = 0; i < VP_NT; i++) n += l->has[i];
    return n;
}
int list_is_empty(List l) { return vp_list_len0(l) == 0; }
int list_count(List l)
{
    int i; long n = l->others;
    for (i = 0; i < VP_NT; i++) n += l->has[i];
    return (int) n;
}
ListIterator list_iterator_create(List l)
{
    int k, i;
    VP_ASSERT(l != NULL, "iterator over a list");
    for (k = 0; k < VP_NIT; k++) if (!IT[k].live) break;
    VP_ASSERT(k < VP_NIT, "no more iterators are alive than ever needed (leak)");
    if (k >= VP_NIT) k = 0;
    IT[k].live = 1;
    IT[k].l = l;
    IT[k].left = l->others;
    IT[k].cur = NULL;
    for (i = 0; i < VP_NT; i++) IT[k].seen[i] = 0;
    return &IT[k];
}
void list_iterator_reset(ListIterator i)
{
    int j;
    i->left = i->l->others;
    i->cur = NULL;
    for (j = 0; j < VP_NT; j++) i->seen[j] = 0;
}
void list_iterator_destroy(ListIterator i)
{
    VP_ASSERT(i->live, "iterator destroyed once");
    i->live = 0;
}
void * list_next(ListIterator i)
{
    int j, c, rest = 0;

    VP_ASSERT(i->live, "iterator in use is alive");
    if (i->left > i->l->others) i->left = i->l->others;
    for (j = 0; j < VP_NT; j++) if (i->l->has[j] && !i->seen[j]) rest++;
    if (rest == 0 && i->left <= 0) { i->cur = NULL; return NULL; }
    c = nd_range(0, VP_NT);
    if (c < VP_NT) {
        VP_ASSUME(i->l->has[c] && !i->seen[c]);
        i->seen[c] = 1;
        return i->cur = VP_TRACKED(c);
    }
    VP_ASSUME(i->left > 0);
    i->left--;
    return i->cur = VP_OTHER();
}
static int vp_tracked_index(void *x)
{
    int i;
    for (i = 0; i < VP_NT; i++) if (x == (void *) VP_TRACKED(i)) return i;
    return -1;
}
void * list_append(List l, void *x)
{
    int i = vp_tracked_index(x);
    VP_ASSERT(l != NULL && x != NULL, "append of an element to a list");
    if (i >= 0) {
        VP_ASSERT(!l->has[i], "an element is added to a list at most once");
        l->has[i] = 1;
    }
    else l->others++;
    return x;
}
void * list_prepend(List l, void *x) { return list_append(l, x); }
/*  some element of the list (any: the order is unspecified) */
static void * vp_list_any(List l)
{
    int c;
    if (vp_list_len0(l) == 0) return NULL;
    c = nd_range(0, VP_NT);
    if (c < VP_NT) { VP_ASSUME(l->has[c]); return VP_TRACKED(c); }
    VP_ASSUME(l->others > 0);
    return VP_OTHER();
}
static void vp_list_drop(List l, void *x)
{
    int i = vp_tracked_index(x);
    if (i >= 0) l->has[i] = 0;
    else l->others--;
}
void * list_peek(List l) { return vp_list_any(l); }
void * list_pop(List l)
{
    void *x = vp_list_any(l);
    if (x) vp_list_drop(l, x);
    return x;
}
void * list_dequeue(List l) { return list_pop(l); }
void * list_push(List l, void *x) { return list_append(l, x); }
void * list_enqueue(List l, void *x) { return list_append(l, x); }
void * list_find_first(List l, ListFindF f, void *key)
{
    int j, t = 0;
    for (j = 0; j < VP_NT; j++) {
        if (key == (void *) VP_TRACKED(j)) t = 1;
        if (l->has[j] && f(VP_TRACKED(j), key)) return VP_TRACKED(j);
    }
    /* an element that is not tracked can only match a key that is not */
    if (!t && l->others > 0 && nd_bool()) return VP_OTHER();
    return NULL;
}
int list_delete_all(List l, ListFindF f, void *key)
{
    int j, t = 0, n = 0;
    for (j = 0; j < VP_NT; j++) {
        if (key == (void *) VP_TRACKED(j)) t = 1;
        if (l->has[j] && f(VP_TRACKED(j), key)) { l->has[j] = 0; n++; }
    }
    if (!t && l->others > 0 && nd_bool()) { l->others--; n++; }
    return n;
}
void * list_remove(ListIterator i)
{
    void *x = i->cur;
    if (x) { vp_list_drop(i->l, x); i->cur = NULL; }
    return x;
}
int list_delete(ListIterator i) { return list_remove(i) != NULL; }
#endif
