/*VP
{ "properties": ["C28"],
  "sources": ["server-obj.c"],
  "enforce": ["sanitize_file_string", "find_trailing_int_str", "compare_objs", "find_obj"],
  "per": { "sanitize_file_string": {"properties": ["C18"]},
           "compare_objs": {"stub_defs": ["find_trailing_int_str"]},
           "find_obj": {"stub_defs": ["find_trailing_int_str"]} },
  "unwind": 2, "bound_unwind": 10, "backends": ["uf", "z3"], "timeout": 150,
  "bound_text": "names of at most 8 characters",
  "assumptions": ["names are at most 64 KiB"],
  "trusted": ["isdigit, isgraph (C locale)", "atoi of a string of digits is the number it spells; equal text gives an equal number"],
  "loops": [
   {"func": "sanitize_file_string", "nth": 0, "count": 1, "locals": ["p"], "assigns": "$LOCALS, __CPROVER_object_whole(W1), G",
     "guard": "G.i = VP_OFFS(p, W1); VP_PIN(p, W1 + G.i); VP_TEXT(G.i);",
     "invariant": ["VP_SAME(p, &W1) && VP_OFFS(p, W1) >= 0 && VP_OFFS(p, W1) <= K.n1",
       "W1[K.k] == (K.k < VP_OFFS(p, W1) ? VP_CLEAN(K.kv) : K.kv) && W1[K.n1] == 0 && VP_IMPLIES(K.k < K.n1, K.kv != 0)"]},
   {"func": "find_trailing_int_str", "nth": 0, "count": 1, "locals": ["p", "q"], "assigns": "$LOCALS, G",
     "guard": "if (K.null) VP_PIN(p, NULL); else { G.i = VP_OFFS(p, W1); VP_PIN(p, W1 + G.i); VP_TEXT(G.i); } if (q) { G.j = VP_OFFS(q, W1); VP_PIN(q, W1 + G.j); }",
     "invariant": ["K.null ? (p == NULL && q == NULL) : (VP_SAME(p, &W1) && VP_OFFS(p, W1) >= 0 && VP_OFFS(p, W1) <= K.n1 && W1[K.n1] == 0)",
       "K.null || (!q ? (VP_OFFS(p, W1) == 0 || !VP_DIG(W1[VP_OFFS(p, W1) - 1])) : (VP_SAME(q, &W1) && VP_OFFS(q, W1) >= 0 && VP_OFFS(q, W1) < VP_OFFS(p, W1) && VP_DIG(W1[VP_OFFS(q, W1)])))",
       "VP_IMPLIES(q && VP_OFFS(q, W1) > 0, !VP_DIG(W1[VP_OFFS(q, W1) - 1]))",
       "VP_IMPLIES(q && K.k >= VP_OFFS(q, W1) && K.k < VP_OFFS(p, W1), VP_DIG(W1[K.k]))"]},
   {"func": "compare_objs", "nth": 0, "count": 1, "locals": ["str1", "str2"], "assigns": "$LOCALS, G",
     "guard": "G.i = VP_OFFS(str1, W1); VP_PIN(str1, W1 + G.i); VP_PIN(str2, W2 + G.i); VP_SAMETEXT(G.i);",
     "invariant": ["VP_SAME(str1, &W1) && VP_OFFS(str1, W1) >= 0 && VP_OFFS(str1, W1) <= K.d && VP_SAME(str2, &W2) && VP_OFFS(str2, W2) == VP_OFFS(str1, W1)",
       "VP_IMPLIES(VP_OFFS(str1, W1) > 0, !(K.t1 == K.t2 && K.t1 >= 0 && K.t1 < VP_OFFS(str1, W1)))",
       "G.bad == 0"]}]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

#define BMAX VP_LIM(1 << 16, 16)
char W1[BMAX], W2[BMAX];
obj_t O1, O2;
struct {
    int n1, n2;                         /* lengths                           */
    int k; char kv;                     /* an arbitrary position             */
    int d;                              /* first position that differs       */
    int t1, t2;                         /* start of trailing number, or -1   */
    int v1, v2;                         /* its value                         */
    int null;
} K;
struct { int i, j, bad; } G;
/*  "the names are equal before position d", instantiated where it is needed  */
#ifdef VP_PROVE
#define VP_TEXT(i) VP_ASSUME((i) >= K.n1 || W1[i] != 0)
#define VP_SAMETEXT(i) VP_ASSUME((i) >= K.d || (W1[i] == W2[i] && W1[i] != 0))
#endif
#define VP_DIG(c) ((c) >= '0' && (c) <= '9')
#define VP_CLEAN(c) ((char) (((c) > ' ' && (c) < 127 && (c) != '/') ? (c) : '_'))
#undef isdigit
#undef isgraph
#define isdigit(c) VP_DIG(c)
#define isgraph(c) ((c) > ' ' && (c) < 127)
#undef atoi
#define atoi(s) vp_atoi(s)
static int vp_atoi(const char *s)
{
    if (s == W1 + K.t1 && K.t1 >= 0) return K.v1;
    if (s == W2 + K.t2 && K.t2 >= 0) return K.v2;
    G.bad = 1;
    return 0;
}
#if VP_OP >= 2
static char * find_trailing_int_str(char *str)
{
    if (str == W1) return K.t1 < 0 ? NULL : W1 + K.t1;
    if (str != W2) G.bad = 1;
    return K.t2 < 0 ? NULL : W2 + K.t2;
}
#endif
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

/*  p->name + i  */
#define P_sanitize_file_string(R) R(str == (K.null ? NULL : W1))
#define Q_sanitize_file_string(E) \
    E("the same string is returned", RV == (K.null ? NULL : W1)) \
    E("separators, blanks and non-printing characters are replaced, all others kept", W1[K.k] == ((K.null || K.k >= K.n1) ? K.kv : VP_CLEAN(K.kv)))
#define VP_RI ((int) VP_OFFS(RV, W1))
#define P_find_trailing_int_str(R) R(str == (K.null ? NULL : W1))
#define Q_find_trailing_int_str(E) \
    E("no number is found only if the string does not end in a digit", VP_IMPLIES(!RV, K.null || K.n1 == 0 || !VP_DIG(W1[K.n1 - 1]))) \
    E("the number found starts at a digit within the string", VP_IMPLIES(RV, !K.null && VP_SAME(RV, &W1) && VP_RI >= 0 && VP_RI < K.n1 && VP_DIG(W1[VP_RI]))) \
    E("it is all of the trailing number", VP_IMPLIES(RV && VP_RI > 0, !VP_DIG(W1[VP_RI - 1]))) \
    E("it reaches the end of the string", VP_IMPLIES(RV && K.k >= VP_RI && K.k < K.n1, VP_DIG(W1[K.k])))

/*  names that agree up to a trailing number in each are ordered by the numbers,
 *    others by their first different character  */
#define VP_NUM (K.t1 >= 0 && K.t1 == K.t2 && K.t1 <= K.d && K.t1 < K.n1)
#define VP_SGN(x) ((x) < 0 ? -1 : (x) > 0)
#define VP_CMP(a,b) ((a) < (b) ? -1 : (a) > (b))
#define P_compare_objs(R) R(obj1 == &O1 && obj2 == &O2)
#define Q_compare_objs(E) \
    E("names that agree up to their trailing numbers are ordered by the numbers", VP_IMPLIES(VP_NUM, VP_SGN(RV) == VP_CMP(K.v1, K.v2))) \
    E("other names are ordered by the first character that differs", VP_IMPLIES(!VP_NUM, VP_SGN(RV) == VP_CMP(W1[K.d], W2[K.d]))) \
    E("the order is decided by the names alone", G.bad == 0)
#define P_find_obj(R) R(obj == &O1 && key == &O2)
#define Q_find_obj(E) E("an object is found by identity", !RV == (K.null == 0))

#if VP_OP == 2
int compare_objs(obj_t *obj1, obj_t *obj2)
    VP_REQ(P_compare_objs) VP_ASSIGNS(G) VP_ENS(Q_compare_objs);
#elif VP_OP == 3
int find_obj(obj_t *obj, obj_t *key)
    VP_REQ(P_find_obj) VP_ASSIGNS(G) VP_ENS(Q_find_obj);
#elif VP_OP == 0
static char * sanitize_file_string(char *str)
    VP_REQ(P_sanitize_file_string) VP_ASSIGNS(__CPROVER_object_whole(W1), G) VP_ENS(Q_sanitize_file_string);
#else
static char * find_trailing_int_str(char *str)
    VP_REQ(P_find_trailing_int_str) VP_ASSIGNS(G) VP_ENS(Q_find_trailing_int_str);
#endif

#include "server-obj.c"

void harness(void)
{
    char *str;
    obj_t *obj1 = &O1, *obj2 = &O2;
    int i;

    K.n1 = nd_range(0, VP_LIM(BMAX - 1, 8));
    K.n2 = nd_range(0, VP_LIM(BMAX - 1, 8));
    K.k = nd_range(0, BMAX - 1);
    K.null = nd_range(0, 9) == 0;
    VP_ANY(W1); VP_ANY(W2);
#ifndef VP_PROVE
    { static const char t[9] = "a/01 b9\200";
      for (i = 0; i < BMAX; i++) { W1[i] = nd_pick(t); W2[i] = nd_bool() ? W1[i] : nd_pick(t); } }
#endif
    (void) i;
    W1[K.n1] = W2[K.n2] = 0;
    K.kv = W1[K.k];
    str = K.null ? NULL : W1;
    G.i = G.j = G.bad = 0;
    VP.held = VP.err = 0;
#if VP_OP == 0
    {
        char *vp_rv;
        VP_ASSUME(K.k >= K.n1 || K.kv != 0);
        VP_PRE(P_sanitize_file_string);
        vp_rv = sanitize_file_string(str);
        VP_POST(Q_sanitize_file_string);
        if (vp_rv && K.k < K.n1 && K.kv == '/') VP_REACH("slash");
    }
#elif VP_OP == 1
    {
        char *vp_rv;
        VP_ASSUME(K.k >= K.n1 || K.kv != 0);
        VP_PRE(P_find_trailing_int_str);
        vp_rv = find_trailing_int_str(str);
        VP_POST(Q_find_trailing_int_str);
        if (vp_rv && vp_rv > W1 + 2 && vp_rv < W1 + K.n1 - 2) VP_REACH("number");
        if (!vp_rv && !K.null && K.n1 > 1) VP_REACH("none");
    }
#elif VP_OP == 2
    {
        int vp_rv;
        K.d = nd_range(0, K.n1 < K.n2 ? K.n1 : K.n2);
#ifndef VP_PROVE
        for (K.d = 0; W1[K.d] && W1[K.d] == W2[K.d]; K.d++) ;
        for (K.t1 = -1, i = 0; W1[i]; i++) if (!VP_DIG(W1[i])) K.t1 = -1; else if (K.t1 < 0) K.t1 = i;
        for (K.t2 = -1, i = 0; W2[i]; i++) if (!VP_DIG(W2[i])) K.t2 = -1; else if (K.t2 < 0) K.t2 = i;
#undef atoi
        K.v1 = K.t1 < 0 ? 0 : atoi(W1 + K.t1);
        K.v2 = K.t2 < 0 ? 0 : atoi(W2 + K.t2);
#else
        K.t1 = nd_range(-1, K.n1 - 1);
        K.t2 = nd_range(-1, K.n2 - 1);
        K.v1 = nd_range(0, 2147483647);
        K.v2 = nd_range(0, 2147483647);
        VP_ASSUME(W1[K.d] != W2[K.d] || (K.d == K.n1 && K.d == K.n2));
        VP_ASSUME((K.d == K.n1 || W1[K.d] != 0) && (K.d == K.n2 || W2[K.d] != 0));
#endif
        O1.name = W1; O2.name = W2;
        VP_PRE(P_compare_objs);
        vp_rv = compare_objs(obj1, obj2);
        VP_POST(Q_compare_objs);
        if (vp_rv > 0 && VP_NUM && K.d > 2) VP_REACH("numbers");
        if (vp_rv < 0 && !VP_NUM && K.d > 2) VP_REACH("text");
    }
#else
    {
        int vp_rv;
        obj_t *obj = &O1, *key = &O2;
        if (K.null) key = &O1;
        VP_PRE(P_find_obj);
        vp_rv = find_obj(obj, key);
        VP_POST(Q_find_obj);
        VP_REACH("return");
    }
#endif
}
