/*VP
{ "properties": ["C26"],
  "bounded": "values of DEBUG and TZ of at most 62 characters",
  "sources": ["server.c"],
  "enforce": ["get_sane_env"],
  "unwind": 5, "unwindset": ["vp_strlen.0:60"], "bound_unwind": 5, "bound_unwindset": ["vp_strlen.0:60"],
  "backends": ["cad", "sat"], "timeout": 300,
  "bound_text": "values of DEBUG and TZ of at most 6 characters",
  "assumptions": [],
  "trusted": ["getenv, malloc, strlen, memcpy (C standard)"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "inevent.h"
#include "util.h"
#include "wrapper.h"

#define VMAX VP_LIM(64, 8)
#define EMAX VP_LIM(256, 256)
char V[2][VMAX];                        /* values of DEBUG and TZ            */
char ENV[EMAX] __attribute__((aligned(16)));
struct {
    int set[2], n[2];                   /* set, and its length               */
    int fail;                           /* out of memory                     */
    int w; char wv;                     /* an arbitrary byte of the result   */
    int i, k;                           /* an arbitrary variable, and position within it */
} K;
struct { long size; int got; } G;
static const char * const FIX[5] = { "IFS= \t\n", "PATH=" _PATH_STDPATH, "TERM=dumb", "DEBUG=", "TZ=" };
static const int LEN[5] = { sizeof("IFS= \t\n") - 1, sizeof("PATH=" _PATH_STDPATH) - 1, sizeof("TERM=dumb") - 1, 6, 3 };
#define TAB ((char **) ENV)
#define COUNT (3 + K.set[0] + K.set[1])
/*  which of the five variables the i-th is, its length, its k-th character */
#define VAR(i) ((i) < 3 ? (i) : (i) == 3 && K.set[0] ? 3 : 4)
#define VLEN(i) (LEN[VAR(i)] + (VAR(i) < 3 ? 0 : K.n[VAR(i) - 3]))
static char vp_ch(int v, int k)
{
    if (k < LEN[v]) return FIX[v][k];
    if (v < 3) return 0;
    return V[v - 3][k - LEN[v]];
}
#undef strlen
#undef memcpy
#undef malloc
#undef getenv
#undef strcmp
#define strlen(s) vp_strlen(s)
#define memcpy(d,s,n) vp_memcpy(d, s, n)
#define malloc(n) vp_malloc(n)
#define getenv(s) vp_getenv(s)
static size_t vp_strlen(const char *s)
{
    size_t n;

    if (s == V[0]) return K.n[0];
    if (s == V[1]) return K.n[1];
    for (n = 0; s[n]; n++) ;
    return n;
}
static char * vp_getenv(const char *s)
{
    int x = s[0] == 'D' ? 0 : 1;

    VP_ASSERT(s[0] == 'D' ? s[1] == 'E' && s[2] == 'B' && s[3] == 'U' && s[4] == 'G' && s[5] == 0 : s[0] == 'T' && s[1] == 'Z' && s[2] == 0,
        "only DEBUG and TZ are taken from the environment");
    return K.set[x] ? V[x] : NULL;
}
static void * vp_malloc(size_t n)
{
    VP_ASSERT(!G.got && n <= EMAX, "one block is allocated");
    if (K.fail) return NULL;
    G.got = 1;
    G.size = n;
    return ENV;
}
static void * vp_memcpy(void *d, const void *s, size_t n)
{
    long o;

    VP_ASSERT(G.got && VP_SAME((char *) d, &ENV), "text is copied into the block");
    o = (char *) d - ENV;
    VP_ASSERT(n <= (size_t) G.size && o + (long) n <= G.size, "no text is written beyond the block");
    VP_ASSERT(o >= (long) sizeof(char *) * (COUNT + 1), "no text is written over the table");
    VP_ASSERT(s == V[0] ? n <= (size_t) K.n[0] + 1 : s == V[1] ? n <= (size_t) K.n[1] + 1 : n <= vp_strlen(s) + 1, "no more than the text is read");
    if (K.w >= o && K.w < o + (long) n) ENV[K.w] = ((const char *) s)[K.w - o];
#ifndef VP_PROVE
    { size_t i; for (i = 0; i < n; i++) ENV[o + i] = ((const char *) s)[i]; }
#endif
    return d;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_get_sane_env(R) R(K.i >= 0 && K.i < COUNT && K.k >= 0 && K.k <= VLEN(K.i))
#define Q_get_sane_env(E) \
    E("nothing is returned exactly if there is no memory", (RV == NULL) == K.fail) \
    E("the result is the block allocated", VP_IMPLIES(!K.fail, RV == TAB)) \
    E("the table ends after the fixed variables and those of DEBUG and TZ that are set", VP_IMPLIES(!K.fail, TAB[COUNT] == NULL)) \
    E("each variable lies within the block", VP_IMPLIES(!K.fail, VP_SAME(TAB[K.i], &ENV) && TAB[K.i] - ENV >= (COUNT + 1) * (long) sizeof(char *) && TAB[K.i] - ENV + VLEN(K.i) < G.size)) \
    E("each variable is the documented one, with its value", VP_IMPLIES(!K.fail && TAB[K.i] - ENV + K.k == K.w, ENV[K.w] == vp_ch(VAR(K.i), K.k))) \
    E("nothing is written beyond the block", VP_IMPLIES(K.fail || K.w >= G.size, ENV[K.w] == K.wv))

static char ** get_sane_env(void)
    VP_REQ(P_get_sane_env) VP_ASSIGNS(__CPROVER_object_whole(ENV), G, VP) VP_ENS(Q_get_sane_env);

#define main vp_conman_main
#include "server.c"
#undef main

void harness(void)
{
    char **vp_rv;
    int i;

    for (i = 0; i < 2; i++) {
        K.set[i] = nd_bool();
        K.n[i] = nd_range(0, VMAX - 2);
    }
    K.fail = nd_range(0, 4) == 4;
    K.w = nd_range(0, EMAX - 1);
    K.i = nd_range(0, 4);
    K.k = nd_range(0, EMAX - 1);
    VP_ANY(V); VP_ANY(ENV);
#ifndef VP_PROVE
    { int j; for (i = 0; i < 2; i++) for (j = 0; j < VMAX; j++) V[i][j] = 'a' + j; }
    for (i = 0; i < EMAX; i++) ENV[i] = 'z';
    if (K.k > VLEN(K.i)) K.k %= VLEN(K.i) + 1;
#endif
    V[0][K.n[0]] = V[1][K.n[1]] = 0;
    K.wv = ENV[K.w];
    G.size = 0; G.got = 0;
    VP.held = VP.err = 0;
    VP_PRE(P_get_sane_env);
    vp_rv = get_sane_env();
    VP_POST(Q_get_sane_env);
    if (vp_rv && K.i == 4 && K.k == VLEN(4) && TAB[4] - ENV + K.k == K.w) VP_REACH("both variables kept");
    if (!vp_rv) VP_REACH("no memory");
}
