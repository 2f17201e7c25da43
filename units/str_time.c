/*VP
{ "properties": ["C17"],
  "sources": ["util-str.c"],
  "enforce": ["write_time_string", "create_long_time_string", "create_short_time_string", "create_time_delta_string", "create_format_string"],
  "novararg": ["append_format_string", "create_format_string"],
  "unwind": 66, "backends": ["sat"],
  "trusted": ["strftime, vsnprintf, snprintf stay within the size given; localtime_r fills its result"]
}
*/
#include "vp.h"
#define append_format_string vp_hdr_append
#define create_format_string vp_hdr_create
#include "util-str.h"
#undef append_format_string
#undef create_format_string
#undef va_start
#undef va_end
#define va_start(a,b) ((void) 0)
#define va_end(a) ((void) 0)

#define DMAX 64
char D[DMAX];
struct { int n; int k; char kv; } K;
struct { int calls, r; const char *p, *dup; size_t room; } G;
#undef strftime
#define strftime(p,n,f,tm) vp_fmt(p, n, 1)
#undef vsnprintf
#define vsnprintf(p,n,f,v) vp_fmt(p, n, 0)
#undef snprintf
#define snprintf(p,n,...)  (vp_use(__VA_ARGS__), vp_fmt(p, n, 0))
static int vp_use(const char *f, ...) { return 0; }
static int vp_fmt(char *p, size_t n, int time)
{
    int r = nd_range(0, 2000);
    VP_ASSERT(n > 0 && VP_W_OK(p, n), "formatted output stays within its buffer");
    VP_ASSERT(!VP_SAME(p, &D) || (p == D && n <= (size_t) K.n), "formatted output stays within the given size");
    G.calls++;
    G.p = p;
    G.room = n;
    if (time && r >= (int) n) r = 0;
    G.r = r;
    if (!time || r > 0) p[r < (int) n ? r : (int) n - 1] = 0;
    return r;
}
#undef localtime_r
#define localtime_r(t,tm) vp_localtime(tm)
static struct tm *vp_localtime(struct tm *tm) { VP_HAVOC(*tm); return tm; }
#define difftime(a,b) ((double) ((a) - (b)))
void *out_of_memory(void) { VP_DIE(); return NULL; }
#define time(t) vp_time(t)
static time_t vp_time(time_t *t) { time_t v = nd_range(0, 1L << 40); if (t) *t = v; return v; }
#undef strdup
#define strdup(s) vp_strdup(s)
static char *vp_strdup(const char *s)
{
    G.dup = s;
    VP_ASSERT(G.calls && s == G.p && (size_t) G.room <= VP_LIM(__CPROVER_OBJECT_SIZE(s), 100000), "the formatted string is what is returned");
    VP_ASSERT(s[G.r < (int) G.room ? G.r : (int) G.room - 1] == 0, "a terminated string is copied");
    return (char *) vp_alloc(G.room);
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_write_time_string(R) R(dst == D && dstlen == (size_t) K.n)
#define Q_write_time_string(E) \
    E("a time string is written only where it fits, and its length returned", K.n <= 20 ? (RV == 0 && G.calls == 0) : (G.calls == 1 && RV == G.r)) \
    E("nothing is written otherwise", VP_IMPLIES(K.k >= K.n || G.calls == 0, D[K.k] == K.kv))
#define P_create_long_time_string(R) R(1)
#define Q_create_long_time_string(E) E("one complete formatted string is returned", RV != NULL && G.calls == 1 && G.p == RV && G.r > 0 && G.room >= 24)
#define P_create_short_time_string(R) R(1)
#define Q_create_short_time_string(E) E("one complete formatted string is returned", RV != NULL && G.calls == 1 && G.p == RV && G.r > 0 && G.room >= 12)
#define P_create_time_delta_string(R) R(1)
#define Q_create_time_delta_string(E) E("one formatted string is returned, as a copy", RV != NULL && G.calls == 1 && G.dup == G.p)
#define P_create_format_string(R) R(1)
#define Q_create_format_string(E) E("one formatted string is returned, as a copy", fmt == NULL ? RV == NULL && G.calls == 0 : RV != NULL && G.calls == 1 && G.dup == G.p)

int write_time_string(time_t t, char *dst, size_t dstlen)
    VP_REQ(P_write_time_string) VP_ASSIGNS(__CPROVER_object_whole(D), G, VP) VP_ENS(Q_write_time_string);
char * create_long_time_string(time_t t)
    VP_REQ(P_create_long_time_string) VP_ASSIGNS(G, VP) VP_ENS(Q_create_long_time_string);
char * create_short_time_string(time_t t)
    VP_REQ(P_create_short_time_string) VP_ASSIGNS(G, VP) VP_ENS(Q_create_short_time_string);
char * create_time_delta_string(time_t t0, time_t t1)
    VP_REQ(P_create_time_delta_string) VP_ASSIGNS(G, VP) VP_ENS(Q_create_time_delta_string);
char * create_format_string(const char *fmt)
    VP_REQ(P_create_format_string) VP_ASSIGNS(G, VP) VP_ENS(Q_create_format_string);

#include "util-str.c"

void harness(void)
{
    time_t t = nd_range(0, 1L << 40), t0 = t, t1 = nd_range(-1, 1L << 40);
    char *dst = D;
    const char *fmt = nd_bool() ? "x" : NULL;
    size_t dstlen;
    K.n = nd_range(0, DMAX);
    K.k = nd_range(0, DMAX - 1);
    VP_FULL(D, DMAX);
    K.kv = D[K.k];
    dstlen = K.n;
    G.calls = 0; G.p = G.dup = NULL;
    VP.held = 0;
#if VP_OP == 0
    { int vp_rv;
    VP_PRE(P_write_time_string); vp_rv = write_time_string(t, dst, dstlen); VP_POST(Q_write_time_string); }
#elif VP_OP == 1
    { char *vp_rv = create_long_time_string(t); VP_POST(Q_create_long_time_string); }
#elif VP_OP == 2
    { char *vp_rv = create_short_time_string(t); VP_POST(Q_create_short_time_string); }
#elif VP_OP == 3
    VP_ASSUME(t1 == -1 || t1 >= t0);
    { char *vp_rv = create_time_delta_string(t0, t1); VP_POST(Q_create_time_delta_string); }
#else
    { char *vp_rv = create_format_string(fmt); VP_POST(Q_create_format_string); }
#endif
    VP_REACH("return");
}
