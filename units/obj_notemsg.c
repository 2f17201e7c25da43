/*VP
{ "properties": ["C27"],
  "sources": ["server-obj.c"],
  "enforce": ["write_notify_msg"], "stub_defs": ["notify_console_objs"],
  "novararg": ["write_notify_msg"],
  "unwind": 20, "bound_unwind": 20, "backends": ["z3"],
  "assumptions": ["vsnprintf does not fail (its result may have any length)"],
  "trusted": ["snprintf, vsnprintf (C standard)", "notify_console_objs contract (discharged in obj_notify)"]
}
*/
#include "vp.h"
#include "common.h"
#define write_notify_msg vp_hdr_notify
#include "server.h"
#undef write_notify_msg
#include "tpoll.h"
#undef va_start
#undef va_end
#define va_start(a,b) ((void) 0)
#define va_end(a) ((void) 0)

char M[MAX_LINE + 64];                  /* the formatted message             */
char FMT[2];
obj_t OB;
struct { int ml; int k; } K;            /* its length, an arbitrary position */
struct { int told, bad, calls; } G;
#define VP_PL ((int) sizeof(CONMAN_MSG_PREFIX) - 1)
#define VP_SL ((int) sizeof(CONMAN_MSG_SUFFIX) - 1)
#define VP_ROOM (MAX_LINE - VP_PL - VP_SL - 1)
#define VP_ML (K.ml < VP_ROOM ? K.ml : VP_ROOM)

static int vp_put(char *s, size_t n, const char *t, int len)
{
    int i, m = (size_t) len < n ? len : (int) n - 1;

    VP_ASSERT(n > 0 && VP_W_OK(s, n), "text written stays within the buffer");
    if (t != (const char *) M) for (i = 0; i < m; i++) s[i] = t[i];
    else {
#ifdef VP_NATIVE
        for (i = 0; i < m; i++) s[i] = t[i];
#else
        if (K.k >= VP_PL && K.k - VP_PL < m) s[K.k - VP_PL] = M[K.k - VP_PL];
#endif
    }
    s[m] = 0;
    return len;
}
static int vp_len(const char *s) { int n; for (n = 0; s[n]; n++) ; return n; }
#undef snprintf
#undef vsnprintf
#undef strlen
#define VP_A1(a,...) ((const char *) (long) (a))
#define snprintf(s,n,...) vp_fmt(s, n, VP_A1(__VA_ARGS__, 0), VP_A2(__VA_ARGS__, 0, 0))
#define VP_A2(a,b,...) ((const char *) (long) (b))
static int vp_fmt(char *s, size_t n, const char *f, const char *a)
{
    const char *t = (f[0] == '%' && f[1] == 's') ? a : f;
    return vp_put(s, n, t, vp_len(t));
}
#define vsnprintf(s,n,f,v) (G.calls++, vp_put(s, n, M, K.ml))
#define strlen(s) ((size_t) vp_len(s))
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
void notify_console_objs(obj_t *console, char *msg)
{
    int tot = VP_PL + VP_ML + VP_SL;

    if (console != &OB) G.bad = 1;
    VP_ASSERT(VP_R_OK(msg, MAX_LINE), "a whole line is sent");
    if (K.k < VP_PL) { if (msg[K.k] != CONMAN_MSG_PREFIX[K.k]) G.bad = 1; }
    else if (K.k < VP_PL + VP_ML) { if (msg[K.k] != M[K.k - VP_PL]) G.bad = 1; }
    else if (K.k <= tot && msg[K.k] != CONMAN_MSG_SUFFIX[K.k - VP_PL - VP_ML]) G.bad = 1;
    G.told++;
}

#define P_write_notify_msg(R) R(console == &OB && fmt == FMT)
#define Q_write_notify_msg(E) \
    E("the message is sent once, to the observers of the console named", G.told == 1 && RV == 0) \
    E("it is the prefix, as much of the text as fits, and the terminator", G.bad == 0 && G.calls == 1)

int write_notify_msg(obj_t *console, int priority, char *fmt)
    VP_REQ(P_write_notify_msg) VP_ASSIGNS(G, VP) VP_ENS(Q_write_notify_msg);

#include "server-obj.c"

void harness(void)
{
    obj_t *console = &OB;
    char *fmt = FMT;
    int vp_rv, i;

    OB.type = 1u << nd_range(2, 7);
    K.ml = nd_range(0, MAX_LINE + 60);
    K.k = nd_range(0, MAX_LINE - 1);
    VP_ANY(M);
#ifdef VP_NATIVE
    for (i = 0; i < MAX_LINE + 64; i++) M[i] = 'a' + i % 26;
#endif
    (void) i;
    G.told = G.bad = G.calls = 0;
    VP.held = VP.err = 0;
    VP_PRE(P_write_notify_msg);
    vp_rv = write_notify_msg(console, LOG_INFO, fmt);
    VP_POST(Q_write_notify_msg);
    if (K.ml > VP_ROOM + 2) VP_REACH("truncated");
    if (K.ml < 10) VP_REACH("short");
}
