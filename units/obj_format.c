/*VP
{ "properties": ["C18"],
  "sources": ["server-obj.c"],
  "enforce": ["format_obj_string"], "stub_defs": ["sanitize_file_string"],
  "unwind": 2, "bound_unwind": 8, "backends": ["uf"], "timeout": 250, "cost": 5,
  "bound_text": "templates of at most 5 characters, buffers of at most 12 bytes",
  "assumptions": ["template, buffer, names are at most 8 KiB"],
  "trusted": ["strcpy, strrchr, strlen, snprintf(\"%s:%d\", \"%d\"), strftime (C standard; the text of each time conversion is arbitrary)",
     "sanitize_file_string contract (discharged in obj_sanitize)"],
  "loops": [
   {"func": "format_obj_string", "nth": 0, "count": 1, "locals": ["psrc", "pdst", "n"],
     "assigns": "$ASSIGNED, __CPROVER_object_whole(tfmt), __CPROVER_object_whole(B), G, VP",
     "guard": "VP_PIN(psrc, S + G.n); G.p = VP_OFFS(pdst, B); VP_PIN(pdst, B + G.p);",
     "ghost": "vp_spec();",
     "invariant": ["0 <= G.n && G.n <= K.sn && psrc == (const char *) S + G.n && 0 <= G.out",
       "VP_SAME(pdst, &B) && (n > 0 ? (n == K.dn - G.out && pdst == B + G.out) : (G.out >= K.dn && G.out <= K.dn + 70000 && VP_OFFS(pdst, B) >= 0 && VP_OFFS(pdst, B) < K.dn))",
       "tfmt[0] == '%' && tfmt[2] == 0 && G.bad == 0 && G.pend == 0",
       "VP_IMPLIES(n > 0 && K.k < G.out, B[K.k] == G.kv) && (K.f < K.dn || B[K.f] == K.fv)"]} ]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

#define BMAX VP_LIM(1 << 13, 32)
#define TMAX 32
char B[BMAX], S[BMAX], U[BMAX], V[BMAX], H[BMAX];
char HN[4], PT[16], TT[256 * TMAX];
unsigned char TL[256];
#define VP_TLEN(c) ((TL[(unsigned char) (c)] & (TMAX - 1)) + 1)
obj_t OB;
struct {
    int dn;                             /* size of the buffer                */
    int sn;                             /* length of the template            */
    int un, vn, hn, pn;                 /* name, device, host:port, pid      */
    int slash;                          /* last slash in the device, or -1   */
    int pid, yday, port;
    obj_t *obj;
    int k;                              /* an arbitrary output position      */
    int f; char fv;                     /* a position beyond the buffer      */
} K;
struct {
    int n, out, p;                      /* template taken, output due        */
    int end;                            /* end of the text last copied       */
    char kv;                            /* output due at position k          */
    char spec;                          /* conversion being expanded         */
    int bad, pend;                      /* text awaiting sanitizing          */
} G;

static char vp_clean(char c) { return (c > ' ' && c < 127 && c != '/') ? c : '_'; }
static void vp_text(const char *t, int len, int clean)
{
    if (K.k >= G.out && K.k < G.out + len) G.kv = clean ? vp_clean(t[K.k - G.out]) : t[K.k - G.out];
    G.out += len;
}
static int vp_istime(char c)
{
    return c == 'd' || c == 'g' || c == 'G' || c == 'H' || c == 'j' || c == 'm' || c == 'M' || c == 's' || c == 'S'
        || c == 'u' || c == 'U' || c == 'V' || c == 'w' || c == 'W' || c == 'y' || c == 'Y';
}
/*  what the documentation says the next item of the template stands for  */
static void vp_spec(void)
{
    char c = S[G.n], d;

    G.spec = 0;
    if (c != '%' || (d = S[G.n + 1]) == 0) {
        vp_text(S + G.n, 1, 0);
        G.n++;
        return;
    }
    G.n += 2;
    G.spec = d;
    if (d == '%') vp_text(S + G.n - 1, 1, 0);
    else if (d == 'P') vp_text(PT, K.pn, 0);
    else if (vp_istime(d)) vp_text(TT + ((unsigned char) d) * TMAX, VP_TLEN(d), 0);
    else if (d == 'N' && K.obj) {
        if (is_console_obj(K.obj)) vp_text(U, K.un, 1);
    }
    else if (d == 'D' && K.obj) {
        if (is_serial_obj(K.obj) || is_unixsock_obj(K.obj)) vp_text(V + K.slash + 1, K.vn - K.slash - 1, 1);
        else if (is_telnet_obj(K.obj)) vp_text(H, K.hn, 1);
    }
    else vp_text(S + G.n - 2, 2, 0);
}
/*  put the first m characters of t, and a terminator, at d  */
static void vp_put(char *d, const char *t, int m)
{
    int off;

    VP_ASSERT(VP_SAME(d, &B) && d >= B && d < B + K.dn && m < K.dn - (d - B), "text written stays within the buffer");
    off = d - B;
    if (K.k >= off && K.k < off + m) B[K.k] = t[K.k - off];
#ifndef VP_PROVE
    { int i; for (i = 0; i < m; i++) B[off + i] = t[i]; }
#endif
    B[off + m] = 0;
    G.end = off + m;
}
static size_t vp_len(const char *s)
{
    if (s == U) return K.un;
    VP_ASSERT(VP_SAME(s, &V) && s >= V && s <= V + K.vn, "length of a name");
    return V + K.vn - s;
}
static char * vp_strrchr(const char *s, int c)
{
    VP_ASSERT(s == V && c == '/', "last slash of the device");
    return K.slash < 0 ? NULL : V + K.slash;
}
static char * vp_copy(char *d, const char *s)
{
    vp_put(d, s, (int) vp_len(s));
    G.pend = 1;
    return d;
}
static int vp_fmt(char *d, size_t n, const char *f, long a, long b)
{
    int m;
    const char *t;

    if (f[1] == 's') {
        VP_ASSERT(f[0] == '%' && f[2] == ':' && f[3] == '%' && f[4] == 'd' && f[5] == 0, "host:port");
        if (a != (long) HN || b != K.port) G.bad = 1;
        t = H; m = K.hn; G.pend = 1;
    }
    else {
        VP_ASSERT(f[0] == '%' && f[1] == 'd' && f[2] == 0, "number");
        if (a != K.pid) G.bad = 1;
        t = PT; m = K.pn;
    }
    VP_ASSERT(n > 0 && VP_SAME(d, &B) && d >= B && d < B + K.dn && n <= (size_t) (B + K.dn - d), "output limited to the room left");
    vp_put(d, t, (size_t) m < n ? m : (int) n - 1);
    if ((size_t) m >= n) G.pend = 0;
    return m;
}
static size_t vp_time(char *d, size_t n, const char *f, const struct tm *tm)
{
    int m;

    VP_ASSERT(f[0] == '%' && f[2] == 0, "one conversion");
    VP_ASSERT(n > 0 && VP_SAME(d, &B) && d >= B && d < B + K.dn && n <= (size_t) (B + K.dn - d), "output limited to the room left");
    if (f[1] != G.spec || tm->tm_yday != K.yday) G.bad = 1;
    m = VP_TLEN(f[1]);
    if ((size_t) m >= n) return 0;
    vp_put(d, TT + ((unsigned char) f[1]) * TMAX, m);
    return m;
}
#undef strlen
#undef strcpy
#undef strrchr
#undef snprintf
#undef strftime
#define strlen(s) vp_len(s)
#define strcpy(d,s) vp_copy(d, s)
#define strrchr(s,c) vp_strrchr(s, c)
#define VP_A1(a,...) ((long) (a))
#define VP_A2(a,b,...) ((long) (b))
#define snprintf(d,n,f,...) vp_fmt(d, n, f, VP_A1(__VA_ARGS__, 0), VP_A2(__VA_ARGS__, 0, 0))
#define strftime(d,n,f,t) vp_time(d, n, f, t)
#define getpid() (K.pid)
struct tm * get_localtime(time_t *t, struct tm *tm) { tm->tm_yday = K.yday; return tm; }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
/*  the text from s up to its terminator is made safe  */
static char * sanitize_file_string(char *s)
{
    int off;

    VP_ASSERT(VP_SAME(s, &B) && s >= B && s <= B + G.end, "text to sanitize");
    off = s - B;
    if (K.k >= off && K.k < G.end) B[K.k] = vp_clean(B[K.k]);
#ifndef VP_PROVE
    { int i; for (i = off; i < G.end; i++) if (i != K.k) B[i] = vp_clean(B[i]); }
#endif
    G.pend = 0;
    return s;
}

#define P_format_obj_string(R) R(buf == B && buflen == K.dn && obj == K.obj && fmt == S)
#define Q_format_obj_string(E) \
    E("success returns the length of the whole expansion", VP_IMPLIES(RV >= 0, RV == G.out && RV < K.dn)) \
    E("the whole template is expanded on success", VP_IMPLIES(RV >= 0, S[G.n] == 0)) \
    E("failure is reported exactly when the expansion does not fit", VP_IMPLIES(RV < 0, RV == -1 && G.out >= K.dn)) \
    E("each specifier expands to the documented text, names made safe for a file name", VP_IMPLIES(RV >= 0 && K.k < RV, B[K.k] == G.kv)) \
    E("values come from the right sources", G.bad == 0 && VP_IMPLIES(RV >= 0, G.pend == 0)) \
    E("the result is terminated", VP_IMPLIES(RV >= 0, B[RV] == 0)) \
    E("nothing beyond the given size is written", K.f < K.dn || B[K.f] == K.fv)

int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
    VP_REQ(P_format_obj_string) VP_ASSIGNS(__CPROVER_object_whole(B), G, VP) VP_ENS(Q_format_obj_string);

#include "server-obj.c"

void harness(void)
{
    char *buf = B;
    int buflen, i;
    const char *fmt = S;
    obj_t *obj;
    int vp_rv;

    K.dn = nd_range(1, VP_LIM(BMAX, 12));
    K.sn = nd_range(0, VP_LIM(BMAX - 1, 5));
    K.un = nd_range(0, VP_LIM(BMAX - 1, 6));
    K.vn = nd_range(0, VP_LIM(BMAX - 1, 6));
    K.slash = nd_range(-1, K.vn - 1);
    K.hn = nd_range(1, VP_LIM(BMAX - 1, 6));
    K.pn = nd_range(1, 11);
    K.k = nd_range(0, BMAX - 1);
    K.f = nd_range(0, BMAX - 1);
    K.pid = nd_range(1, 100000); K.yday = nd_range(0, 365); K.port = nd_range(1, 65535);
    VP_ANY(B); VP_ANY(S); VP_ANY(U); VP_ANY(V); VP_ANY(H); VP_ANY(PT); VP_ANY(TT); VP_ANY(TL);
#ifndef VP_PROVE
    { static const char t[9] = "%NDPYab%";
      for (i = 0; i < BMAX; i++) { B[i] = 'z'; S[i] = nd_pick(t); U[i] = nd_pick("u/ "); V[i] = nd_pick("v \1"); H[i] = nd_pick("h:"); }
      if (nd_bool()) for (i = 1; i < 6; i += 2) { S[i - 1] = '%'; S[i] = nd_pick(t); }
      for (i = 0; i < 256; i++) TL[i] = i & 3;
      for (i = 0; i < 256 * TMAX; i++) TT[i] = '0' + (i & 7);
      for (i = 0; i < 16; i++) PT[i] = '0' + (i & 7); }
#endif
    (void) i;
    S[K.sn] = 0;
    VP_ASSUME(K.f >= K.dn || K.dn == BMAX);
    K.fv = B[K.f];
    OB.type = 1u << nd_range(0, 7);
    OB.name = U;
    if (is_telnet_obj((&OB))) { OB.aux.telnet.host = HN; OB.aux.telnet.port = K.port; }
    else if (is_unixsock_obj((&OB))) OB.aux.unixsock.dev = V;
    else if (is_serial_obj((&OB))) OB.aux.serial.dev = V;
    obj = K.obj = nd_range(0, 3) ? &OB : NULL;
    G.n = G.out = G.bad = G.pend = G.end = 0;
    G.kv = 0;
#ifndef VP_PROVE
    while (S[G.n] && G.out < K.dn) vp_spec();
#endif
    VP.held = VP.err = 0;
    buflen = K.dn;
    buflen = K.dn;
    VP_PRE(P_format_obj_string);
    vp_rv = format_obj_string(buf, buflen, obj, fmt);
    VP_POST(Q_format_obj_string);
    if (vp_rv > 3 && K.obj && G.n < G.out) VP_REACH("substituted");
    if (vp_rv < 0 && K.dn > 2) VP_REACH("too long");
    if (vp_rv >= 0 && K.sn > 0 && S[K.sn - 1] == '%') VP_REACH("ends in percent");
}
