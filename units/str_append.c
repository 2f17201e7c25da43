/*VP
{ "properties": ["C17"],
  "sources": ["util-str.c"],
  "enforce": ["append_format_string"],
  "novararg": ["append_format_string", "create_format_string"],
  "unwind": 2, "bound_unwind": 9, "backends": ["z3", "uf"], "cost": 3,
  "bound_text": "buffers of at most 6 bytes",
  "assumptions": ["buffers are at most 64 KiB"],
  "trusted": ["vsnprintf(p,n,...) stays within n bytes, NUL-terminates, and returns the full length or a negative number"],
  "loops": [
   {"func": "append_format_string", "nth": 0, "count": 1, "locals": ["p", "num_left"],
     "assigns": "$LOCALS, G, VP",
     "ghost": "VP_PIN(p, B + G.i); G.i++;",
     "invariant": ["0 <= G.i && G.i <= K.n && num_left == (size_t) (K.n - G.i) && p == B + G.i",
       "VP_IMPLIES(K.k < G.i, B[K.k] != 0)", "G.calls == 0 && VP.err == 0"]} ]
}
*/
#include "vp.h"
#define append_format_string vp_hdr_append
#define create_format_string vp_hdr_create
#include "util-str.h"
#undef append_format_string
#undef create_format_string
#undef va_start
#undef va_end
#define va_start(a,b) ((void) 0)
#define va_end(a) ((void) 0)

#define BMAX VP_LIM(1 << 16, 8)
unsigned char B[BMAX];
struct {
    int n;                              /* size of the buffer                */
    int k; unsigned char kv;            /* an arbitrary position, its byte   */
    int f; unsigned char fv;            /* a position beyond the buffer      */
} K;
struct {
    int i;
    int calls, off, ret;
} G;

#define vsnprintf(p,n,f,v) vp_vsnprintf((unsigned char *) (p), n)
static int vp_vsnprintf(unsigned char *p, size_t n)
{
    int r = nd_range(-1, 1 << 20), off, m;

    VP_ASSERT(VP_SAME(p, &B) && p >= B && p < B + K.n, "output starts within the buffer");
    off = p - B;
    VP_ASSERT(n > 0 && n <= (size_t) (K.n - off), "output is limited to the room left");
    VP_ASSERT(*p == 0, "output starts at the end of the string already present");
    VP_ASSERT(VP_IMPLIES(K.k < off, K.kv != 0), "output starts at the first NUL");
    VP_ASSERT(n >= (size_t) (K.n - off), "all the room left is offered");
    G.calls++;
    G.off = off;
    G.ret = r;
    if (r >= 0) {
        m = (size_t) r < n ? r : (int) n - 1;
        if (m > 0) { p[0] = 'x'; p[m - 1] = 'y'; }
        p[m] = 0;
    }
    return r;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

/*  the buffer held no complete string, or had no room for more than its end  */
#define FULL (G.calls == 0)
#define P_append_format_string(R) R(dst == (char *) B && size == (size_t) K.n && fmt != NULL)
#define Q_append_format_string(E) \
    E("success returns the length of the whole result; truncation or failure returns -1", \
        K.n == 0 ? RV == 0 : FULL ? RV == -1 : (G.calls == 1 && \
            RV == (G.ret < 0 || G.ret >= K.n - G.off ? -1 : G.off + G.ret))) \
    E("a buffer is called full only if it ends without room", \
        VP_IMPLIES(FULL && K.n > 0, B[K.n - 1] == 0 && VP_IMPLIES(K.k < K.n - 1, K.kv != 0))) \
    E("the string already present is intact", \
        VP_IMPLIES(K.k < K.n && (FULL ? K.k < K.n - 1 : K.k < G.off), B[K.k] == K.kv)) \
    E("nothing beyond the given size is written", K.f < K.n || B[K.f] == K.fv)

int append_format_string(char *dst, size_t size, const char *fmt)
    VP_REQ(P_append_format_string) VP_ASSIGNS(__CPROVER_object_whole(B), G, VP) VP_ENS(Q_append_format_string);

#include "util-str.c"

void harness(void)
{
    char *dst = (char *) B;
    size_t size;
    const char *fmt = "x";
    int vp_rv;

    VP_ANY(B);
#ifndef VP_PROVE
    { int i; for (i = 0; i < BMAX; i++) B[i] = nd_bool() ? 'a' : nd_range(0, 1) * 'b'; }
#endif
    K.n = nd_range(0, BMAX);
    K.k = nd_range(0, BMAX - 1);
    K.kv = B[K.k];
    K.f = nd_range(0, BMAX - 1);
    VP_ASSUME(K.f >= K.n || K.n == BMAX);
    K.fv = B[K.f];
    G.i = G.calls = G.off = G.ret = 0;
    VP.held = VP.err = 0;
    size = K.n;
    VP_PRE(P_append_format_string);
    vp_rv = append_format_string(dst, size, fmt);
    VP_POST(Q_append_format_string);
    if (vp_rv > 0 && G.off > 2) VP_REACH("appended");
    if (vp_rv < 0 && G.calls) VP_REACH("truncated");
    if (vp_rv < 0 && !G.calls) VP_REACH("full");
}
