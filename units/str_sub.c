/*VP
{ "properties": ["C17", "C18"],
  "sources": ["util-str.c"],
  "enforce": ["substitute_string"],
  "unwind": 2, "bound_unwind": 9, "backends": ["uf", "z3"],
  "bound_text": "templates of at most 5 characters, buffers of at most 7 bytes",
  "assumptions": ["buffer, template and substitute are at most 64 KiB"],
  "trusted": ["strlcpy(d,s,n) copies min(strlen(s),n-1) bytes, NUL-terminates, and returns strlen(s)"],
  "loops": [
   {"func": "substitute_string", "nth": 0, "count": 1, "locals": ["p", "q", "len"],
     "assigns": "$LOCALS, __CPROVER_object_whole(B), G, VP",
     "ghost": "VP_PIN(p, S + G.n); VP_PIN(q, B + G.out); vp_spec();",
     "invariant": ["0 <= G.n && G.n <= K.sn && 0 <= G.out && G.out <= 2 * BMAX && p == (const char *) S + G.n && q == (char *) B + G.out",
       "len == K.dn - G.out",
       "VP_IMPLIES(K.k < G.out && K.k < K.dn - 1, B[K.k] == G.kv) && (K.f < K.dn || B[K.f] == K.fv)"]} ]
}
*/
#include "vp.h"
#include "util-str.h"

#define BMAX VP_LIM(1 << 16, 8)
unsigned char B[BMAX], U[BMAX];
char S[BMAX];
struct {
    int dn;                             /* size of the buffer                */
    int sn;                             /* length of the template            */
    int un;                             /* length of the substitute          */
    int sub;                            /* there is a substitute             */
    char c;
    int k;                              /* an arbitrary output position      */
    int f; unsigned char fv;            /* a position beyond the buffer      */
} K;
struct {
    int n, out;                         /* template taken, output due        */
    unsigned char kv;                   /* output due at position k          */
} G;

static void vp_spec(void)
{
    if (S[G.n] == '%' && S[G.n + 1] == K.c) {
        G.n += 2;
        if (K.sub) {
            if (K.k >= G.out && K.k < G.out + K.un) G.kv = U[K.k - G.out];
            G.out += K.un;
        }
    }
    else {
        if (G.out == K.k) G.kv = S[G.n];
        G.n++;
        G.out++;
    }
}
#undef strlcpy
#define strlcpy(d,s,n) vp_strlcpy((unsigned char *) (d), s, n)
static size_t vp_strlcpy(unsigned char *d, const char *s, size_t n)
{
    int off, m;

    VP_ASSERT(s == (const char *) U, "the substitute is what is copied");
    VP_ASSERT(VP_SAME(d, &B) && d >= B && d < B + K.dn, "output starts within the buffer");
    off = d - B;
    VP_ASSERT(n > 0 && n <= (size_t) (K.dn - off), "output is limited to the room left");
    m = (size_t) K.un < n ? K.un : (int) n - 1;
    if (K.k >= off && K.k < off + m) B[K.k] = U[K.k - off];
#ifndef VP_PROVE
    { int i; for (i = 0; i < m; i++) B[off + i] = U[i]; }
#endif
    if (K.k != off + m) B[off + m] = 0; else B[K.k] = 0;
    return K.un;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_substitute_string(R) R(dst == (char *) B && dstlen == (size_t) K.dn && src == (const char *) S && c == K.c && sub == (K.sub ? (const char *) U : NULL))
#define Q_substitute_string(E) \
    E("success returns the length of the whole result", VP_IMPLIES(RV >= 0, RV == G.out && RV < K.dn)) \
    E("the whole template is substituted on success", VP_IMPLIES(RV >= 0, S[G.n] == 0)) \
    E("failure is reported exactly when the result does not fit", VP_IMPLIES(RV < 0, RV == -1 && (G.out >= K.dn || K.dn == 0 || K.c == 0))) \
    E("a bad argument writes nothing", VP_IMPLIES(K.dn == 0 || K.c == 0, RV == -1)) \
    E("each character is the documented one, in order", VP_IMPLIES(K.c != 0 && K.k < G.out && K.k < K.dn - 1, B[K.k] == G.kv)) \
    E("the result is terminated", VP_IMPLIES(K.dn > 0 && K.c != 0, B[RV >= 0 ? RV : K.dn - 1] == 0)) \
    E("nothing beyond the given size is written", K.f < K.dn || B[K.f] == K.fv)

int substitute_string(char *dst, size_t dstlen, const char *src, char c, const char *sub)
    VP_REQ(P_substitute_string) VP_ASSIGNS(__CPROVER_object_whole(B), G, VP) VP_ENS(Q_substitute_string);

#include "util-str.c"

void harness(void)
{
    char *dst = (char *) B;
    size_t dstlen;
    const char *src = S, *sub;
    char c;
    int vp_rv;

    K.dn = nd_range(0, VP_LIM(BMAX, 7));
    K.sn = nd_range(0, VP_LIM(BMAX - 1, 5));
    K.un = nd_range(0, VP_LIM(BMAX - 1, 5));
    K.k = nd_range(0, BMAX - 1);
    K.f = nd_range(0, BMAX - 1);
    K.sub = nd_bool();
    VP_ANY(B); VP_ANY(S); VP_ANY(U);
#ifndef VP_PROVE
    { int i; static const char t[6] = "%Nab%"; for (i = 0; i < BMAX; i++) { B[i] = 'z'; S[i] = nd_pick(t); U[i] = 'u' + i; } }
    c = nd_bool() ? 'N' : nd_bool() ? '%' : nd_bool() ? 'a' : 0;
    U[K.un] = 0;
#else
    c = nd_char();
#endif
    K.c = c;
    S[K.sn] = 0;
    VP_ASSUME(K.f >= K.dn || K.dn == BMAX);
    K.fv = B[K.f];
    G.n = G.out = 0;
    G.kv = 0;
#ifndef VP_PROVE
    if (K.dn > 0 && c) while (S[G.n] && G.out < K.dn) vp_spec();
#endif
    VP.held = VP.err = 0;
    dstlen = K.dn;
    sub = K.sub ? (const char *) U : NULL;
    VP_PRE(P_substitute_string);
    vp_rv = substitute_string(dst, dstlen, src, c, sub);
    VP_POST(Q_substitute_string);
    if (vp_rv > 3 && K.sub && G.n < G.out) VP_REACH("substituted");
    if (vp_rv < 0 && K.dn > 2) VP_REACH("truncated");
}
