/*VP
{ "properties": ["C14"],
  "sources": ["lex.c"],
  "enforce": ["lex_next"],
  "stub_defs": ["lookup_token"],
  "unwind": 2, "bound_unwind": 9, "backends": ["uf", "z3"], "timeout": 200,
  "bound_text": "texts of at most 8 characters",
  "assumptions": ["the text is at most 64 KiB"],
  "trusted": ["isalpha, isalnum, isdigit (C locale)", "memcpy(d,s,n) copies n bytes"],
  "loops": [
   {"func": "lex_next", "nth": 0, "count": 5, "kind": "for", "assigns": "$LOCALS, L.pos, L.line, L.gotEOL, L.prev, L.text, G",
     "ghost": "G.i = VP_OFFS(l->pos, T); VP_PIN(l->pos, T + G.i); vp_spec();",
     "invariant": ["VP_SAME(L.pos, &T) && VP_OFFS(L.pos, T) >= K.p0 && VP_OFFS(L.pos, T) <= K.n && T[K.n] == 0",
       "G.done == 0 && G.bad == 0 && G.copied == 0 && G.lk == 0 && VP_OFFS(L.pos, T) == G.p && L.line == G.line && L.gotEOL == 0 && G.line >= K.line && G.line - K.line <= 1 + G.p - K.p0"]},
   {"func": "lex_next", "nth": 1, "count": 5, "kind": "do", "assigns": "L.pos, G.i",
     "ghost": "G.i = VP_OFFS(l->pos, T); VP_PIN(l->pos, T + G.i); VP_INST(G.i + 1);",
     "invariant": ["VP_SAME(L.pos, &T) && VP_OFFS(L.pos, T) >= G.s && VP_OFFS(L.pos, T) < G.e && T[K.n] == 0"]},
   {"func": "lex_next", "nth": 2, "count": 5, "kind": "for", "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, T); VP_PIN(p, T + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &T) && VP_OFFS(p, T) > G.s && VP_OFFS(p, T) <= G.e && T[K.n] == 0"]},
   {"func": "lex_next", "nth": 3, "count": 5, "kind": "for", "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, T); VP_PIN(p, T + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &T) && VP_OFFS(p, T) > G.s && VP_OFFS(p, T) <= G.e && T[K.n] == 0"]},
   {"func": "lex_next", "nth": 4, "count": 5, "kind": "for", "locals": ["p"], "assigns": "p, G.i",
     "guard": "G.i = VP_OFFS(p, T); VP_PIN(p, T + G.i); VP_INST(G.i);",
     "invariant": ["VP_SAME(p, &T) && VP_OFFS(p, T) > G.s && VP_OFFS(p, T) <= G.e && T[K.n] == 0"]} ]
}
*/
#include "vp.h"
#include "lex.h"

#define BMAX VP_LIM(1 << 16, 24)
#ifdef VP_NATIVE
#define TMAX 1300
#else
#define TMAX BMAX
#endif
extern struct lexer_state L;
char T[TMAX];
struct {
    int n, p0;                          /* length of the text, start         */
    int line, eol;
    int j;                              /* an arbitrary position of the token text */
    int tok;                            /* what the word list gives          */
    char *toks[2]; int numtoks;
} K;
struct {
    int i;
    int p;                              /* the specified position            */
    int line;
    int s, e; int cls;                  /* a scan: start, end, what it passes over */
    char q;
    int done, tok, start, len, end;     /* the specified token, its text, where it ends */
    int one;                            /* text is this character            */
    int copied, lk, bad;
} G;
#define VP_DIG(c) ((c) >= '0' && (c) <= '9')
#define VP_ALF(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
/*  characters a scan passes over: 0 comment, 1 quoted text, 2 word, 3 number  */
#define VP_EOLC(c) ((c) == 0 || (c) == '\n' || (c) == '\r')
#define VP_IN(c) (G.cls == 0 ? !VP_EOLC(c) : G.cls == 1 ? (!VP_EOLC(c) && (c) != G.q) : G.cls == 2 ? (VP_ALF(c) || VP_DIG(c) || (c) == '_') : VP_DIG(c))
/*  G.e is the first position after G.s the scan does not pass over; "none
 *    before is" instantiated at x  */
#define VP_INST(x) VP_ASSUME((x) <= G.s || (x) >= G.e || VP_IN(T[x]))
static void vp_scan(int cls)
{
    G.cls = cls;
    G.s = G.p;
    G.q = T[G.p];
#ifdef VP_PROVE
    G.e = nd_range(G.p + 1, K.n);
    VP_ASSUME(!VP_IN(T[G.e]));
#else
    for (G.e = G.p + 1; VP_IN(T[G.e]); G.e++) ;
#endif
}
static void vp_token(int tok, int start, int len, int end)
{
    G.done = 1;
    G.tok = tok;
    G.start = start;
    G.len = len < LEX_MAX_STR - 1 ? len : LEX_MAX_STR - 1;
    G.end = end;
    G.one = 256;
}
/*  the documented step at position G.p  */
static void vp_spec(void)
{
    char c = T[G.p], d;

    if (c == 0) vp_token(LEX_EOF, G.p, 0, G.p);
    else if (c == ' ' || c == '\t' || c == '\v' || c == '\f') G.p++;
    else if (c == '#') { vp_scan(0); G.p = G.e; }
    else if (c == '\r' || c == '\n') {
        if (c == '\r' && T[G.p + 1] == '\n') G.p++;
        vp_token(LEX_EOL, G.p, 1, G.p + 1);
        G.one = T[G.p];
    }
    else if (c == '"' || c == '\'') {
        vp_scan(1);
        if (T[G.e] == c) vp_token(LEX_STR, G.p + 1, G.e - G.p - 1, G.e + 1);
        else vp_token(LEX_ERR, G.p, 0, G.e);
    }
    else if (c == '\\' && T[G.p + 1] == '\n') { G.p += 2; G.line++; }
    else if (c == '\\' && T[G.p + 1] == '\r' && T[G.p + 2] == '\n') { G.p += 3; G.line++; }
    else if (VP_ALF(c) || c == '_') {
        vp_scan(2);
        vp_token(K.tok, G.p, G.e - G.p, G.e);
    }
    else {
        d = T[G.p + 1];
        if (VP_DIG(c) || ((c == '-' || c == '+') && VP_DIG(d))) {
            vp_scan(3);
            vp_token(LEX_INT, G.p, G.e - G.p, G.e);
        }
        else {
            vp_token(c, G.p, 1, G.p + 1);
            G.one = c;
        }
    }
}
#undef isalpha
#undef isalnum
#undef isdigit
#define isalpha(c) VP_ALF(c)
#define isalnum(c) (VP_ALF(c) || VP_DIG(c))
#define isdigit(c) VP_DIG(c)
#undef memcpy
#ifndef VP_NATIVE
#define memcpy(d,s,n) vp_memcpy(d, s, n)
static void *vp_memcpy(void *d, const void *s, size_t n);
#endif
#undef malloc
#undef free
#undef MIN
void *out_of_memory(void) { return NULL; }
static int lookup_token(char *str, char *toks[], int numtoks);
#include "lex.c"

struct lexer_state L;
#ifndef VP_NATIVE
/*  contract of memcpy for the token text: position K.j of it is tracked  */
static void *vp_memcpy(void *d, const void *s, size_t n)
{
    VP_ASSERT(d == L.text && n < LEX_MAX_STR, "the token text fits");
    VP_ASSERT(VP_SAME(s, &T) && VP_OFFS(s, T) >= 0 && VP_OFFS(s, T) + (long) n <= K.n, "it is taken from the text");
    if (K.j < (long) n) L.text[K.j] = T[VP_OFFS(s, T) + K.j];
    G.copied++;
    return d;
}
#endif
/*  contract of lookup_token (discharged in lex_words.lookup_token)  */
static int lookup_token(char *str, char *toks[], int numtoks)
{
    if (str != L.text || toks != K.toks || numtoks != K.numtoks) G.bad = 1;
    VP_ASSERT(VP_IMPLIES(K.j <= G.len, L.text[K.j] == (K.j < G.len ? T[G.start + K.j] : 0)), "the word looked up is the one in the text");
    G.lk++;
    return K.tok;
}
#define VP_J (K.j == G.len ? 0 : G.one < 256 ? G.one : T[G.start + K.j])
#define P_lex_next(R) R(l == &L)
#define Q_lex_next(E) \
    E("the next token is returned, after blanks, comments and continued lines", G.done && RV == G.tok && L.prev == RV) \
    E("it has the text it is written with, cut to fit", VP_IMPLIES(K.j <= G.len, L.text[K.j] == VP_J)) \
    E("the following token starts where this one ends", VP_SAME(L.pos, &T) && VP_OFFS(L.pos, T) == G.end && G.end <= K.n) \
    E("every token but the end of the text takes some of it", G.end > K.p0 || RV == LEX_EOF) \
    E("lines are counted", L.line == G.line && L.gotEOL == (RV == LEX_EOL && G.done && G.tok == LEX_EOL)) \
    E("words are looked up in the word list given", G.bad == 0 && VP_IMPLIES(G.cls == 2 && G.done, G.lk <= 1)) \
    E("the text and the word list are not touched", L.toks == K.toks && L.numtoks == K.numtoks)

int lex_next(Lex l) VP_REQ(P_lex_next) VP_ASSIGNS(L, G, VP) VP_ENS(Q_lex_next);

void harness(void)
{
    Lex l = &L;
    int vp_rv, i;

    K.n = nd_range(0, VP_LIM(BMAX - 1, 8));
    K.p0 = nd_range(0, K.n);
    K.line = nd_range(0, 1 << 28);
    K.eol = nd_bool();
    K.j = nd_range(0, LEX_MAX_STR - 1);
    K.tok = nd_range(LEX_STR, 1000);
    K.numtoks = nd_range(0, 1);
    VP_ANY(T);
#ifndef VP_PROVE
    for (i = 0; i < BMAX; i++) T[i] = nd_pick("a_0-+ \t#\n\r\"'\\x\200");
#endif
    (void) i;
    T[K.n] = 0;
#ifdef VP_NATIVE
    memset(T + K.n, 0, TMAX - K.n);
#endif
    L.pos = T + K.p0;
    L.toks = K.toks; L.numtoks = K.numtoks;
    L.line = K.line; L.gotEOL = K.eol;
    L.prev = nd_range(-1, 1000);
    L.text[0] = 'z';
#ifndef NDEBUG
    L.magic = LEX_MAGIC;
#endif
    G.p = K.p0; G.line = K.line + K.eol;
    G.done = G.bad = G.lk = G.copied = 0; G.cls = -1; G.s = G.e = 0; G.one = 256;
    VP.held = VP.err = 0;
#ifdef VP_NATIVE
    /*  sometimes a long token  */
    if (nd_range(0, 12) == 12) {
        int at = nd_range(K.p0, K.n), n = nd_range(1000, 1200);
        memmove(T + at + n, T + at, K.n + 1 - at);
        memset(T + at, "a0x-"[nd_range(0, 3)], n);
        K.n += n;
    }
    /*  nothing is between the steps to run the specification in  */
    while (!G.done) vp_spec();
#endif
    VP_PRE(P_lex_next);
    vp_rv = lex_next(l);
    VP_POST(Q_lex_next);
    if (vp_rv == LEX_STR && G.done && G.cls == 1 && G.p > K.p0 + 3) VP_REACH("quoted");
    if (vp_rv == LEX_ERR) VP_REACH("error");
    if (vp_rv == LEX_EOF && L.line > K.line + 2) VP_REACH("end");
    if (vp_rv == LEX_INT) VP_REACH("number");
}
