/*VP
{ "properties": ["C14"],
  "sources": ["lex.c"],
  "enforce": ["lookup_token", "lex_encode", "lex_decode", "lex_create", "lex_destroy", "lex_prev", "lex_line", "lex_text", "lex_tok_to_str"],
  "unwind": 66, "bound_unwind": 66, "backends": ["uf", "z3"], "timeout": 200,
  "bound_text": "texts of at most 8 characters",
  "per": { "lex_create": {"stub_defs": ["validate_sorted_tokens"]} },
  "assumptions": ["strings are at most 64 KiB", "word lists have at most 63 words (the longest in the program has fewer) and are sorted (asserted when the lexer is created)"],
  "trusted": ["strcasecmp orders the word among the sorted words", "malloc"],
  "loops": [
   {"func": "lookup_token", "nth": 0, "count": 1, "locals": ["low", "high"], "assigns": "$LOCALS, G",
     "invariant": ["0 <= low && low <= K.a && high >= K.b - 1 && high < K.nt && low <= high + 1 && G.bad == 0"]},
   {"func": "lex_encode", "nth": 0, "count": 1, "locals": ["p"], "assigns": "$LOCALS, __CPROVER_object_whole(W1), G.i",
     "guard": "G.i = VP_OFFS(p, W1); VP_PIN(p, W1 + G.i); VP_TEXT(G.i); VP_LOW(G.i);",
     "invariant": ["VP_SAME(p, &W1) && VP_OFFS(p, W1) >= 0 && VP_OFFS(p, W1) <= K.n",
       "W1[K.k] == (K.k < VP_OFFS(p, W1) ? VP_ENC(K.kv) : K.kv) && W1[K.n] == 0 && VP_IMPLIES(K.k < K.n, K.kv != 0)"]},
   {"func": "lex_decode", "nth": 0, "count": 1, "locals": ["p"], "assigns": "$LOCALS, __CPROVER_object_whole(W1), G.i",
     "guard": "G.i = VP_OFFS(p, W1); VP_PIN(p, W1 + G.i); VP_TEXT(G.i);",
     "invariant": ["VP_SAME(p, &W1) && VP_OFFS(p, W1) >= 0 && VP_OFFS(p, W1) <= K.n",
       "W1[K.k] == (K.k < VP_OFFS(p, W1) ? (char) (K.kv & 0x7F) : K.kv) && W1[K.n] == 0 && VP_IMPLIES(K.k < K.n, K.kv != 0)"]},
   {"func": "lex_create", "nth": 0, "count": 1, "locals": ["n"], "assigns": "n",
     "invariant": ["0 <= n && n <= K.nt"]} ]
}
*/
#include "vp.h"
#include "lex.h"

#define BMAX VP_LIM(1 << 16, 16)
#define NT 63
char W1[BMAX], TK[NT + 1], *TOKS[NT + 1];
extern struct lexer_state L;
struct {
    int n, null;
    int k; char kv;                     /* an arbitrary position             */
    int nt;                             /* length of the word list           */
    int a, b;                           /* where the word is in the list     */
    int tok;
} K;
struct { int i, bad, made; } G;
#ifdef VP_PROVE
#define VP_TEXT(i) VP_ASSUME((i) >= K.n || W1[i] != 0)
/*  "no character has its high bit set" (positions not yet encoded)  */
#define VP_LOW(i) VP_ASSUME((i) >= K.n || W1[i] > 0)
#endif
#define VP_ENC(c) ((char) (((c) == '\'' || (c) == '"') ? (c) | 0x80 : (c)))
#undef strcasecmp
#define strcasecmp(a,b) vp_casecmp(a, b)
#undef malloc
#undef free
#define malloc(n) vp_malloc(n)
#define free(p) vp_free(p)
static int vp_casecmp(const char *s, const char *t);
static void *vp_malloc(size_t n);
static void vp_free(void *p);
#undef MIN
void *out_of_memory(void) { return NULL; }
#if VP_OP == 3
static int validate_sorted_tokens(char *toks[]) { return 0; }
#endif
#include "lex.c"

struct lexer_state L;
static int vp_casecmp(const char *s, const char *t)
{
    long i = VP_OFFS(t, TK);

    if (s != W1 || !VP_SAME(t, &TK) || i < 0 || i >= K.nt) { G.bad = 1; return 0; }
    return i < K.a ? (int) nd_range(1, 200) : i < K.b ? 0 : (int) nd_range(-200, -1);
}
static void *vp_malloc(size_t n)
{
    if (n < sizeof(struct lexer_state) || G.made) G.bad = 1;
    if (K.null) return NULL;
    G.made++;
    return &L;
}
static void vp_free(void *p) { if (p != &L) G.bad = 1; G.made--; }

#define P_lookup_token(R) R(str == W1 && toks == (K.null ? NULL : TOKS) && numtoks == K.nt)
#define Q_lookup_token(E) \
    E("a word in the list is found", VP_IMPLIES(!K.null && K.a < K.b, RV >= LEX_TOK_OFFSET + K.a && RV < LEX_TOK_OFFSET + K.b)) \
    E("any other word is a string", VP_IMPLIES(K.null || K.a == K.b, RV == LEX_STR)) \
    E("only words of the list are looked at", G.bad == 0)
#define P_lex_encode(R) R(str == (K.null ? NULL : W1))
#define Q_lex_encode(E) \
    E("the same string is returned", RV == (K.null ? NULL : W1)) \
    E("quotes are hidden, and nothing else is changed", W1[K.k] == ((K.null || K.k >= K.n) ? K.kv : VP_ENC(K.kv))) \
    E("no quote is left", VP_IMPLIES(!K.null && K.k < K.n, W1[K.k] != '"' && W1[K.k] != '\'' && W1[K.k] != 0)) \
    E("decoding gives the original", VP_IMPLIES(!K.null && K.k < K.n, (W1[K.k] & 0x7F) == K.kv))
#define P_lex_decode(R) R(str == (K.null ? NULL : W1))
#define Q_lex_decode(E) \
    E("the same string is returned", RV == (K.null ? NULL : W1)) \
    E("each character up to the end is decoded, and no other", W1[K.k] == ((K.null || K.k >= K.n) ? K.kv : (char) (K.kv & 0x7F)))
#define P_lex_create(R) R(buf == W1 && toks == (K.tok ? NULL : TOKS))
#define Q_lex_create(E) \
    E("a lexer is made unless memory is out", RV == (K.null ? NULL : &L) && G.bad == 0) \
    E("it starts at the start of the text, on its first line", VP_IMPLIES(RV, L.pos == W1 && L.line + (L.gotEOL ? 1 : 0) == 1 && L.text[0] == 0)) \
    E("it knows the words of the list", VP_IMPLIES(RV, K.tok ? (L.toks == NULL && L.numtoks == 0) : (L.toks == TOKS && L.numtoks == K.nt)))
#define P_lex_destroy(R) R(l == &L)
#define Q_lex_destroy(E) E("the lexer is released", G.made == 0 && G.bad == 0)
#define P_lex_prev(R) R(l == &L)
#define Q_lex_prev(E) E("the previous token is given", RV == L.prev)
#define P_lex_line(R) R(l == &L)
#define Q_lex_line(E) E("the line number is given", RV == L.line)
#define P_lex_text(R) R(l == &L)
#define Q_lex_text(E) E("the token text is given", RV == L.text)
#define P_lex_tok_to_str(R) R(l == &L && tok == K.tok)
#define Q_lex_tok_to_str(E) \
    E("the word of the token is given, and nothing for any other token", RV == (K.tok >= LEX_TOK_OFFSET && K.tok < LEX_TOK_OFFSET + K.nt ? TK + K.tok - LEX_TOK_OFFSET : NULL))
#define VPF VP_ASSIGNS(L, __CPROVER_object_whole(W1), G, VP)
#if VP_OP == 0
static int lookup_token(char *str, char *toks[], int numtoks) VP_REQ(P_lookup_token) VPF VP_ENS(Q_lookup_token);
#endif
char * lex_encode(char *str) VP_REQ(P_lex_encode) VPF VP_ENS(Q_lex_encode);
char * lex_decode(char *str) VP_REQ(P_lex_decode) VPF VP_ENS(Q_lex_decode);
Lex lex_create(void *buf, char *toks[]) VP_REQ(P_lex_create) VPF VP_ENS(Q_lex_create);
void lex_destroy(Lex l) VP_REQ(P_lex_destroy) VPF VP_ENS(Q_lex_destroy);
int lex_prev(Lex l) VP_REQ(P_lex_prev) VPF VP_ENS(Q_lex_prev);
int lex_line(Lex l) VP_REQ(P_lex_line) VPF VP_ENS(Q_lex_line);
const char * lex_text(Lex l) VP_REQ(P_lex_text) VPF VP_ENS(Q_lex_text);
const char * lex_tok_to_str(Lex l, int tok) VP_REQ(P_lex_tok_to_str) VPF VP_ENS(Q_lex_tok_to_str);

#define CALL(f, T, args) { T vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); (void) vp_rv; }
#define CALLV(f, args) { VP_PRE(P_##f); f args; VP_POST(Q_##f); }
void harness(void)
{
    Lex l = &L;
    char *str = W1, **toks = TOKS;
    void *buf = W1;
    int i, tok, numtoks;

    K.n = nd_range(0, VP_LIM(BMAX - 1, 8));
    K.k = nd_range(0, BMAX - 1);
    K.null = nd_range(0, 5) == 0;
    K.nt = nd_range(0, NT);
    K.a = nd_range(0, K.nt);
    K.b = nd_range(K.a, K.nt);
    K.tok = nd_range(-1, 400);
#if VP_OP == 3
    K.tok = nd_bool();
#endif
    VP_ANY(W1);
#ifndef VP_PROVE
    for (i = 0; i < BMAX; i++) W1[i] = nd_pick("a\"'b\247\242");
#endif
    W1[K.n] = 0;
    K.kv = W1[K.k];
    VP_ASSUME(K.k >= K.n || K.kv != 0);
#if VP_OP == 1
    VP_ASSUME(K.k >= K.n || K.kv > 0);
#ifndef VP_PROVE
    for (i = 0; i < K.n; i++) VP_ASSUME(W1[i] > 0);
#endif
#endif
    for (i = 0; i < NT; i++) TOKS[i] = TK + i;
    TOKS[K.nt] = NULL;
    L.pos = W1; L.toks = TOKS; L.numtoks = K.nt; L.text[0] = 'z';
    L.prev = nd_range(-1, 400); L.line = nd_range(0, INT_MAX); L.gotEOL = nd_bool();
#ifndef NDEBUG
    L.magic = LEX_MAGIC;
#endif
    G.i = G.bad = 0; G.made = 1;
    VP.held = VP.err = 0;
    numtoks = K.nt; tok = K.tok;
#if VP_OP == 0
    if (K.null) toks = NULL;
    CALL(lookup_token, int, (str, toks, numtoks))
    if (!K.null && K.a < K.b) VP_REACH("found");
#elif VP_OP == 1
    if (K.null) str = NULL;
    CALL(lex_encode, char *, (str))
    if (str && K.kv == '"' && K.k < K.n) VP_REACH("quote");
#elif VP_OP == 2
    if (K.null) str = NULL;
    CALL(lex_decode, char *, (str))
    if (str && K.kv < 0 && K.k < K.n) VP_REACH("encoded");
#elif VP_OP == 3
    G.made = 0;
    if (K.tok) toks = NULL;
    CALL(lex_create, Lex, (buf, toks))
    if (!K.null && toks && L.numtoks > 5) VP_REACH("made");
#elif VP_OP == 4
    CALLV(lex_destroy, (l))
    VP_REACH("return");
#elif VP_OP == 5
    CALL(lex_prev, int, (l))
    VP_REACH("return");
#elif VP_OP == 6
    CALL(lex_line, int, (l))
    VP_REACH("return");
#elif VP_OP == 7
    CALL(lex_text, const char *, (l))
    VP_REACH("return");
#else
    CALL(lex_tok_to_str, const char *, (l, tok))
    VP_REACH("return");
#endif
    (void) l; (void) str; (void) toks; (void) buf; (void) tok; (void) numtoks;
}
