/*VP
{ "properties": ["C19"],
  "sources": ["server-ipmi.c"],
  "enforce": ["parse_ipmi_opts", "process_ipmi_opt", "process_ipmi_opt_username", "process_ipmi_opt_password", "process_ipmi_opt_k_g", "process_ipmi_opt_privilege",
    "process_ipmi_opt_cipher", "process_ipmi_opt_workaround", "parse_key", "parse_ipmi_opts_v1"],
  "unwind": 26, "bound_unwind": 44, "backends": ["sat", "uf", "z3"], "timeout": 150,
  "bound_text": "at most 4 options, keys of at most 40 characters",
  "assumptions": ["a key is at most 64 KiB"],
  "trusted": ["strtok, strtol, strtoul, strspn, strlcpy, strlen, toupper (C standard)", "ipmiconsole_*_is_valid: any result"],
  "per": {
    "parse_ipmi_opts": {"stub_defs": ["process_ipmi_opt", "parse_ipmi_opts_v1"]},
    "process_ipmi_opt": {"stub_defs": ["process_ipmi_opt_username", "process_ipmi_opt_password", "process_ipmi_opt_k_g", "process_ipmi_opt_privilege", "process_ipmi_opt_cipher", "process_ipmi_opt_workaround"]},
    "process_ipmi_opt_password": {"stub_defs": ["parse_key"]},
    "process_ipmi_opt_k_g": {"stub_defs": ["parse_key"]},
    "parse_ipmi_opts_v1": {"stub_defs": ["process_ipmi_opt_username", "process_ipmi_opt_password", "process_ipmi_opt_k_g", "process_ipmi_opt_privilege", "process_ipmi_opt_cipher", "process_ipmi_opt_workaround"]} },
  "loops": [
   {"func": "parse_ipmi_opts", "nth": 0, "count": 1, "locals": ["tok", "ioptsTmp"], "assigns": "tok, ioptsTmp, G, VP, TKB",
     "invariant": ["(tok == NULL) == (G.left == 0) && VP_IMPLIES(tok != NULL, tok == TK) && G.bad == 0 && G.toks > 0 && G.refused == 0 && G.v1 == 0",
       "ioptsTmp.cipherSuite == G.cs && ioptsTmp.isKgSet == K.set && ioptsTmp.username[0] == G.u0"]},
   {"func": "parse_ipmi_opts_v1", "nth": 0, "count": 1, "locals": ["tok"], "assigns": "tok, G, VP, TKB, IO.cipherSuite",
     "invariant": ["(G.toks >= 3 || !G.left) && 0 <= G.toks && G.toks <= 4 && G.calls == G.toks && G.v1 == 1 && G.bad == 0 && G.refused == 0 && IO.cipherSuite == G.cs"]},
   {"func": "parse_key", "nth": 0, "count": 1, "locals": ["p", "q", "n"], "assigns": "p, q, n, G.n, __CPROVER_object_whole(DST)",
     "guard": "G.n = VP_OFFS(p, S) - 2; VP_PIN(p, S + 2 + G.n); VP_PIN(q, DST + G.n / 2); VP_INST(G.n);",
     "invariant": ["VP_SAME(p, &S) && VP_OFFS(p, S) >= 2 && VP_OFFS(p, S) <= K.sn && VP_OFFS(p, S) - 2 <= 2 * (K.dl - 1) && VP_SAME(q, &DST) && VP_OFFS(q, DST) == (VP_OFFS(p, S) - 2) / 2 && n == (VP_OFFS(p, S) - 1) / 2",
       "VP_IMPLIES(K.k < n, DST[K.k] == VP_BYTE(K.k, VP_OFFS(p, S) - 2)) && DST[K.dl] == (char) K.p0"]} ]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"
#include "log.h"

tpoll_t tp_global;
#define SMAX VP_LIM(1 << 16, 44)
char S[SMAX + 2], DST[40], ERRB[80], *BUFP;
char TKB[8];
#if VP_OP == 0 || VP_OP == 9
#define TK TKB
#else
#define TK (S + 2)
#endif
ipmiopt_t IO;
struct {
    int null, fits, errnull, errlen, c0, c1, endok, range, valid, n, dl, sn, k, hex, word, len, set, cs;
    long val; unsigned long uval; unsigned wf;
    char u0; char p0; unsigned char g0; unsigned gl; int su, sp, sg, pl;
} K;
struct {
    int left, toks, bad, refused, calls, v1, cs, steps, n, which, dash, res;
    unsigned flag;
    char u0; const char *to; const char *arg;
} G;
static int vp_hexv(int c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
#define VP_HX(c) (((c) >= '0' && (c) <= '9') ? (c) - '0' : ((c) >= 'a' && (c) <= 'f') ? (c) - 'a' + 10 : (c) - 'A' + 10)
/*  byte k of a key once m of its digits are taken  */
#define VP_BYTE(k,m) ((char) ((VP_HX(S[2 + 2 * (k)]) << 4) | (2 * (k) + 1 < (m) ? VP_HX(S[3 + 2 * (k)]) : 0)))
/*  digits are digits, and the end is where it is  */
#define VP_INST(x) VP_ASSUME((2 + (x) >= K.sn || vp_hexv(S[2 + (x)]) >= 0))
#undef strtok
#undef strcasecmp
#undef strlcpy
#undef strlen
#undef snprintf
#undef strtol
#undef strtoul
#undef strspn
#undef toupper
#define strlcpy(d,s,n) vp_strlcpy((char *) (d), s, n)
#define snprintf(p,n,...) vp_snprintf(p, n)
#define strtok(s,d) vp_strtok(s, d)
#define strcasecmp(a,b) vp_strcasecmp(a, b)
#define strtol(s,e,b) vp_strtol(s, e, b)
#define strtoul(s,e,b) vp_strtoul(s, e, b)
#define strspn(s,a) vp_strspn(s, a)
#define strlen(s) vp_strlen(s)
#define toupper(c) (((c) >= 'a' && (c) <= 'z') ? (c) - 32 : (c))
static int vp_snprintf(char *p, size_t n)
{
    VP_ASSERT(p == ERRB && !K.errnull && n > 0 && n <= (size_t) K.errlen, "an error message stays within its buffer");
    return 1;
}
static int vp_same(const char *a, const char *b)
{
    int i;
    for (i = 0; i < 25; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
/*  words a value can be; the text at hand is (a case variant of) number K.word, or none  */
static const struct { const char *w; unsigned f; } WORDS[15] = {
    { "default", 0xFFFFFFFF }, { "authcap", 1 }, { "intel20", 2 }, { "supermicro20", 4 }, { "sun20", 8 }, { "opensesspriv", 0x10 }, { "integritycheckvalue", 0x20 },
    { "nochecksumcheck", 0x40 }, { "serialalertsdeferred", 0x80 }, { "solpacketseq", 0x100 }, { "solpayloadsize", 0x1000000 }, { "solport", 0x2000000 },
    { "solstatus", 0x4000000 }, { "solchannelsupport", 0x8000000 }, { "none", 0 } };
static const struct { const char *w; int l; } LEVELS[5] = { { "user", 0 }, { "op", 1 }, { "operator", 1 }, { "admin", 2 }, { "administrator", 2 } };
static int vp_strcasecmp(const char *a, const char *b)
{
    if (a != TK) G.bad = 1;
#if VP_OP == 5
    if (K.word < 5) return !vp_same(LEVELS[K.word].w, b);
#else
    if (K.word < 15) return !vp_same(WORDS[K.word].w, b);
#endif
    return 1;
}
static size_t vp_strlcpy(char *d, const char *s, size_t n)
{
    VP_ASSERT(n > 0 && VP_W_OK(d, n), "a copy stays within its buffer");
    BUFP = d; G.to = d;
#if VP_OP == 0
    if (s != S) G.bad = 1;
    d[0] = s[0]; d[1] = s[0] ? s[1] : 0;
    return K.fits ? n - 1 : n + 1;
#elif VP_OP == 8
    if (s != S || n != (size_t) K.dl) G.bad = 1;
    G.calls++;
    return K.sn;
#else
    if (s != TK) G.bad = 1;
    G.calls++;
    d[0] = s[0]; d[K.len < (int) n ? K.len : (int) n - 1] = 0;
    return K.len;
#endif
}
static char * vp_strtok(char *s, const char *d)
{
#if VP_OP == 9
    if (s != (G.v1 ? NULL : S)) G.bad = 1;
    if (!G.v1) G.left = 1;
    G.v1 = 1;
    if (G.left) G.left = nd_bool();
    if (G.left && G.toks < 4) G.toks++;
#else
    if (s != (G.toks ? NULL : BUFP)) G.bad = 1;
    if (G.toks && !G.left) G.bad = 1;
    G.left = nd_bool();
    G.toks = 1;
#endif
#ifndef VP_PROVE
    VP_ASSUME(G.steps < 6);
    G.steps++;
#endif
    if (!G.left) return NULL;
    /*  a lone dash, a dash and more, or something else  */
    G.dash = 0;
    switch (nd_range(0, 2)) {
        case 0: TK[0] = '-'; TK[1] = 0; G.dash = 1; break;
        case 1: TK[0] = '-'; TK[1] = 'x'; break;
        default: TK[0] = 'x'; TK[1] = nd_bool() ? 'y' : 0; break;
    }
    return TK;
}
static long vp_strtol(const char *s, char **e, int b)
{
    if (s != TK || b != 0) G.bad = 1;
    *e = TK + (K.endok ? 3 : 2);
    if (K.range) VP.err = ERANGE;
    return K.val;
}
static unsigned long vp_strtoul(const char *s, char **e, int b) { vp_strtol(s, e, b); return K.uval; }
static size_t vp_strlen(const char *s)
{
    if (VP_OP == 8) { if (s != S + 2) G.bad = 1; return K.sn - 2; }
    /*  a constant  */
    return 5;
}
static size_t vp_strspn(const char *s, const char *a) { if (s != S + 2 || !vp_same(a, "0123456789ABCDEFabcdef")) G.bad = 1; return K.hex ? K.sn - 2 : 0; }
int toint(int c) { return vp_hexv(c); }
int ipmiconsole_username_is_valid(const char *u) { if (u != IO.username) G.bad = 1; return K.valid; }
int ipmiconsole_password_is_valid(const char *u) { if (u != IO.password) G.bad = 1; return K.valid; }
int ipmiconsole_k_g_is_valid(const unsigned char *k, unsigned int n) { if (k != IO.kg || n != (unsigned) K.n) G.bad = 1; return K.valid; }
int ipmiconsole_privilege_level_is_valid(int l) { if (l != (int) K.val) G.bad = 1; return K.valid; }
int ipmiconsole_cipher_suite_id_is_valid(int l) { if (l != (int) K.val) G.bad = 1; return K.valid; }
int ipmiconsole_workaround_flags_is_valid(unsigned int f) { if (f != (unsigned) K.uval) G.bad = 1; return K.valid; }
char * create_string(const char *s) { return S; }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
#define P_EB (errbuf == (K.errnull ? NULL : ERRB) && errlen == K.errlen)
#if VP_OP == 0
/*  an option changes some of the options given it, or is refused  */
static int process_ipmi_opt(ipmiopt_t *o, const char *str, char *errbuf, int errlen)
{
    if (str != TK || o == &IO || !P_EB || o->cipherSuite != G.cs || o->username[0] != G.u0) G.bad = 1;
    o->cipherSuite = G.cs = nd_range(0, 9);
    o->username[0] = G.u0 = nd_range(0, 9);
    if (nd_bool()) { G.refused = 1; return -1; }
    return 0;
}
static int parse_ipmi_opts_v1(ipmiopt_t *o, char *str, char *errbuf, int errlen)
{
    if (str != BUFP || o == &IO || !P_EB || G.v1 || G.toks) G.bad = 1;
    G.v1 = 1;
    o->cipherSuite = G.cs = nd_range(0, 9);
    o->username[0] = G.u0 = nd_range(0, 9);
    if (nd_bool()) { G.refused = 1; return -1; }
    return 0;
}
#endif
#if VP_OP == 3 || VP_OP == 4
static int parse_key(char *dst, const char *src, size_t dstlen)
{
    VP_ASSERT(VP_W_OK(dst, dstlen), "a key stays within its buffer");
    if (src != TK) G.bad = 1;
    G.to = dst; G.calls++;
    dst[0] = src[0];
    VP_ASSUME(K.n < (int) dstlen);
    return K.n;
}
#endif
#if VP_OP == 1 || VP_OP == 9
static int vp_sub(ipmiopt_t *o, const char *str, char *errbuf, int errlen, int which)
{
    if (o != &IO || !P_EB || G.refused) G.bad = 1;
#if VP_OP == 1
    if (str != S + 2) G.bad = 1;
    G.calls++;
    G.which = which;
#else
    /*  user, password, key and then workarounds, a dash for the default  */
    if (which != (G.calls == 0 ? 'U' : G.calls == 1 ? 'P' : G.calls == 2 ? 'K' : 'W')) G.bad = 1;
    if (str != (G.dash ? TK + 1 : TK) || o->cipherSuite != G.cs) G.bad = 1;
    if (G.calls < 4) G.calls++;
    o->cipherSuite = G.cs = nd_range(0, 9);
#endif
    if (nd_bool()) { G.refused = 1; return -1; }
    return 0;
}
static int process_ipmi_opt_username(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'U'); }
static int process_ipmi_opt_password(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'P'); }
static int process_ipmi_opt_k_g(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'K'); }
static int process_ipmi_opt_privilege(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'L'); }
static int process_ipmi_opt_cipher(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'C'); }
static int process_ipmi_opt_workaround(ipmiopt_t *o, const char *s, char *errbuf, int errlen) { return vp_sub(o, s, errbuf, errlen, 'W'); }
#endif

#define VP_REST (IO.isUsernameSet == (unsigned) K.su && IO.isPasswordSet == (unsigned) K.sp && IO.isKgSet == (unsigned) K.sg && IO.privilegeLevel == K.pl && IO.cipherSuite == K.cs && IO.workaroundFlags == K.wf && IO.username[0] == K.u0 && IO.password[0] == K.p0 && IO.kg[0] == K.g0 && IO.kgLen == K.gl)
#define VP_EMP (S[2] == 0)
#define P_SUB (iopts == &IO && str == S + 2 && P_EB)
#define VP_RV01 ((RV == 0 || RV == -1))
#define P_parse_ipmi_opts(R) R(iopts == &IO && str == S && P_EB)
#define Q_parse_ipmi_opts(E) \
    E("IPMI options are refused if too long or one is invalid", VP_RV01 && (RV == -1) == (!K.fits || G.refused)) \
    E("refused, every option stays", VP_IMPLIES(RV == -1, VP_REST)) \
    E("every option given is taken", VP_IMPLIES(RV == 0, IO.cipherSuite == G.cs && IO.username[0] == G.u0 && G.left == 0 && (G.v1 || G.toks))) \
    E("options without a letter are of the earlier form", VP_IMPLIES(K.fits, G.v1 == (K.c0 != 0 && K.c1 != ':')) && G.bad == 0)
#define VP_LET(c) ((c) == 'U' || (c) == 'P' || (c) == 'K' || (c) == 'L' || (c) == 'C' || (c) == 'W')
#define P_process_ipmi_opt(R) R(iopts == &IO && str == S && P_EB)
#define Q_process_ipmi_opt(E) \
    E("an option is taken exactly if its letter is known and its value is valid", VP_RV01 && (RV == 0) == (VP_LET(toupper(K.c0)) && K.c1 == ':' && !G.refused)) \
    E("the value goes to the option the letter names", G.calls == (VP_LET(toupper(K.c0)) && K.c1 == ':') && VP_IMPLIES(G.calls, G.which == toupper(K.c0)) && G.bad == 0) \
    E("nothing else changes", VP_REST)
#define P_process_ipmi_opt_username(R) R(P_SUB)
#define Q_process_ipmi_opt_username(E) \
    E("a name is taken exactly if it fits and is valid", VP_RV01 && (RV == 0) == (G.res || (K.len < (int) sizeof(IO.username) && K.valid))) \
    E("the name is the one given, or the default", VP_IMPLIES(RV == 0, IO.isUsernameSet == 1 && (G.res ? IO.username[0] == 0 : G.calls == 1 && G.to == IO.username && IO.username[0] == S[2])) && G.bad == 0) \
    E("nothing else changes", IO.isPasswordSet == (unsigned) K.sp && IO.isKgSet == (unsigned) K.sg && IO.privilegeLevel == K.pl && IO.cipherSuite == K.cs && IO.workaroundFlags == K.wf && IO.password[0] == K.p0 && IO.kg[0] == K.g0 && IO.kgLen == K.gl)
#define P_process_ipmi_opt_password(R) R(P_SUB)
#define Q_process_ipmi_opt_password(E) \
    E("a password is taken exactly if it fits and is valid", VP_RV01 && (RV == 0) == (G.res || (K.n >= 0 && K.valid))) \
    E("the password is the one given, or the default", VP_IMPLIES(RV == 0, IO.isPasswordSet == 1 && (G.res ? IO.password[0] == 0 : G.calls == 1 && G.to == IO.password && IO.password[0] == S[2])) && G.bad == 0) \
    E("nothing else changes", IO.isUsernameSet == (unsigned) K.su && IO.isKgSet == (unsigned) K.sg && IO.privilegeLevel == K.pl && IO.cipherSuite == K.cs && IO.workaroundFlags == K.wf && IO.username[0] == K.u0 && IO.kg[0] == K.g0 && IO.kgLen == K.gl)
#define P_process_ipmi_opt_k_g(R) R(P_SUB)
#define Q_process_ipmi_opt_k_g(E) \
    E("a key is taken exactly if it fits and is valid", VP_RV01 && (RV == 0) == (G.res || (K.n >= 0 && K.valid))) \
    E("the key is the one given, with its length, or the default", VP_IMPLIES(RV == 0, IO.isKgSet == 1 && (G.res ? IO.kg[0] == 0 && IO.kgLen == 0 : G.calls == 1 && G.to == (char *) IO.kg && IO.kg[0] == (unsigned char) S[2] && IO.kgLen == (unsigned) K.n)) && G.bad == 0) \
    E("nothing else changes", IO.isUsernameSet == (unsigned) K.su && IO.isPasswordSet == (unsigned) K.sp && IO.privilegeLevel == K.pl && IO.cipherSuite == K.cs && IO.workaroundFlags == K.wf && IO.username[0] == K.u0 && IO.password[0] == K.p0)
#define VP_NUM (K.endok && !K.range && K.valid)
#define VP_INT (K.val >= INT_MIN && K.val <= INT_MAX)
#define VP_REST2 (IO.isUsernameSet == (unsigned) K.su && IO.isPasswordSet == (unsigned) K.sp && IO.isKgSet == (unsigned) K.sg && IO.username[0] == K.u0 && IO.password[0] == K.p0 && IO.kg[0] == K.g0 && IO.kgLen == K.gl)
#define P_process_ipmi_opt_privilege(R) R(P_SUB)
#define Q_process_ipmi_opt_privilege(E) \
    E("a level is taken exactly if it is a known word or a valid number", VP_RV01 && (RV == 0) == (G.res || K.word < 5 || (VP_NUM && VP_INT))) \
    E("the level is the one given, or stays", IO.privilegeLevel == (RV ? K.pl : G.res ? -1 : K.word < 5 ? G.n : (int) K.val) && G.bad == 0) \
    E("nothing else changes", VP_REST2 && IO.cipherSuite == K.cs && IO.workaroundFlags == K.wf)
#define P_process_ipmi_opt_cipher(R) R(P_SUB)
#define Q_process_ipmi_opt_cipher(E) \
    E("a cipher suite is taken exactly if it is a valid number", VP_RV01 && (RV == 0) == (G.res || (VP_NUM && VP_INT))) \
    E("the suite is the one given, or stays", IO.cipherSuite == (RV ? K.cs : G.res ? -1 : (int) K.val) && G.bad == 0) \
    E("nothing else changes", VP_REST2 && IO.privilegeLevel == K.pl && IO.workaroundFlags == K.wf)
#define P_process_ipmi_opt_workaround(R) R(P_SUB)
#define Q_process_ipmi_opt_workaround(E) \
    E("a workaround is taken exactly if it is a known word or a valid number", VP_RV01 && (RV == 0) == (G.res || K.word < 15 || (VP_NUM && K.uval <= UINT_MAX))) \
    E("workarounds add up, unless the default or none is asked for", IO.workaroundFlags == (RV ? K.wf : (G.flag == 0 || G.flag == 0xFFFFFFFF || K.wf == 0xFFFFFFFF) ? G.flag : (K.wf | G.flag)) && G.bad == 0) \
    E("nothing else changes", VP_REST2 && IO.privilegeLevel == K.pl && IO.cipherSuite == K.cs)
#define VP_HEXK (S[0] == '0' && (S[1] == 'x' || S[1] == 'X') && K.hex)
#define VP_KL ((K.sn - 1) / 2)          /* bytes of a hexadecimal key        */
#define P_parse_key(R) R(dst == DST && src == S && dstlen == (size_t) K.dl)
#define Q_parse_key(E) \
    E("a key's length is given exactly if it fits", VP_IMPLIES(K.dl == 0, RV == -1) && VP_IMPLIES(K.dl > 0 && VP_HEXK, RV == (VP_KL <= K.dl - 1 ? VP_KL : -1)) && VP_IMPLIES(K.dl > 0 && !VP_HEXK, RV == (K.sn < K.dl ? K.sn : -1))) \
    E("a hexadecimal key is its bytes, terminated", VP_IMPLIES(K.dl > 0 && VP_HEXK && RV >= 0, DST[RV] == 0 && VP_IMPLIES(K.k < RV, DST[K.k] == VP_BYTE(K.k, K.sn - 2)))) \
    E("any other key is copied as it is", VP_IMPLIES(K.dl > 0 && !VP_HEXK, G.calls == 1 && G.to == DST) && G.bad == 0) \
    E("nothing beyond the buffer is written", DST[K.dl] == K.p0)
#define P_parse_ipmi_opts_v1(R) R(iopts == &IO && str == S && P_EB)
#define Q_parse_ipmi_opts_v1(E) \
    E("options of the earlier form are refused if one is invalid", VP_RV01 && (RV == -1) == G.refused) \
    E("each goes to the option its place names", VP_IMPLIES(RV == 0, G.left == 0 && G.calls == G.toks) && G.bad == 0 && IO.cipherSuite == G.cs)
#define VPF VP_ASSIGNS(IO, TKB, __CPROVER_object_whole(S), __CPROVER_object_whole(DST), G, VP, BUFP)
#define DECL(f) static int f(ipmiopt_t *iopts, const char *str, char *errbuf, int errlen)
#if VP_OP == 0
int parse_ipmi_opts(ipmiopt_t *iopts, const char *str, char *errbuf, int errlen) VP_REQ(P_parse_ipmi_opts) VPF VP_ENS(Q_parse_ipmi_opts);
#elif VP_OP == 1
DECL(process_ipmi_opt) VP_REQ(P_process_ipmi_opt) VPF VP_ENS(Q_process_ipmi_opt);
#elif VP_OP == 2
DECL(process_ipmi_opt_username) VP_REQ(P_process_ipmi_opt_username) VPF VP_ENS(Q_process_ipmi_opt_username);
#elif VP_OP == 3
DECL(process_ipmi_opt_password) VP_REQ(P_process_ipmi_opt_password) VPF VP_ENS(Q_process_ipmi_opt_password);
#elif VP_OP == 4
DECL(process_ipmi_opt_k_g) VP_REQ(P_process_ipmi_opt_k_g) VPF VP_ENS(Q_process_ipmi_opt_k_g);
#elif VP_OP == 5
DECL(process_ipmi_opt_privilege) VP_REQ(P_process_ipmi_opt_privilege) VPF VP_ENS(Q_process_ipmi_opt_privilege);
#elif VP_OP == 6
DECL(process_ipmi_opt_cipher) VP_REQ(P_process_ipmi_opt_cipher) VPF VP_ENS(Q_process_ipmi_opt_cipher);
#elif VP_OP == 7
DECL(process_ipmi_opt_workaround) VP_REQ(P_process_ipmi_opt_workaround) VPF VP_ENS(Q_process_ipmi_opt_workaround);
#elif VP_OP == 8
static int parse_key(char *dst, const char *src, size_t dstlen) VP_REQ(P_parse_key) VPF VP_ENS(Q_parse_key);
#elif VP_OP == 9
static int parse_ipmi_opts_v1(ipmiopt_t *iopts, char *str, char *errbuf, int errlen) VP_REQ(P_parse_ipmi_opts_v1) VPF VP_ENS(Q_parse_ipmi_opts_v1);
#endif
#include "server-ipmi.c"
#define CALL(f, args) { int vp_rv; VP_PRE(P_##f); vp_rv = f args; VP_POST(Q_##f); if (vp_rv >= 0) VP_REACH("taken"); else VP_REACH("refused"); }

void harness(void)
{
    char *errbuf;
    char *str = S;
    ipmiopt_t *iopts = &IO;
    int errlen, i;

    K.null = 0; K.fits = nd_bool(); K.errnull = nd_bool(); K.errlen = nd_range(-1, 80);
    K.c0 = nd_pick("UPKLCWupklcwx"); K.c1 = nd_pick(":::x"); K.endok = nd_bool(); K.range = nd_bool(); K.valid = nd_bool();
    K.n = nd_range(-1, 20); K.dl = nd_range(0, 21); K.k = nd_range(0, 19); K.hex = nd_bool(); K.word = nd_range(0, 15); K.len = nd_range(1, 30);
    K.val = vp_nd_range(LONG_MIN, LONG_MAX); K.uval = (unsigned long) K.val; K.set = nd_bool(); K.cs = nd_int();
    if (nd_bool()) { K.val = nd_range(-2, 20); K.uval = nd_uint(); K.range = 0; K.endok = 1; }
    K.u0 = nd_range(0, 127); K.p0 = nd_range(0, 127); K.g0 = nd_range(0, 127); K.gl = nd_range(0, 20); K.su = nd_bool(); K.sp = nd_bool(); K.sg = K.set; K.pl = nd_int(); K.wf = nd_uint();
    if (nd_bool()) K.wf = 0xFFFFFFFF;
    VP.held = 0; VP.err = nd_bool() ? ERANGE : 0;
    memset(&G, 0, sizeof(G));
    BUFP = NULL;
    G.cs = IO.cipherSuite = K.cs; G.u0 = IO.username[0] = K.u0; IO.password[0] = K.p0; IO.kg[0] = K.g0; IO.kgLen = K.gl;
    IO.isUsernameSet = K.su; IO.isPasswordSet = K.sp; IO.isKgSet = K.sg; IO.privilegeLevel = K.pl; IO.workaroundFlags = K.wf;
    errbuf = K.errnull ? NULL : ERRB; errlen = K.errlen;
    S[0] = K.c0; S[1] = K.c0 ? K.c1 : 0; if (!K.c0) K.c1 = 0;
    S[2] = nd_bool() ? 'z' : 0; S[3] = S[4] = '1'; S[5] = 0;
    G.res = VP_EMP;                     /* the value is empty                */
    (void) i; (void) str; (void) iopts;
#if VP_OP == 0
    CALL(parse_ipmi_opts, (iopts, str, errbuf, errlen))
#elif VP_OP == 1
    CALL(process_ipmi_opt, (iopts, str, errbuf, errlen))
#elif VP_OP >= 2 && VP_OP <= 7
    str = S + 2;
#if VP_OP == 5
    if (K.word < 5) G.n = LEVELS[K.word].l;
    CALL(process_ipmi_opt_privilege, (iopts, str, errbuf, errlen))
#elif VP_OP == 2
    CALL(process_ipmi_opt_username, (iopts, str, errbuf, errlen))
#elif VP_OP == 3
    CALL(process_ipmi_opt_password, (iopts, str, errbuf, errlen))
#elif VP_OP == 4
    CALL(process_ipmi_opt_k_g, (iopts, str, errbuf, errlen))
#elif VP_OP == 6
    CALL(process_ipmi_opt_cipher, (iopts, str, errbuf, errlen))
#else
    G.flag = G.res ? 0xFFFFFFFF : K.word < 15 ? WORDS[K.word].f : (unsigned) K.uval;
    CALL(process_ipmi_opt_workaround, (iopts, str, errbuf, errlen))
#endif
#elif VP_OP == 8
    char *dst = DST;
    const char *src = S;
    size_t dstlen = K.dl;
    K.sn = nd_range(0, VP_LIM(SMAX, 43));
#ifdef VP_PROVE
    VP_ANY(S); VP_ANY(DST);
    VP_ASSUME(S[K.sn] == 0);
    VP_ASSUME((K.sn > 0 || S[0] == 0) && (K.sn < 1 || S[0] != 0) && (K.sn < 2 || S[1] != 0));
    /*  digits at the position looked at  */
    if (VP_HEXK) { VP_INST(2 * K.k); VP_INST(2 * K.k + 1); }
#else
    for (i = 0; i < K.sn; i++) S[i] = nd_pick("0123456789abcdefABCDEF");
    if (K.sn >= 2 && nd_bool()) { S[0] = '0'; S[1] = nd_bool() ? 'x' : 'X'; }
    for (i = 0; i < K.sn; i++) VP_ASSUME(S[i] != 0);
    S[K.sn] = 0;
    K.hex = K.sn >= 2;
    for (i = 2; i < K.sn; i++) if (vp_hexv(S[i]) < 0) K.hex = 0;
#endif
    if (K.sn < 2) K.hex = 0;
    if (K.sn == 2) K.hex = 1;
    K.p0 = DST[K.dl];
    CALL(parse_key, (dst, src, dstlen))
#else
    CALL(parse_ipmi_opts_v1, (iopts, str, errbuf, errlen))
#endif
}
