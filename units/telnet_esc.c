/*VP
{ "properties": ["C05", "C06"],
  "sources": ["server-telnet.c"],
  "enforce": ["process_telnet_escapes"],
  "functions": ["process_telnet_escapes"],
  "stub_defs": ["process_telnet_cmd"],
  "unwind": 2, "bound_unwind": 9, "backends": ["uf"],
  "bound_text": "blocks of at most 7 bytes, every byte value and carried-over state",
  "loops": [ {"func": "process_telnet_escapes", "nth": 0, "count": 1, "locals": ["p", "q"],
     "assigns": "$LOCALS, __CPROVER_object_whole(W), TN.aux.telnet.iac, G, VP",
     "ghost": "VP_PIN(p, W + G.n); VP_PIN(q, W + G.out); VP_FEED(p);",
     "invariant": [
        "0 <= G.out && G.out <= G.n && G.n <= K.len && p == W + G.n && q == W + G.out",
        "VP_STATE(TN.aux.telnet.iac) && G.st == TN.aux.telnet.iac",
        "VP_IMPLIES(K.j >= G.n, W[K.j] == K.jv)",
        "VP_IMPLIES(K.k < G.out, W[K.k] == G.kv)",
        "G.want == G.did && G.bad == 0 && VP.held == 0"] } ]
}
*/
#define TELCMDS
#define TELOPTS
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t TN;
tpoll_t tp_global;
#define BUFMAX VP_LIM(OBJ_BUF_SIZE, 7)
unsigned char W[OBJ_BUF_SIZE];
struct {
    int len;
    int j; unsigned char jv;            /* arbitrary input index, its value  */
    int k;                              /* arbitrary output index            */
} K;
struct {
    int n;                              /* input bytes taken                 */
    int out;                            /* output bytes due                  */
    int st;                             /* decoder state                     */
    unsigned char kv;                   /* value due at output index k       */
    unsigned want, did;                 /* history of requests due / seen    */
    int bad;
} G;
#define VP_MIX(h,a) (((h) << 5) ^ ((h) >> 27) ^ (unsigned) (a))
/*  Decoder states: -1 data; IAC; a negotiation verb whose option is awaited;
 *    SB within a subnegotiation; SE an IAC within a subnegotiation.  */
#define VP_STATE(s) ((s) == -1 || (s) == IAC || (s) == DONT || (s) == DO || (s) == WONT || (s) == WILL || (s) == SB || (s) == SE)

static void vp_spec(unsigned char c)
{
    G.n++;
    if (G.st == -1) {
        if (c == IAC) { G.st = IAC; return; }
        if (G.out == K.k) G.kv = c;
        G.out++;
        return;
    }
    if (G.st == SB) {                           /* discard up to IAC SE      */
        if (c == IAC) G.st = SE;
        return;
    }
    if (G.st == DONT || G.st == DO || G.st == WONT || G.st == WILL) {
        G.want = VP_MIX(G.want, (G.st << 8) | c);
        G.st = -1;
        return;
    }
    if (G.st == SE && c == IAC) { G.st = SB; return; }
    if (c == IAC) {                             /* doubled IAC: one 0xFF     */
        if (G.out == K.k) G.kv = c;
        G.out++;
        G.st = -1;
    }
    else if (c == DONT || c == DO || c == WONT || c == WILL || c == SB) G.st = c;
    else G.st = -1;                             /* two-byte command          */
}
#ifdef VP_PROVE
#define VP_FEED(p) do { VP_ASSERT(G.n < K.len, "only received bytes are examined"); \
    if (G.n == K.j) VP_ASSERT(*(p) == K.jv, "each byte is examined as it was received"); \
    vp_spec(*(p)); } while (0)
#endif
static int process_telnet_cmd(obj_t *t, int cmd, int opt)
{
    if (t != &TN) G.bad = 1;
    if (cmd == DONT || cmd == DO || cmd == WONT || cmd == WILL) {
        G.did = VP_MIX(G.did, (cmd << 8) | (opt & 0xff));
        if (opt < 0 || opt > 255) G.bad = 1;
#ifdef VP_PROVE
        VP_ASSERT(G.did == G.want, "the negotiation handled is the one received at this byte");
#endif
    }
    return 0;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_ASSERT(0, "no byte stream terminates the daemon"); VP_ASSUME(0); }

#define P_process_telnet_escapes(R) \
    R(telnet == &TN && src == (void *) W && len == K.len)
#define Q_process_telnet_escapes(E) \
    E("exactly the bytes that are not part of a telnet command are console output", RV == G.out) \
    E("each console byte is the received one, in order", VP_IMPLIES(K.k < G.out, W[K.k] == G.kv)) \
    E("every byte of the block is accounted for", G.n == K.len) \
    E("each negotiation is handled once, in order, and nothing else is", G.did == G.want && G.bad == 0) \
    E("an unfinished sequence is carried over to the next read", TN.aux.telnet.iac == G.st)

int process_telnet_escapes(obj_t *telnet, void *src, int len)
    VP_REQ(P_process_telnet_escapes)
    VP_ASSIGNS(__CPROVER_object_whole(W), TN.aux.telnet.iac, G, VP)
    VP_ENS(Q_process_telnet_escapes);

#include "server-telnet.c"

void harness(void)
{
    obj_t *telnet = &TN;
    void *src = W;
    int len, vp_rv;
    static const unsigned char t[12] = { IAC, IAC, IAC, DONT, DO, WONT, WILL, SB, SE, GA, TELOPT_BINARY, 'x' };

    TN.name = "console";
    TN.type = CONMAN_OBJ_TELNET;
    TN.fd = 5;
    TN.aux.telnet.state = CONMAN_TELNET_UP;
    len = K.len = nd_range(0, BUFMAX);
#ifdef VP_PROVE
    VP_ANY(W);
    K.j = nd_range(0, OBJ_BUF_SIZE - 1);
    K.k = nd_range(0, OBJ_BUF_SIZE - 1);
    K.jv = W[K.j];
#else
    {
        int i;
        for (i = 0; i < BUFMAX; i++) {
            int s = nd_range(0, 15);
            unsigned char c = nd_uchar();
            W[i] = (s < 12) ? t[s] : c;
        }
        K.k = nd_range(0, BUFMAX);
    }
#endif
    G.st = nd_range(-1, 255);
    VP_ASSUME(VP_STATE(G.st));
    G.n = G.out = G.bad = 0;
    G.want = G.did = 0;
    TN.aux.telnet.iac = G.st;
#ifndef VP_PROVE
    { int i; for (i = 0; i < len; i++) vp_spec(W[i]); }
#endif

    VP.held = VP.died = 0;
    VP_PRE(P_process_telnet_escapes);
    vp_rv = process_telnet_escapes(telnet, src, len);
    VP_POST(Q_process_telnet_escapes);

    VP_REACH("return");
    if (G.did && G.out > 2) VP_REACH("negotiation and data");
}
