/*VP
{ "properties": ["C03"],
  "sources": ["server-esc.c"],
  "enforce": ["process_client_escapes"],
  "functions": ["process_client_escapes"],
  "stub_defs": ["perform_serial_break", "perform_del_char_seq", "perform_console_writer_linkage", "perform_log_replay",
                "perform_quiet_toggle", "perform_reset", "perform_suspend"],
  "unwind": 2, "bound_unwind": 9, "backends": ["uf"],
  "bound_text": "blocks of at most 7 bytes, every byte value and carried-over state",
  "loops": [ {"func": "process_client_escapes", "nth": 0, "count": 1, "locals": ["p", "q", "last"],
     "assigns": "$LOCALS, __CPROVER_object_whole(W), CL.aux.client.gotEscape, Q, G, VP",
     "ghost": "VP_PIN(p, W + G.n); VP_PIN(q, W + G.out); VP_FEED(p);",
     "invariant": [
        "0 <= G.out && G.out <= G.n && G.n <= K.len && p == W + G.n && q == W + G.out",
        "CL.aux.client.gotEscape == (G.esc ? 1 : 0) && (G.esc == 0 || G.esc == 1)",
        "VP_IMPLIES(K.j >= G.n, W[K.j] == K.jv)",
        "VP_IMPLIES(K.k < G.out, W[K.k] == G.kv)",
        "G.want == G.did && G.bad == 0 && VP.held == 0"] } ]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t CL;
req_t Q;
tpoll_t tp_global;
#define BUFMAX VP_LIM(OBJ_BUF_SIZE, 7)
unsigned char W[OBJ_BUF_SIZE];
struct {
    int len;
    int j; unsigned char jv;            /* arbitrary input index, its value  */
    int k;                              /* arbitrary output index            */
    int esc0;
} K;
struct {
    int n;                              /* input bytes taken                 */
    int out;                            /* output bytes due                  */
    int esc;                            /* escape byte pending               */
    unsigned char kv;                   /* value due at output index k       */
    unsigned want, did;                 /* history of actions due / done     */
    int lastwant;
    int bad;
} G;

#define VP_MIX(h,a) (((h) << 5) ^ ((h) >> 27) ^ (unsigned) (a))

/*  The specification: one step of the protocol decoder.  */
static int vp_actof(unsigned char c)
{
    switch (c) {
        case ESC_CHAR_BREAK: return 1;
        case ESC_CHAR_DEL: return 2;
        case ESC_CHAR_FORCE: return 3;
        case ESC_CHAR_JOIN: return 4;
        case ESC_CHAR_MONITOR: return 5;
        case ESC_CHAR_REPLAY: return 6;
        case ESC_CHAR_QUIET: return 7;
        case ESC_CHAR_RESET: return 8;
        case ESC_CHAR_SUSPEND: return 9;
    }
    return 0;
}
static void vp_spec(unsigned char c)
{
    G.n++;
    if (!G.esc && c == ESC_CHAR) { G.esc = 1; return; }
    if (!G.esc || c == ESC_CHAR) {
        if (G.out == K.k) G.kv = c;
        G.out++;
    }
    else if (vp_actof(c)) {
        G.lastwant = vp_actof(c);
        G.want = VP_MIX(G.want, vp_actof(c));
    }
    G.esc = 0;
}
#ifdef VP_PROVE
#define VP_FEED(p) do { VP_ASSERT(G.n < K.len, "only received bytes are examined"); \
    if (G.n == K.j) VP_ASSERT(*(p) == K.jv, "each byte is examined as it was received"); \
    vp_spec(*(p)); } while (0)
#endif
static void vp_act(obj_t *c, int a)
{
    if (c != &CL) G.bad = 1;
    G.did = VP_MIX(G.did, a);
#ifdef VP_PROVE
    VP_ASSERT(G.did == G.want, "the action is the one due at this byte");
#endif
}
static void perform_serial_break(obj_t *c) { vp_act(c, 1); }
static void perform_del_char_seq(obj_t *c) { vp_act(c, 2); }
static void perform_console_writer_linkage(obj_t *c)
{
    vp_act(c, Q.enableForce ? (Q.enableJoin ? 10 : 3) : Q.enableJoin ? 4 : 5);
}
static void perform_log_replay(obj_t *c) { vp_act(c, 6); }
static void perform_quiet_toggle(obj_t *c) { vp_act(c, 7); }
static void perform_reset(obj_t *c) { vp_act(c, 8); }
static void perform_suspend(obj_t *c) { vp_act(c, 9); }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_process_client_escapes(R) \
    R(client == &CL && src == (void *) W && len == K.len)
#define Q_process_client_escapes(E) \
    E("exactly the bytes that are not part of an escape sequence are forwarded", RV == G.out) \
    E("each forwarded byte is the received one, in order", VP_IMPLIES(K.k < G.out, W[K.k] == G.kv)) \
    E("every byte of the block is accounted for", G.n == K.len) \
    E("each escape command is performed once, in order, and nothing else is", G.did == G.want && G.bad == 0) \
    E("an unfinished sequence is carried over to the next read", CL.aux.client.gotEscape == (G.esc ? 1 : 0))

int process_client_escapes(obj_t *client, void *src, int len)
    VP_REQ(P_process_client_escapes)
    VP_ASSIGNS(__CPROVER_object_whole(W), CL.aux, Q, G, VP)
    VP_ENS(Q_process_client_escapes);

#include "server-esc.c"

void harness(void)
{
    obj_t *client = &CL;
    void *src = W;
    int len, vp_rv;

    
    VP_HAVOC(Q);
    CL.name = "client";
    CL.type = CONMAN_OBJ_CLIENT;
    CL.fd = 5;
    CL.aux.client.req = &Q;
    len = K.len = nd_range(0, BUFMAX);
#ifdef VP_PROVE
    VP_ANY(W);
    K.j = nd_range(0, OBJ_BUF_SIZE - 1);
    K.k = nd_range(0, OBJ_BUF_SIZE - 1);
    K.jv = W[K.j];
#else
    {
        static const unsigned char t[12] = { ESC_CHAR, ESC_CHAR, ESC_CHAR_BREAK, ESC_CHAR_DEL, ESC_CHAR_FORCE, ESC_CHAR_JOIN,
            ESC_CHAR_MONITOR, ESC_CHAR_REPLAY, ESC_CHAR_QUIET, ESC_CHAR_RESET, ESC_CHAR_SUSPEND, 'x' };
        int i;
        for (i = 0; i < BUFMAX; i++) {
            int s = nd_range(0, 15);
            unsigned char c = nd_uchar();
            W[i] = (s < 12) ? t[s] : c;
        }
        K.k = nd_range(0, BUFMAX);
    }
#endif
    K.esc0 = nd_bool();
    G.n = G.out = G.bad = 0;
    G.esc = K.esc0;
    G.want = G.did = 0;
    CL.aux.client.gotEscape = K.esc0;
#ifndef VP_PROVE
    { int i; for (i = 0; i < len; i++) vp_spec(W[i]); }
#endif

    VP.held = 0;
    VP_PRE(P_process_client_escapes);
    vp_rv = process_client_escapes(client, src, len);
    VP_POST(Q_process_client_escapes);

    VP_REACH("return");
    if (G.did && G.out > 2) VP_REACH("actions and data");
}
