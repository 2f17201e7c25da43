/*VP
{ "properties": ["C07"],
  "sources": ["server-logfile.c"],
  "enforce": ["write_log_data"],
  "unwind": 2, "bound_unwind": 7, "backends": ["ufc"], "timeout": 420, "random_s": 6,
  "bound_text": "blocks of at most 5 bytes",
  "assumptions": ["blocks are at most 64 KiB"],
  "trusted": ["write_obj_data contract (discharged in obj_write)", "write_time_string contract (discharged in str_time); its text has 20 characters"],
  "loops": [
   {"func": "write_log_data", "nth": 0, "count": 1, "locals": ["p", "q", "len", "buf", "src"], "assigns": "$LOCALS, __CPROVER_object_whole(buf), LOG.aux.logfile.lineState, G",
     "ghost": "VP_PIN(p, W + G.i); VP_PIN(q, buf + (G.out - G.fl)); vp_spec();",
     "invariant": ["0 <= G.i && G.i <= K.len && len == K.len - G.i && p == (const unsigned char *) W + G.i",
       "0 <= G.fl && G.fl <= G.out && G.out - G.fl <= (int) sizeof(buf) - 25 && G.out <= 24 * G.i && q == (unsigned char *) buf + (G.out - G.fl)",
       "VP_IMPLIES(K.k >= G.fl && K.k < G.out, buf[K.k - G.fl] == G.kv)",
       "LOG.aux.logfile.lineState == G.st && G.st >= CONMAN_LOG_LINE_INIT && G.st <= CONMAN_LOG_LINE_LF && n == G.ret && G.ret >= 0 && G.ret <= G.fl && G.bad == 0 && G.ts == 0 && G.sent == (K.k < G.fl)"]} ]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

#define BMAX VP_LIM(1 << 16, 8)
#ifdef VP_NATIVE
unsigned char W[1 << 16];
#else
unsigned char W[BMAX];
#endif
obj_t LOG, CON;
struct {
    int len, proc, ts, san;             /* the block, the log's options      */
    int st;
    int k;                             /* an arbitrary position of the output */
    unsigned char tsc;                  /* some character of a timestamp     */
} K;
struct {
    int i, out;                    /* bytes of the block taken, output due */
    unsigned char kv;                   /* output due at position k          */
    int st;
    int fl;                            /* output passed on                  */
    int ts, ta;                         /* timestamps due                    */
    int tpos;
    int ret, bad, sent, calls;
} G;
static void put(unsigned char c) { if (G.out == K.k) G.kv = c; G.out++; }
static void stamp(void)
{
    if (!K.ts) return;
    G.ts++;
    G.tpos = G.out;
    if (K.k >= G.out && K.k < G.out + 20) G.kv = K.tsc;
    G.out += 20;
}
/*  what the documentation says about the next byte of the stream  */
static void vp_spec(void)
{
    unsigned char c = W[G.i++], d = c & 0x7F;

    if (c == '\r') {
        if (G.st == CONMAN_LOG_LINE_INIT) stamp();
        if (G.st == CONMAN_LOG_LINE_INIT || G.st == CONMAN_LOG_LINE_DATA) G.st = CONMAN_LOG_LINE_CR;
        return;
    }
    if (c == '\n') {
        if (G.st == CONMAN_LOG_LINE_INIT || G.st == CONMAN_LOG_LINE_LF) stamp();
        put('\r'); put('\n');
        G.st = CONMAN_LOG_LINE_LF;
        return;
    }
    if (c == 0 && (G.st == CONMAN_LOG_LINE_CR || G.st == CONMAN_LOG_LINE_LF)) return;
    if (G.st == CONMAN_LOG_LINE_CR) { put('\r'); put('\n'); }
    if (G.st != CONMAN_LOG_LINE_DATA) stamp();
    G.st = CONMAN_LOG_LINE_DATA;
    if (!K.san) put(c);
    else if (d < 32 || d == 127) { put(c & 128 ? '~' : '^'); put(d == 127 ? '?' : d + 64); }
    else { if (c & 128) put('`'); put(d); }
}
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    const unsigned char *s = src;
    int r;

    VP_ASSERT(obj == &LOG && !isInfo, "the text is logged as data, to the log given");
    G.calls++;
    if (!K.proc) {
        VP_ASSERT(src == W && len == K.len, "a plain log gets exactly the block");
    }
    else {
        VP_ASSERT(len >= 0 && G.fl + len <= G.out, "no more than what is due is written");
        VP_ASSERT(VP_IMPLIES(K.k >= G.fl && K.k < G.fl + len, s[K.k - G.fl] == G.kv), "each byte written is the one due");
        if (K.k >= G.fl && K.k < G.fl + len) G.sent++;
        G.fl += len;
    }
    r = nd_range(0, len < 0 ? 0 : len);
    G.ret += r;
    return r;
}
int write_time_string(time_t t, char *dst, size_t n)
{
    VP_ASSERT(t == 0 && n > 20, "there is room for the time");
    VP_ASSERT(VP_LIM(G.ts == 1, G.ts >= 1), "a time is written exactly where one is due");
    G.ts--;
#ifdef VP_PROVE
    if (K.k >= G.tpos && K.k < G.tpos + 20) dst[K.k - G.tpos] = K.tsc;
#else
    memset(dst, K.tsc, 20);
#endif
    return 20;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define P_write_log_data(R) R(log == &LOG && src == W && len == K.len)
#define Q_write_log_data(E) \
    E("exactly the documented text is written", K.proc ? (G.i == K.len && G.fl == G.out && G.ts == 0) : G.calls == 1) \
    E("every byte of it is written once", VP_IMPLIES(K.proc && K.k < G.out, G.sent == 1)) \
    E("the place in the line is carried over to the next block", LOG.aux.logfile.lineState == (K.proc ? G.st : K.st)) \
    E("the count of bytes written is returned", RV == G.ret) \
    E("the block is not changed", G.bad == 0)
int write_log_data(obj_t *log, const void *src, int len) VP_REQ(P_write_log_data)
    VP_ASSIGNS(LOG.aux.logfile.lineState, G, VP) VP_ENS(Q_write_log_data);

#include "server-logfile.c"

void harness(void)
{
    obj_t *log = &LOG;
    const void *src = W;
    int vp_rv, i, len;

    len = K.len = nd_range(0, VP_LIM(BMAX - 1, 5));
    K.proc = nd_range(0, 7) > 0;
    K.ts = nd_bool(); K.san = nd_bool();
    K.st = nd_range(CONMAN_LOG_LINE_INIT, CONMAN_LOG_LINE_LF);
    K.k = nd_range(0, VP_LIM(24 * BMAX, 100));
    K.tsc = nd_uchar();
    VP_ANY(W);
#ifndef VP_PROVE
    for (i = 0; i < BMAX; i++) W[i] = (unsigned char) nd_pick("a\r\n\r\n\200\001\033\177\377");
    if (nd_range(0, 9) == 0) W[nd_range(0, BMAX - 1)] = 0;
#endif
    (void) i;
    LOG.type = CONMAN_OBJ_LOGFILE;
    LOG.aux.logfile.gotProcessing = K.proc;
    LOG.aux.logfile.opts.enableTimestamp = K.ts;
    LOG.aux.logfile.opts.enableSanitize = K.san;
    LOG.aux.logfile.lineState = K.st;
    LOG.aux.logfile.console = &CON;
    G.i = G.ts = G.ret = G.bad = G.sent = G.calls = 0; G.out = G.fl = G.tpos = 0; G.st = K.st; G.kv = 0;
    VP.held = VP.err = 0;
#ifdef VP_NATIVE
    if (nd_range(0, 20) == 20) {        /* a long block */
        len = K.len = nd_range(0, (1 << 16) - 1);
        K.k = nd_range(0, nd_bool() ? 60000 : 4 << 16);
        for (i = BMAX; i < 1 << 16; i++) W[i] = W[i - BMAX];
    }
#endif
#ifndef VP_PROVE
    while (G.i < K.len) vp_spec();
#endif
    VP_PRE(P_write_log_data);
    vp_rv = write_log_data(log, src, len);
    VP_POST(Q_write_log_data);
    if (K.proc && G.fl > 20000) VP_REACH("flushed");
    if (K.proc && K.ts && K.san && G.st == CONMAN_LOG_LINE_CR) VP_REACH("sanitized");
    if (!K.proc) VP_REACH("plain");
}
