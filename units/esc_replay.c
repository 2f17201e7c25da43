/*VP
{ "properties": ["C08"],
  "sources": ["server-esc.c"],
  "enforce": ["perform_log_replay"],
  "unwind": 3, "backends": ["sat", "uf", "z3"],
  "trusted": ["console names are at most 1024 characters (MAX_LINE, the limit of a configuration line)", "snprintf writes at most its size and returns the full length", "memcpy"]
}
*/
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "util-str.h"

obj_t CLI, CON;
/*  room before the log, as the code forms addresses up to LOG_REPLAY_LEN before
 *    its buffer (which it does not access)  */
struct { char pad[OBJ_BUF_SIZE]; obj_t log; } VPL;
#define LOG VPL.log
req_t Q;
tpoll_t tp_global;
#define VP_NT 1
#define VP_NIT 2
#define VP_TRACKED(i) ((void *) &CON)
#define VP_OTHER() ((void *) NULL)
#include "stub_list.h"
struct list LR, LW;

struct {
    int wrote, logs;
    char *base;                         /* buffer the reply is put together in */
    long filled;                        /* bytes of it filled so far         */
    long done;                          /* log bytes copied so far           */
    int msgs, bad, over;
    long begin, end;
} G;
struct {
    int haslog, in, wrap, empty;
    long namelen, avail;
    int out;
} K;
#define AVAIL   (K.wrap ? OBJ_BUF_SIZE - 1 : K.in)
#define WANT    (AVAIL < LOG_REPLAY_LEN ? AVAIL : LOG_REPLAY_LEN)
#define P_perform_log_replay(R) R(client == &CLI && VP.held == 0)
#define Q_perform_log_replay(E) \
    E("a session that monitors nothing gets nothing", VP_IMPLIES(K.empty, G.wrote == 0)) \
    E("any other gets one reply", VP_IMPLIES(!K.empty, G.wrote == 1)) \
    E("the log is as it was", LOG.bufInPtr == LOG.buf + K.in && LOG.bufOutPtr == LOG.buf + K.out && LOG.gotBufWrap == K.wrap && CON.bufInPtr == CON.buf) \
    E("nothing is left locked", VP.held == 0)

void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }
obj_t * get_console_logfile_obj(obj_t *c)
{
    VP_ASSERT(c == &CON, "the log of the session's own console is looked up");
    return K.haslog ? &LOG : NULL;
}
#ifndef VP_NATIVE
/*  text with the console's name in place of one %s, and a prefix and suffix  */
#define snprintf(b, n, f, pre, nm, suf) \
    vp_snprintf(b, n, nm, (long) sizeof(f) - 7 + (long) sizeof(pre) - 1 + (long) sizeof(suf) - 1 + K.namelen)
static int vp_snprintf(char *b, long n, const char *nm, long r)
{
    VP_ASSERT(n > 0 && VP_W_OK(b, n), "formatted output range is valid");
    VP_ASSERT(nm == CON.name, "the message names the console");
    if (G.msgs == 0) G.base = b;
    VP_ASSERT(b == G.base + G.filled, "each part directly follows the one before");
    VP_ASSERT(G.msgs == 0 || G.done == WANT, "the end marker follows all of the log");
    G.msgs++;
    G.filled += r < n ? r : n - 1;
    if (r >= n) G.over = 1;
    return (int) r;
}
#define memcpy(d, s, n) vp_memcpy(d, s, n)
/*  what is copied must be the next part of the newest bytes of the log  */
static void * vp_memcpy(void *d, const void *s, size_t n)
{
    long w;
    if (n == 0) return d;
    VP_ASSERT(VP.held == 1, "the log is locked while it is read");
    VP_ASSERT(G.msgs == 1, "the begin marker comes first, the end marker last");
    VP_ASSERT((char *) d == G.base + G.filled && VP_W_OK(d, n), "each part directly follows the one before");
    VP_ASSERT(VP_SAME(s, &VPL), "log data is copied");
    w = (const unsigned char *) s - LOG.buf;
    VP_ASSERT(w >= 0 && (long) n <= OBJ_BUF_SIZE - w, "copied range lies within the log's buffer");
    /* first copy fixes how many bytes are to come */
    if (G.done == 0) G.begin = w;
    VP_ASSERT(w == (G.begin + G.done) % OBJ_BUF_SIZE, "log bytes are copied in order");
    G.done += (long) n;
    VP_ASSERT(G.done <= WANT, "no more than the documented amount of valid log data is replayed");
    G.filled += (long) n;
    return d;
}
#endif
int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
{
    VP_ASSERT(obj == &CLI && !isInfo, "only the requesting session gets the replay, even when quiet");
    VP_ASSERT(VP.held == 0, "the log is unlocked again");
    VP_ASSERT(len > 0 && len < OBJ_BUF_SIZE && VP_R_OK(src, len), "data sent is valid");
#ifndef VP_NATIVE
    VP_ASSERT((const char *) src == G.base && len == G.filled && !G.over, "exactly what was put together is sent");
    if (K.haslog) {
        VP_ASSERT(G.msgs == 2, "the replay is enclosed in markers");
        VP_ASSERT(G.done == WANT, "all of the newest log data is replayed, up to the documented amount");
        VP_ASSERT(G.done == 0 || (G.begin + G.done) % OBJ_BUF_SIZE == K.in, "the replay ends with the newest byte");
    }
    else VP_ASSERT(G.msgs == 1 && G.done == 0, "a console without a log yields a notice");
#else
    {
        const char *s = src;
        char b[2000], e[2000];
        int lb, le, i;
        if (!K.haslog)
            lb = snprintf(b, sizeof b, "%sConsole [%s] is not being logged -- cannot replay%s", CONMAN_MSG_PREFIX, CON.name, CONMAN_MSG_SUFFIX), le = 0;
        else {
            lb = snprintf(b, sizeof b, "%sBegin log replay of console [%s]%s", CONMAN_MSG_PREFIX, CON.name, CONMAN_MSG_SUFFIX);
            le = snprintf(e, sizeof e, "%sEnd log replay of console [%s]%s", CONMAN_MSG_PREFIX, CON.name, CONMAN_MSG_SUFFIX);
        }
        VP_ASSERT(len == lb + le + (K.haslog ? WANT : 0), "all of the newest log data is replayed, up to the documented amount");
        VP_ASSERT(len >= lb + le && !memcmp(s, b, lb) && !memcmp(s + len - le, e, le), "the replay is enclosed in markers");
        for (i = 0; K.haslog && i < WANT && lb + i < len; i++)
            VP_ASSERT((unsigned char) s[lb + i] == LOG.buf[(K.in + OBJ_BUF_SIZE - WANT + i) % OBJ_BUF_SIZE], "the newest log bytes are replayed in order");
    }
#endif
    G.wrote++;
    return len;
}
static void perform_log_replay(obj_t *client) VP_REQ(P_perform_log_replay) VP_ASSIGNS(G, VP) VP_ENS(Q_perform_log_replay);
#include "server-esc.c"
static char NAME[2000];

void harness(void)
{
    obj_t *client = &CLI;
    long i;

    CLI.type = CONMAN_OBJ_CLIENT;
    CLI.readers = &LR; CLI.writers = &LW; CLI.aux.client.req = &Q;
    CON.type = 1u << nd_range(2, 7);
    LOG.type = CONMAN_OBJ_LOGFILE;
    K.empty = nd_bool(); K.haslog = nd_bool();
    LW.has[0] = !K.empty; LW.others = 0; LR.has[0] = nd_bool(); LR.others = 0;
    CON.bufInPtr = CON.bufOutPtr = CON.buf;
    K.in = nd_range(0, OBJ_BUF_SIZE - 1); K.out = nd_range(0, OBJ_BUF_SIZE - 1); K.wrap = nd_bool();
    LOG.bufInPtr = LOG.buf + K.in; LOG.bufOutPtr = LOG.buf + K.out; LOG.gotBufWrap = K.wrap;
    K.namelen = nd_range(1, 1024);
#ifdef VP_NATIVE
    for (i = 0; i < OBJ_BUF_SIZE; i++) LOG.buf[i] = (i * 7 + i / 256) & 0xFF;
    memset(NAME, 'n', sizeof NAME); NAME[K.namelen] = 0;
#endif
    CON.name = NAME;
    CLI.name = "client";
    memset(&G, 0, sizeof G);
    VP.held = VP.err = 0;
    VP_PRE(P_perform_log_replay);
    perform_log_replay(client);
    VP_POST(Q_perform_log_replay);
    if (G.wrote) VP_REACH("replayed");
    else VP_REACH("nothing");
}
