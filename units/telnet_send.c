/*VP
{ "properties": ["C06", "C05"],
  "sources": ["server-telnet.c"],
  "enforce": ["send_telnet_cmd"],
  "functions": ["send_telnet_cmd"],
  "unwind": 2, "backends": ["sat"]
}
*/
#define TELCMDS
#define TELOPTS
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"

obj_t TN;
tpoll_t tp_global;
struct {
    int calls, len, b0, b1, b2, bad;
} G;
int write_obj_data(obj_t *o, const void *src, int len, int info)
{
    const unsigned char *s = src;
    if (o != &TN || info || len < 1 || len > 3) G.bad = 1;
    G.calls++;
    G.len = len;
    if (len > 0) G.b0 = s[0];
    if (len > 1) G.b1 = s[1];
    if (len > 2) G.b2 = s[2];
    return len;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define NEG(c) ((c) == DO || (c) == DONT || (c) == WILL || (c) == WONT)
#define UP (TN.fd >= 0 && TN.aux.telnet.state == CONMAN_TELNET_UP)
#define P_send_telnet_cmd(R) R(telnet == &TN && cmd > 0)
#define Q_send_telnet_cmd(E) \
    E("nothing is queued unless the connection is up", VP_IMPLIES(!UP, G.calls == 0)) \
    E("a negotiation is queued once as IAC, verb, option", \
        VP_IMPLIES(UP && NEG(cmd), G.calls == 1 && G.len == 3 && G.b0 == IAC && G.b1 == cmd && G.b2 == (opt & 0xff))) \
    E("any other command is queued once as IAC, command", \
        VP_IMPLIES(UP && TELCMD_OK(cmd) && !NEG(cmd), G.calls == 1 && G.len == 2 && G.b0 == IAC && G.b1 == cmd)) \
    E("a byte that is no telnet command is never sent", VP_IMPLIES(!TELCMD_OK(cmd), G.calls == 0 && (RV == -1 || !UP))) \
    E("the bytes go to that console, as data", G.bad == 0)

int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
    VP_REQ(P_send_telnet_cmd)
    VP_ASSIGNS(G, VP)
    VP_ENS(Q_send_telnet_cmd);

#include "server-telnet.c"

void harness(void)
{
    obj_t *telnet = &TN;
    int cmd, opt, vp_rv;

    TN.name = "console";
    TN.type = CONMAN_OBJ_TELNET;
    TN.fd = nd_range(-1, 9);
    TN.aux.telnet.state = nd_range(0, 3);
    cmd = nd_range(1, 300);
    opt = nd_range(-1, 255);
    G.calls = G.bad = G.len = G.b0 = G.b1 = G.b2 = 0;
    VP.held = VP.died = 0;
    VP_PRE(P_send_telnet_cmd);
    vp_rv = send_telnet_cmd(telnet, cmd, opt);
    VP_POST(Q_send_telnet_cmd);
    VP_REACH("return");
    if (G.calls) VP_REACH("queued");
}
