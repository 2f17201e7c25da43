/*VP
{ "properties": ["C06", "C05"],
  "sources": ["server-telnet.c"],
  "enforce": ["process_telnet_cmd"],
  "functions": ["process_telnet_cmd"],
  "stub_defs": ["send_telnet_cmd"],
  "unwind": 2, "backends": ["sat"]
}
*/
#define TELCMDS
#define TELOPTS
#include "vp.h"
#include "common.h"
#include "server.h"
#include "tpoll.h"
#include "stub_str.h"

obj_t TN;
tpoll_t tp_global;
struct {
    int sent, cmd, opt, bad;
} G;
int send_telnet_cmd(obj_t *t, int cmd, int opt)
{
    if (t != &TN) G.bad = 1;
    G.sent++;
    G.cmd = cmd;
    G.opt = opt;
    return 0;
}
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { VP_DIE(); }

#define SUP_DO(o)   ((o) == TELOPT_BINARY || (o) == TELOPT_SGA)
#define SUP_WILL(o) ((o) == TELOPT_BINARY || (o) == TELOPT_SGA || (o) == TELOPT_ECHO)
#define P_process_telnet_cmd(R) R(telnet == &TN)
#define Q_process_telnet_cmd(E) \
    E("a request to perform an unsupported option is refused once, with the same option", \
        VP_IMPLIES(cmd == DO && !SUP_DO(opt), G.sent == 1 && G.cmd == WONT && G.opt == opt)) \
    E("an offer of an unsupported option is refused once, with the same option", \
        VP_IMPLIES(cmd == WILL && !SUP_WILL(opt), G.sent == 1 && G.cmd == DONT && G.opt == opt)) \
    E("a supported option, asked for on connecting, is not answered again", \
        VP_IMPLIES((cmd == DO && SUP_DO(opt)) || (cmd == WILL && SUP_WILL(opt)), G.sent == 0)) \
    E("no other command is ever answered", VP_IMPLIES(cmd != DO && cmd != WILL, G.sent == 0)) \
    E("nothing is sent to any other object", G.bad == 0)

static int process_telnet_cmd(obj_t *telnet, int cmd, int opt)
    VP_REQ(P_process_telnet_cmd)
    VP_ASSIGNS(G, VP)
    VP_ENS(Q_process_telnet_cmd);

#include "server-telnet.c"

void harness(void)
{
    obj_t *telnet = &TN;
    int cmd, opt, vp_rv;

    TN.name = "console";
    TN.type = CONMAN_OBJ_TELNET;
    TN.fd = 5;
    TN.aux.telnet.state = CONMAN_TELNET_UP;
    cmd = nd_range(0, 255);
    opt = nd_range(-1, 255);
    VP_ASSUME(VP_IMPLIES(cmd == DO || cmd == DONT || cmd == WILL || cmd == WONT, opt >= 0));
    G.sent = G.bad = G.cmd = G.opt = 0;
    VP.held = VP.died = 0;
    VP_PRE(P_process_telnet_cmd);
    vp_rv = process_telnet_cmd(telnet, cmd, opt);
    VP_POST(Q_process_telnet_cmd);
    VP_REACH("return");
    if (G.sent) VP_REACH("refused");
}
