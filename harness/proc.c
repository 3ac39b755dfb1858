/* Process exit events (C12). */
#include "hx.h"
static int kq[2];
static int code[2], status[2], want[2];
static void die(int p)
{
    static const int codes[] = { CLD_EXITED, CLD_KILLED, CLD_DUMPED };
    int c = nd_pick(3);
    code[p] = codes[c];
    status[p] = c ? (int)(1 + nd_below(64)) : (int)sx_nd(8);
    want[p] = c == 0 ? status[p] << 8 : c == 1 ? status[p] : (status[p] | 0x80);
    km_exit(p, code[p], status[p]);
    if (c == 0) COVER("exited"); else if (c == 1) COVER("killed"); else COVER("dumped");
}
void harness(void)
{
    struct kevent ev[4];
    uint64_t ud[2];
    int reg[2][2] = { { 0 } }, dead[2] = { 0, 0 }, gone[2] = { 0, 0 }, nkq = 1;
    kq[0] = HX_kq();
    ASSUME(kq[0] >= 0);
#ifdef TWOKQ
    kq[1] = kqueue();
    ASSUME(kq[1] >= 0);
    nkq = 2;
#endif
    for (int p = 0; p < 2; p++) { kproc[p].pid = 77 + p; kproc[p].state = 1; ud[p] = nd(); }
    if (nd_pick(2)) { die(0); dead[0] = 1; COVER("dead before"); }
    for (int q = 0; q < nkq; q++)
        for (int p = 0; p < 2; p++) {
            unsigned ff = NOTE_EXIT;
            if (p && nd_pick(2)) continue;
            if (nd_pick(2)) {       /* nothing asked for at first */
                CHECK(chg(kq[q], 77 + p, EVFILT_PROC, EV_ADD, 0, 0, NULL) == 0, "a process can be added without asking for anything");
                if (!p) CHECK(ev_get(kq[q], ev, 4) == 0, "nothing is reported if nothing was asked for");
                COVER("modified");
            }
            CHECK(chg(kq[q], 77 + p, EVFILT_PROC, EV_ADD, ff, nd(), (void *)ud[p]) == 0, "a live or unreaped process can be watched");
            reg[q][p] = 1;
            if (p) break;
        }
    for (int k = 0; k < 3; k++) {
        int q = nkq > 1 ? nd_pick(2) : 0, p = nd_pick(2), n, exp = 0;
        switch (nd_pick(4)) {
        case 0: ASSUME(!dead[p]); die(p); dead[p] = 1; break;
        case 1:         /* wait */
            for (int j = 0; j < 2; j++) exp += reg[q][j] && dead[j];
            n = ev_get(kq[q], ev, 4);
            CHECK(n == exp, "the exit of each watched process is returned exactly once");
            for (int e = 0; e < n; e++) {
                int j = (int)ev[e].ident - 77;
                CHECK((j == 0 || j == 1) && ev[e].ident == 77u + j && ev[e].filter == EVFILT_PROC, "the event names the process");
                if (j != 0 && j != 1) sx_stop();
                CHECK(reg[q][j] && dead[j], "only a watched process that has exited is returned");
                CHECK(ev[e].udata == (void *)ud[j], "user data as registered");
                CHECK((ev[e].fflags & NOTE_EXIT) && (ev[e].flags & EV_EOF), "the event says that the process exited");
                CHECK(ev[e].data == (gone[j] ? 0 : want[j]), "data is the status waitpid() would return, 0 if it is no longer known");
                reg[q][j] = 0;
                COVER("event");
            }
            for (int j = 0; j < 2; j++) CHECK(!dead[j] || kproc[j].state == (gone[j] ? 3 : 2), "the process is left for the application to wait for");
            break;
        case 2: ASSUME(dead[p] && !gone[p]); kproc[p].state = 3; gone[p] = 1; COVER("reaped"); break;
        case 3: ASSUME(reg[q][p]);
            CHECK(chg(kq[q], 77 + p, EVFILT_PROC, EV_ADD, NOTE_EXIT, 0, (void *)ud[p]) == 0, "a watched process can be added again");
            break;
        }
    }
    COVER("end");
}
