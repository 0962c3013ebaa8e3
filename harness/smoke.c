#include "dv.h"
#include <libdill.h>
coroutine void w(int ch) { int v; while(chrecv(ch, &v, sizeof v, -1) == 0) { dv_stat("got", 1); msleep(now() + 10); } }
void dv_case(void) {
    int ch[2]; chmake(ch);
    int b = go(w(ch[0]));
    for(int i = 0; i < 10; i++) { int r = chsend(ch[1], &i, sizeof i, now() + 5); dv_stat(r ? "to" : "ok", 1); }
    msleep(now() + 1000);
    hclose(b); hclose(ch[0]); hclose(ch[1]);
    dv_nontrivial();
}
