/* kernel self-test: a tree with a known number of leaves, and one planted failure */
#include "mc.h"
#include <string.h>
void mc_setup(void) { mc_shard_depth(2); }
void mc_execute(void)
{
    int a, b, c, d;
    if (!strcmp(mc_part, "find")) {
        a = mc_choose(3, "a"); b = mc_choose(3, "b"); c = mc_choose(2, "c"); d = mc_choose(2, "d");
        mc_check(!(a == 1 && b == 2 && c == 0 && d == 1), "planted failure");
        return;
    }
    mc_set_dev_budget(1);
    a = mc_choose(3, "a");
    if (a == 0) { b = mc_choose(4, "b"); c = mc_choose(3, "c"); d = mc_choose(3, "d"); mc_choose(3, "e"); mc_state(1000 + b * 9 + c * 3 + d); }
    else if (a == 1) { mc_choose(4, "x"); mc_choose(2, "y"); mc_state(2); }
    else { for (b = 0; b < 4; b++) mc_dev(2, "dev"); mc_state(3 + (mc_dev_left() == 0)); }
}
