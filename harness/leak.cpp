// C33: after an operation, successful or not, everything it allocated has been released.
// Every operation runs twice with the same arguments: what is created once for all exists after the first run, so the
// number of live allocations has to be the same before and after the second.
#include "ops.h"

extern "C" void harness_main() {
    ops::In in = ops::inputs(tsx_param("what", 0));
    tomsolver::Config::Get().maxIterations = tsx_param("it", 1);
    ops::perform(in);
    int before = tsx_live();
    ops::perform(in);
    int after = tsx_live();
    tsx_check(after == before, "everything allocated by the operation has been released");
}
