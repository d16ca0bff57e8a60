// P14: elementwise parallel algorithms give the result of the sequential algorithm, visit each element exactly once
// and touch nothing after completion.
#include "algos.hpp"
SIM_SCENARIO(P14,algorithms,SIM_HB,10){ algo_run(14,false); }
