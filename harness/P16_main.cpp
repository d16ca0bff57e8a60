// P16: parallel sorts, selections, merges and partitions: order, conservation, stability.
#include "algos.hpp"
SIM_SCENARIO(P16,algorithms,SIM_HB,10){ algo_run(16,false); }
