// P15: parallel reductions, queries, searches, comparisons and scans give the answer of the sequential algorithm.
#include "algos.hpp"
SIM_SCENARIO(P15,algorithms,SIM_HB,10){ algo_run(15,false); }
