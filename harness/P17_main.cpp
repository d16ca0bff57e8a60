// P17: an exception of a user functor becomes the result of the whole algorithm.
#include "algos.hpp"
SIM_SCENARIO(P17,throwing,SIM_HB,10){ algo_run(0,true); }
