#include "hps.hpp"
using namespace vr;
void run() { startApp(); for (int r = 0; r < 30 || more(); r++) for (bool inhom : {false, true}) mergeCase("merge", false, inhom); }
