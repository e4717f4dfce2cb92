#include "hps.hpp"
using namespace vr;
void run() { startApp(); for (int r = 0; r < 60 || more(); r++) for (bool inhom : {false, true}) splitCase("split", false, inhom); }
