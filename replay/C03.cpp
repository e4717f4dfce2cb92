#include "hps.hpp"
using namespace vr;
void run() { startApp(); for (int r = 0; r < 25 || more(); r++) for (bool inhom : {false, true}) { mergeCase("merge of different levels", true, inhom); splitCase("split of a coarsened parent", true, inhom); } }
