#include "vec.hpp"
void run() { vectors(true, false); }
