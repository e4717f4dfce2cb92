#include "mat.hpp"
void run() { for (int round = 0; round < 400 || more(); round++) { permute(false); permute(true); } }
