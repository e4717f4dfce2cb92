#include "mat.hpp"
void run() {
    vectors(false, true);
    for (int round = 0; round < 2 || more(); round++)
        for (int r = 0; r <= 4; r++) for (int c = 0; c <= 4; c++) {
            if (round > 1 && !more()) return;
            int a = round ? rnd(0, 7) : r, b = round ? rnd(0, 7) : c;
            matrixAccess(a, b, false, true); algebra(a, b, false, true); permute(false); permute(true);
        }
}
