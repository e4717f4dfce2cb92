#include "mat.hpp"
void run() {
    for (int round = 0; round < 2 || more(); round++)
        for (int r = 0; r <= 5; r++) for (int c = 0; c <= 5; c++) {
            if (round > 1 && !more()) return;
            algebra(round ? rnd(0, 9) : r, round ? rnd(0, 9) : c, true, false);
        }
}
