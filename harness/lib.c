/* The library under test, alone in its translation unit. */
#include "tommyds/tommy.c"
