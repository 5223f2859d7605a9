/* The library under test, compiled for the selected platform. */
#include "config.h"
#include "tommyds/tommy.c"
