/* unit demonstrations: EXPECT(condition) fails the program */
#include <stdio.h>
#include <stdlib.h>
#define EXPECT(c) do { if (!(c)) { printf("DEMO FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
