/* memcmp as a straight-line-per-byte fold: same result for equality; for
   inequality the sign is that of the first differing byte. */
#include <stddef.h>
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    int r = 0;
    for (size_t i = 0; i < n; i++)
        r = r != 0 ? r : (int)x[i] - (int)y[i];
    return r;
}
