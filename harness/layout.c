/* records crossing between C and numpy: every element at every index */
#include "vh.h"
#include <stdbool.h>
#include "output.h"
/* all bytes free */
#define LAY_BYTES(raw) do { \
    for (size_t i = 0; i < sizeof raw; i += 4) { \
        unsigned v = (unsigned)vh_any_int(); \
        for (size_t k = 0; k < 4; k++) if (i + k < sizeof raw) raw[i + k] = (unsigned char)(v >> (8 * k)); \
    } } while (0)
/* same representation: type of the element, and each of its bytes */
#define LAY_SAME(in, type, elem, at, msg) do { \
    if (in) { \
        type *lp = (type *)0; \
        vh_assert(__builtin_types_compatible_p(__typeof__(elem), __typeof__(*lp)), msg); \
        for (size_t k = 0; k < sizeof(elem); k++) vh_assert(((unsigned char *)&(elem))[k] == (at)[k], msg); \
    } } while (0)
#include "layout_gen.h"
int main(void)
{
    chk_all();
    vh_reach("end");
    return 0;
}
