/*  Contract stand-ins for memcpy()/memmove(): both ranges must be valid, and
 *    the destination afterwards holds the source bytes.  The "for all bytes"
 *    is stated at one arbitrary byte, the cell VP_CELL, which the unit defines.
 */
#ifndef VP_NATIVE
static void * vp_memcpy(void *d, const void *s, size_t n)
{
    unsigned char *w = &VP_CELL;

    VP_ASSERT(VP_W_OK(d, n), "memory copy: destination range is valid");
    VP_ASSERT(VP_R_OK(s, n), "memory copy: source range is valid");
    if (VP_SAME(w, d) && (w >= (unsigned char *) d)
            && (w < (unsigned char *) d + n)) {
        VP_CELL = ((const unsigned char *) s)[w - (unsigned char *) d];
    }
    return d;
}
#define memcpy(d,s,n)   vp_memcpy(d,s,n)
#define memmove(d,s,n)  vp_memcpy(d,s,n)
static void *vp_keep_mem_[] __attribute__((unused)) = { (void *) vp_memcpy };
#endif
