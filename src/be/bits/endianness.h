/* for the big-endian emulation: <endian.h> and <sys/param.h> announce a big-endian machine */
#ifndef _BITS_ENDIANNESS_H
#define _BITS_ENDIANNESS_H 1
#ifndef __BIG_ENDIAN
#define __BIG_ENDIAN 4321
#endif
#define __BYTE_ORDER __BIG_ENDIAN
#endif
