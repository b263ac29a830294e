// The contents of st/Rich.st.
#ifndef VH_RICH_H
#define VH_RICH_H

// X(member, name, type)
#define FIXED(X)                                                                                   \
	X(b, "/b", bool)                                                                           \
	X(bt, "/bt", bool)                                                                         \
	X(i8, "/i8", int8_t)                                                                       \
	X(u8, "/u8", uint8_t)                                                                      \
	X(i16, "/i16", int16_t)                                                                    \
	X(u16, "/u16", uint16_t)                                                                   \
	X(i32, "/i32", int32_t)                                                                    \
	X(u32, "/u32", uint32_t)                                                                   \
	X(i64, "/i64", int64_t)                                                                    \
	X(u64, "/u64", uint64_t)                                                                   \
	X(f, "/f", float)                                                                          \
	X(d, "/d", double)                                                                         \
	X(p, "/p", void*)                                                                          \
	X(ai8_0, "/ai8[0]", int8_t)                                                                \
	X(ai8_1, "/ai8[1]", int8_t)                                                                \
	X(ai8_2, "/ai8[2]", int8_t)                                                                \
	X(au16_0, "/au16[0]", uint16_t)                                                            \
	X(au16_1, "/au16[1]", uint16_t)                                                            \
	X(af_0, "/af[0]", float)                                                                   \
	X(af_1, "/af[1]", float)                                                                   \
	X(scope__x, "/scope/x", int32_t)                                                           \
	X(scope__y, "/scope/y", double)                                                            \
	X(scope__inner__z, "/scope/inner/z", uint8_t)

// X(member, name, type, size)
#define BLOBS(X)                                                                                   \
	X(s1, "/s1", String, 1)                                                                    \
	X(s4, "/s4", String, 4)                                                                    \
	X(s15, "/s15", String, 15)                                                                 \
	X(ast_0, "/ast[0]", String, 7)                                                             \
	X(ast_1, "/ast[1]", String, 7)                                                             \
	X(bl1, "/bl1", Blob, 1)                                                                    \
	X(bl7, "/bl7", Blob, 7)                                                                    \
	X(abl_0, "/abl[0]", Blob, 16)                                                              \
	X(abl_1, "/abl[1]", Blob, 16)                                                              \
	X(bl33, "/bl33", Blob, 33)                                                                 \
	X(scope__s, "/scope/s", String, 5)                                                         \
	X(scope__inner__w, "/scope/inner/w", Blob, 3)

#define FUNCTIONS(X)                                                                               \
	X(scope__fn, "/scope/fn", int16_t)                                                         \
	X(fb, "/fb", bool)                                                                         \
	X(fi8, "/fi8", int8_t)                                                                     \
	X(fu8, "/fu8", uint8_t)                                                                    \
	X(fi16, "/fi16", int16_t)                                                                  \
	X(fu16, "/fu16", uint16_t)                                                                 \
	X(fi32, "/fi32", int32_t)                                                                  \
	X(fu32, "/fu32", uint32_t)                                                                 \
	X(fi64, "/fi64", int64_t)                                                                  \
	X(fu64, "/fu64", uint64_t)                                                                 \
	X(ff, "/ff", float)                                                                        \
	X(fd, "/fd", double)                                                                       \
	X(fp, "/fp", void*)                                                                        \
	X(afi_0, "/afi[0]", int32_t)                                                               \
	X(afi_1, "/afi[1]", int32_t)

#endif
