#pragma once
#define I_SPW_CAT_(a, b) a##b
#define I_SPW_CAT(a, b) I_SPW_CAT_(a, b)
#define I_SPW_NARG_(_0,_1,_2,_3,_4,_5,_6,_7,_8,N,...) N
#define I_SPW_NARG(...) I_SPW_NARG_(0, ##__VA_ARGS__, 8,7,6,5,4,3,2,1,0)
#define I_SPW_0(f, ...)
#define I_SPW_1(f, a) f(a, 0)
#define I_SPW_2(f, a, b) f(a, 0), f(b, 1)
#define I_SPW_3(f, a, b, c) f(a, 0), f(b, 1), f(c, 2)
#define I_SPW_4(f, a, b, c, d) f(a, 0), f(b, 1), f(c, 2), f(d, 3)
#define I_SPW_5(f, a, b, c, d, e) f(a, 0), f(b, 1), f(c, 2), f(d, 3), f(e, 4)
#define SPLAT_ITERATE_WITH(f, ...) I_SPW_CAT(I_SPW_, I_SPW_NARG(__VA_ARGS__))(f, ##__VA_ARGS__)
