/* Conversions as gcc compiles them. Reads 24-byte requests, writes 16-byte
   answers. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>

typedef _Float16 H;
typedef long double X;
typedef __float128 Q;

static H h(uint64_t a) { uint16_t u = a; H v; memcpy(&v, &u, 2); return v; }
static float f(uint64_t a) { uint32_t u = a; float v; memcpy(&v, &u, 4); return v; }
static double d(uint64_t a) { double v; memcpy(&v, &a, 8); return v; }
static X x(uint64_t a, uint64_t b) { X v = 0; uint16_t s = a; memcpy(&v, &b, 8); memcpy((char *)&v + 8, &s, 2); return v; }
static Q q(uint64_t a, uint64_t b) { Q v; memcpy(&v, &b, 8); memcpy((char *)&v + 8, &a, 8); return v; }
static uint64_t r[2];
static void oh(H v) { uint16_t u; memcpy(&u, &v, 2); r[0] = u; r[1] = 0; }
static void of(float v) { uint32_t u; memcpy(&u, &v, 4); r[0] = u; r[1] = 0; }
static void od(double v) { memcpy(&r[0], &v, 8); r[1] = 0; }
static void ox(X v) { uint16_t s; memcpy(&r[1], &v, 8); memcpy(&s, (char *)&v + 8, 2); r[0] = s; }
static void oq(Q v) { memcpy(&r[1], &v, 8); memcpy(&r[0], (char *)&v + 8, 8); }

int main(void) {
	unsigned char rec[24];
	while (fread(rec, 24, 1, stdin) == 1) {
		uint64_t a, b;
		memcpy(&a, rec + 8, 8);
		memcpy(&b, rec + 16, 8);
		switch (rec[0]) {
		case 0: oh((H)d(a)); break;
		case 1: ox((X)d(a)); break;
		case 2: oq((Q)d(a)); break;
		case 3: oh((H)f(a)); break;
		case 4: ox((X)f(a)); break;
		case 5: oq((Q)f(a)); break;
		case 6: of((float)h(a)); break;
		case 7: od((double)h(a)); break;
		case 8: of((float)x(a, b)); break;
		case 9: od((double)x(a, b)); break;
		case 10: of((float)q(a, b)); break;
		case 11: od((double)q(a, b)); break;
		case 12: oh((H)x(a, b)); break;
		case 13: oh((H)q(a, b)); break;
		case 14: ox((X)q(a, b)); break;
		case 15: oq((Q)x(a, b)); break;
		case 16: ox((X)h(a)); break;
		case 17: oq((Q)h(a)); break;
		case 18: { uint16_t u = a; __bf16 v; memcpy(&v, &u, 2); of((float)v); break; }
		default: return 3;
		}
		if (fwrite(r, 16, 1, stdout) != 1)
			return 4;
	}
	return 0;
}
