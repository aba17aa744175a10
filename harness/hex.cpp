#include "encoder.h"
#include "util.h"
// bytes -> text (with NUL, exact-size buffer) -> bytes
std::string one(const Toks &t) {
	Buf in(t[0]), text(2 * in.n + 1), back(in.n);
	hex_encode((char*)text.p, in.p, (int)in.n);
	Buf digits(2 * in.n);
	memcpy(digits.p, text.p, digits.n);
	hex_decode(back.p, (const char*)digits.p, (int)digits.n);
	return text.hex() + " " + back.hex() + " " + in.hex();
}
