// <key> <iv> <packet>...: the packets are ciphered one after another; a second state deciphers them in step
#include "hc128.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[0]), v(t[1]);
	hc128_state *a = (hc128_state*)malloc(sizeof *a), *b = (hc128_state*)malloc(sizeof *b);
	memset(a, 0xA5, sizeof *a);
	memset(b, 0x5A, sizeof *b);
	hc128_initialize(a, k.p, v.p);
	hc128_initialize(b, k.p, v.p);
	std::string r;
	for (size_t i = 2; i < t.size(); i++) {
		Buf in(t[i]), out(in.n), copy(t[i]), back(in.n);
		hc128_process_packet(a, out.p, in.p, in.n);
		hc128_process_packet(b, back.p, out.p, in.n);
		r += (r.empty() ? "" : " ") + out.hex();
		if (in.n && memcmp(in.p, copy.p, in.n)) r += " INPUT-CHANGED";
		if (in.n && memcmp(in.p, back.p, in.n)) r += " NOT-RECOVERED";
	}
	free(a); free(b);
	return r;
}
