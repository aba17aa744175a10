#include "chacha.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[0]), iv(t[1]);
	chacha_state *cs = (chacha_state*)malloc(sizeof *cs);
	chacha_initialize(cs, k.p, iv.p);
	std::string r;
	for (size_t i = 2; i < t.size(); i++) {
		Buf in(t[i]), out(in.n);
		chacha_process_packet(cs, out.p, in.p, in.n);
		r += (i > 2 ? " " : "") + out.hex();
	}
	free(cs);
	return r;
}
