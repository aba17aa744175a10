// <key> <block> <four words>
#include "serpent.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[0]), x(t[1]), w(t[2]), out(48);
	serpent_state *cs = (serpent_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	serpent_key_schedule(cs, k.p, k.n);
	Buf rk(sizeof *cs);
	memcpy(rk.p, cs, sizeof *cs);
	serpent_process_packet(cs, (uint32_t*)out.p, (uint32_t*)x.p, 16);
	uint32_t *v = (uint32_t*)w.p;
	serpent1(v, v + 1, v + 2, v + 3);
	std::string r = rk.hex() + " " + out.hex() + " " + w.hex();
	if (memcmp(rk.p, cs, sizeof *cs)) r += " STATE-CHANGED";
	free(cs);
	return r;
}
