// <key> <iv> then packets: e<hex> / d<hex> on one state; "r<hex>": encrypt on the sender state, decrypt on a receiver
#include "aes_cfb.h"
#include "util.h"
static aes_state *mk(Buf &k, Buf &iv) {
	aes_state *cs = (aes_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	aes_cfb_initialize(cs, k.p, iv.p);
	return cs;
}
static std::string run(aes_state *cs, const std::string &hex, int mode) {
	Buf in(hex), out(in.n), copy(hex);
	aes_cfb_process_packet(cs, out.p, in.p, in.n, mode);
	return out.hex() + (in.n && memcmp(in.p, copy.p, in.n) ? "INPUT-CHANGED" : "");
}
std::string one(const Toks &t) {
	Buf k(t[0]), iv(t[1]);
	aes_state *s = mk(k, iv), *r = mk(k, iv);
	std::string o;
	for (size_t i = 2; i < t.size(); i++) {
		char c = t[i][0];
		std::string h = t[i].substr(1);
		if (i > 2) o += " ";
		if (c == 'r') o += run(r, run(s, h, 0), 1);
		else o += run(s, h, c == 'd');
	}
	free(s); free(r);
	return o;
}
