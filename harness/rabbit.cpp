// <key> then any of: i<iv>, packet, k<number of bytes to skip>
#include "rabbit.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[0]);
	rabbit_state *cs = (rabbit_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	rabbit_load_key(cs, k.p);
	std::string r;
	for (size_t i = 1; i < t.size(); i++) {
		if (t[i][0] == 'i') { Buf n(t[i].substr(1)); rabbit_load_iv(cs, n.p); continue; }
		Buf in(t[i]), out(in.n), copy(t[i]);
		rabbit_process_packet(cs, out.p, in.p, in.n);
		r += (r.empty() ? "" : " ") + out.hex();
		if (in.n && memcmp(in.p, copy.p, in.n)) r += " INPUT-CHANGED";
	}
	free(cs);
	return r;
}
