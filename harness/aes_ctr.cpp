// <key> then any of: n<nonce> (load iv), packet, k<number of blocks to skip>
#include "aes_ctr.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[0]);
	aes_state *cs = (aes_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	aes_load_key(cs, k.p);
	std::string r;
	for (size_t i = 1; i < t.size(); i++) {
		if (t[i][0] == 'n') { Buf n(t[i].substr(1)); aes_load_iv(cs, n.p); continue; }
		if (t[i][0] == 'k') {	// skip blocks
			size_t n = 16 * strtoul(t[i].c_str() + 1, 0, 10);
			Buf in(n, 0), out(n);
			aes_ctr_process_packet(cs, out.p, in.p, in.n);
			continue;
		}
		Buf in(t[i]), out(in.n), copy(t[i]);
		aes_ctr_process_packet(cs, out.p, in.p, in.n);
		r += (r.empty() ? "" : " ") + out.hex();
		if (in.n && memcmp(in.p, copy.p, in.n)) r += " INPUT-CHANGED";
	}
	free(cs);
	return r;
}
