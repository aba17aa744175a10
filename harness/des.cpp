// E <key> <data>: ECB both ways;  C <key> <12 octet nonce> <data>: counter mode
#include "des.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf k(t[1]);
	des_state *cs = (des_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	std::string r;
	if (t[0] == "E") {
		Buf in(t[2]), copy(t[2]), e(in.n), d(in.n), x(in.n);
		des_key_schedule_encrypt(cs, k.p);
		des_process_packet_ecb(cs, (u32*)e.p, (u32*)in.p, in.n);
		des_key_schedule_decrypt(cs, k.p);
		des_process_packet_ecb(cs, (u32*)d.p, (u32*)in.p, in.n);
		des_process_packet_ecb(cs, (u32*)x.p, (u32*)e.p, in.n);
		r = e.hex() + " " + d.hex() + " " + x.hex();
		if (in.n && memcmp(in.p, copy.p, in.n)) r += " INPUT-CHANGED";
	} else {
		Buf n(t[2]), in(t[3]), out(in.n), rec(in.n);
		des_key_schedule_encrypt(cs, k.p);
		des_process_packet_ctr(cs, (u32*)out.p, (u32*)in.p, (u32*)n.p, in.n);
		des_process_packet_ctr(cs, (u32*)rec.p, (u32*)out.p, (u32*)n.p, in.n);
		r = out.hex() + " " + rec.hex();
	}
	free(cs);
	return r;
}
