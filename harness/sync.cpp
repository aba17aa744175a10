// <key> <iv> <packet>...: state A ciphers the packets, state B packets of zeros of the same lengths,
// state C deciphers what A produced.  SAME when the masks and the recovered packets agree.
#include SYNC_H
#include "util.h"
#if defined SYNC_CHACHA
typedef chacha_state ST;
static void init(ST *s, Buf &k, Buf &v) { Buf kk(32); for (int i = 0; i < 32; i++) kk.p[i] = k.p[i % 16] ^ i; chacha_initialize(s, kk.p, v.p); }
#define PACKET chacha_process_packet
#elif defined SYNC_HC
typedef hc128_state ST;
static void init(ST *s, Buf &k, Buf &v) { hc128_initialize(s, k.p, v.p); }
#define PACKET hc128_process_packet
#elif defined SYNC_RABBIT
typedef rabbit_state ST;
static void init(ST *s, Buf &k, Buf &v) { rabbit_load_key(s, k.p); rabbit_load_iv(s, v.p); }
#define PACKET rabbit_process_packet
#elif defined SYNC_SOSE
typedef sosemanuk_state ST;
static void init(ST *s, Buf &k, Buf &v) { sosemanuk_load_key(s, k.p, k.n); sosemanuk_load_iv(s, v.p); }
#define PACKET sosemanuk_process_packet
#else
typedef aes_state ST;
static void init(ST *s, Buf &k, Buf &v) { aes_load_key(s, k.p); aes_load_iv(s, v.p); }
#define PACKET aes_ctr_process_packet
#endif
__attribute__((noinline)) static void scribble(int c) { volatile char x[32768]; for (int i = 0; i < 32768; i++) x[i] = c; }
std::string one(const Toks &t) {
	Buf k(t[0]), v(t[1]);
	ST *a = (ST*)malloc(sizeof *a), *b = (ST*)malloc(sizeof *b), *c = (ST*)malloc(sizeof *c);
	memset(a, 0xA5, sizeof *a); memset(b, 0x5A, sizeof *b); memset(c, 0, sizeof *c);
	init(a, k, v); init(b, k, v); init(c, k, v);
	std::string r;
	for (size_t i = 2; i < t.size(); i++) {
		Buf in(t[i]), z(in.n, 0), oa(in.n, 0x11), ob(in.n, 0x22), oc(in.n, 0x33);
		scribble(0x55);
		PACKET(a, oa.p, in.p, in.n);
		scribble(0xAA);
		PACKET(b, ob.p, z.p, in.n);
		scribble(0);
		PACKET(c, oc.p, oa.p, in.n);
		for (size_t j = 0; j < in.n && r.empty(); j++) {
			if (oc.p[j] != in.p[j]) r = "packet " + std::to_string(i - 1) + " not recovered at byte " + std::to_string(j);
			else if ((oa.p[j] ^ in.p[j]) != ob.p[j]) r = "mask of packet " + std::to_string(i - 1) + " depends on its content at byte " + std::to_string(j);
		}
	}
	free(a); free(b); free(c);
	return r.empty() ? "SAME" : r;
}
