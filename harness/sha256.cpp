#include "sha-256.h"
#include "util.h"
std::string one(const Toks &t) {
	Buf in(t[0]), out(32);
	sha256_process_message(out.p, in.p, in.n);
	return out.hex();
}
