#include "md5.h"
#include "util.h"
// hex chunks; "." alone: MD5_process_packet of the next token; prints digest and leftover context
std::string one(const Toks &t) {
	MD5_CTX *cs = (MD5_CTX*)malloc(sizeof(MD5_CTX));
	memset(cs, 0x5A, sizeof *cs);
	Buf d(16);
	std::string after;
	if (t[0] == ".") {
		Buf m(t[1]);
		MD5_process_packet(cs, d.p, m.p, (u32)m.n);
		after = m.hex();
	} else {
		MD5Init(cs);
		for (size_t i = 0; i < t.size(); i++) { Buf m(t[i]); MD5Update(cs, m.p, (u32)m.n); after += m.hex(); }
		MD5Final(d.p, cs);
	}
	free(cs);
	return d.hex() + " " + after;
}
