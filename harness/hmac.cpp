#include "hmac.h"
#include "util.h"
// g key taglen msg1 msg2 : tags of both messages under one loaded key
// v key msg tag          : verdict, then the verdict again with the correct tag
static void dirty() { volatile uint8_t a[4096]; for (int i = 0; i < 4096; i++) a[i] = 0xC3; }
std::string one(const Toks &t) {
	Buf key(t[1]);
	hmac_state cs;
	hmac_load_key(&cs, key.p, (int)key.n);
	std::string r;
	if (t[0] == "g") {
		int tl = atoi(t[2].c_str());
		for (int k = 3; k < 5; k++) {
			Buf m(t[k]), tag(tl);
			dirty();
			hmac_tag_generation(&cs, tag.p, m.p, m.n, tl);
			r += tag.hex() + " ";
		}
		return r + key.hex();
	}
	Buf m(t[2]), tag(t[3]);
	dirty();
	r += std::to_string(hmac_tag_validation(&cs, tag.p, m.p, m.n, (int)tag.n));
	return r + " " + m.hex() + " " + tag.hex();
}
