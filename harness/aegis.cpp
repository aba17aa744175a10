// <key> then: e<iv>/<ad>/<pt> -> ct tag      d<iv>/<ad>/<ct>/<tag> -> result, plaintext
#include "aegis_128.h"
#include "util.h"
#include <vector>
static std::vector<std::string> split(const std::string &s) {
	std::vector<std::string> r(1);
	for (char c : s) if (c == '/') r.push_back(""); else r.back() += c;
	return r;
}
std::string one(const Toks &t) {
	Buf k(t[0]);
	aegis_state *cs = (aegis_state*)malloc(sizeof *cs);
	memset(cs, 0xA5, sizeof *cs);
	aegis_load_key(cs, k.p);
	std::string r;
	for (size_t i = 1; i < t.size(); i++) {
		auto f = split(t[i].substr(1));
		Buf iv(f[0]), ad(f[1]), x(f[2]), cx(f[2]), ca(f[1]), out(x.n);
		r += r.empty() ? "" : " ";
		if (t[i][0] == 'e') {
			Buf tag(16);
			aegis_encrypt_packet(cs, out.p, tag.p, x.p, ad.p, iv.p, ad.n, x.n);
			r += out.hex() + "/" + tag.hex();
		} else {
			Buf tag(f[3]);
			int v = aegis_decrypt_packet(cs, out.p, x.p, ad.p, iv.p, tag.p, ad.n, x.n);
			r += (v ? "1/" : "0/") + out.hex();
		}
		if ((x.n && memcmp(x.p, cx.p, x.n)) || (ad.n && memcmp(ad.p, ca.p, ad.n))) r += "INPUT-CHANGED";
	}
	free(cs);
	return r;
}
