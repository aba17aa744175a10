// one test case per line; one output line, prefixed by '=', per case
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
// exact-size heap buffer
struct Buf {
	uint8_t *p; size_t n;
	explicit Buf(size_t n_, int fill = 0xA5) : n(n_) { p = (uint8_t*)malloc(n ? n : 1); memset(p, fill, n); }
	explicit Buf(const std::string &hex) {
		if (hex[0] == 'z') {	// z<n>: n patterned bytes
			n = strtoull(hex.c_str() + 1, 0, 10);
			p = (uint8_t*)malloc(n ? n : 1);
			for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 7 + (i >> 8));
			return;
		}
		n = hex == "-" ? 0 : hex.size() / 2;
		p = (uint8_t*)malloc(n ? n : 1);
		for (size_t i = 0; i < n; i++) p[i] = (uint8_t)strtoul(hex.substr(2*i, 2).c_str(), 0, 16);
	}
	~Buf() { free(p); }
	Buf(const Buf&) = delete;
	std::string hex() const { return tohex(p, n); }
	static std::string tohex(const uint8_t *p, size_t n) {
		static const char *d = "0123456789abcdef";
		std::string s;
		for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
		return s.empty() ? std::string("-") : s;
	}
};
typedef std::vector<std::string> Toks;
std::string one(const Toks &t);
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		Toks t; std::string x;
		while (is >> x) t.push_back(x);
		std::string r = one(t);
		printf("\n=%s\n", r.c_str());
		fflush(stdout);
	}
	fflush(stdout);
	_exit(0);
}
