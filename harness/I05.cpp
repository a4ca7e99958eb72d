// PBT-SOURCES: PsiBase64.cpp Matrix.cpp PsimagLite.cpp Io/TypeToH5.cpp
// PBT-LIBS: hdf5
// PBT-QUICK: 2000000
// PBT-THOROUGH: 12000000
// PBT-RULE: a case encodes a generated byte string (0..200 bytes, all byte values) and compares with an independent bit-level encoder, decodes it back with and without padding, or decodes text with foreign characters;
// PBT-RULE: non-trivial = at least four bytes
#include "pbt.h"

#include "Io/IoNg.h"
#include "PsiBase64.h"
#include <unistd.h>
#include <memory>

typedef PsimagLite::PsiBase64 B64;

static const char* alphabet() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; }

// RFC 4648, one bit at a time
static std::string encodeRef(const std::string& s)
{
	std::string out;
	size_t      bits = 8 * s.size();
	for (size_t b = 0; b < bits; b += 6) {
		unsigned v = 0;
		for (size_t k = b; k < b + 6; ++k)
			v = 2 * v + ((k < bits) ? ((static_cast<unsigned char>(s[k / 8]) >> (7 - k % 8)) & 1) : 0);
		out += alphabet()[v];
	}
	while (out.size() % 4)
		out += '=';
	return out;
}

static int valueOf(char ch)
{
	for (int i = 0; i < 64; ++i)
		if (alphabet()[i] == ch)
			return i;
	return -1;
}

// the bytes of the longest prefix of alphabet characters
static std::string decodeRef(const std::string& s)
{
	std::string out;
	unsigned    acc = 0, nbits = 0;
	for (char ch : s) {
		int v = valueOf(ch);
		if (v < 0)
			break;
		acc = (acc << 6) | v;
		nbits += 6;
		if (nbits >= 8) {
			nbits -= 8;
			out += static_cast<char>((acc >> nbits) & 255);
			acc &= (1u << nbits) - 1;
		}
	}
	return out;
}

static std::string bytes(pbt::Ctx& c)
{
	std::string s;
	size_t      n    = c.chance(1, 10) ? c.skew(0, 2000) : c.skew(0, 40);
	unsigned    mode = c.below(3);
	std::unique_ptr<pbt::Ctx::Bulk> bulk;
	if (c.chance(1, 2000)) {
		n = c.range(2001, 200000);
		bulk.reset(new pbt::Ctx::Bulk(c));
		c.label("long text");
	}
	for (size_t i = 0; i < n; ++i)
		s += static_cast<char>(mode == 0 ? c.below(256) : mode == 1 ? 32 + c.below(95) : c.pickOf<unsigned>({ 0u, 255u, 128u, 127u, 61u, 43u }));
	return s;
}

PROP(roundTrip, 3)
{
	std::string s = bytes(c);
	DESC(s.size() << " bytes");
	if (s.size() >= 4)
		c.nontrivial();
	c.label("length modulo three is " + std::to_string(s.size() % 3));
	std::string expected = encodeRef(s);
	B64::Encode e(s);
	CHECK(e() == expected, "encoded as " << e() << " instead of " << expected);
	B64::Encode e2(reinterpret_cast<const unsigned char*>(s.data()), s.size());
	CHECK(e2() == expected, "encoded from memory as " << e2() << " instead of " << expected);
	B64::Decode d(expected);
	CHECK(d() == s, "decoding " << expected << " does not give the original bytes");
	std::string bare = expected.substr(0, expected.find('='));
	B64::Decode d2(bare);
	CHECK(d2() == s, "decoding " << bare << " without padding does not give the original bytes");
	std::ostringstream os;
	os << e;
	CHECK(os.str() == "#InputStartsHere\n" + expected + "\n#InputEndsHere\n", "framed output: " << os.str());
	if (c.chance(1, 1000)) { // what is kept in a file
		c.label("written to a file");
		std::string file = pbt::scratch() + "/i5.h5";
		{
			PsimagLite::IoNg::Out out(file, PsimagLite::IoNg::ACC_TRUNC);
			e.write("text", out.serializer());
		}
		PsimagLite::String got("garbage");
		{
			PsimagLite::IoNg::In in(file);
			in.read(got, "text");
		}
		unlink(file.c_str());
		CHECK(got == expected, "kept in a file as " << got << " instead of " << expected);
	}
}

PROP(foreignText, 2)
{
	std::string s;
	size_t      n = c.skew(0, 60);
	for (size_t i = 0; i < n; ++i)
		s += c.chance(1, 12) ? static_cast<char>(c.below(256)) : alphabet()[c.below(64)];
	DESC("text " << s);
	if (n >= 4)
		c.nontrivial();
	B64::Decode d(s);
	std::string expected = decodeRef(s);
	c.labelIf(expected.size() != s.size() * 6 / 8, "foreign characters");
	CHECK(d() == expected, "decoding gives " << d().size() << " bytes or other bytes, instead of " << expected.size());
}

PBT_MAIN
