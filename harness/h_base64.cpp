// R03: Base64 against a bit-level RFC 4648 reference, on exhaustively enumerated byte strings and texts.
#include "mc.h"
#include "graphqlservice/internal/Base64.h"
#include <memory>
#include <optional>
using graphql::internal::Base64;
using Bytes = std::vector<uint8_t>;

static const char* const ALPH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string refEncode(const Bytes& b)
{
	std::string bits, o;
	for (auto c : b)
		for (int i = 7; i >= 0; --i) bits += ((c >> i) & 1) ? '1' : '0';
	while (bits.size() % 6) bits += '0';
	for (size_t i = 0; i < bits.size(); i += 6) o += ALPH[std::stoi(bits.substr(i, 6), nullptr, 2)];
	while (o.size() % 4) o += '=';
	return o;
}

// Complete quantums; the final one may be padded or left unpadded; unused bits are zero.
static std::optional<Bytes> refDecode(const std::string& t)
{
	size_t n = t.size();
	while (n > 0 && t[n - 1] == '=') --n;
	size_t pad = t.size() - n;
	if (n % 4 == 1) return {};
	if (pad && (pad > 2 || (n + pad) % 4)) return {};
	std::vector<bool> bits;
	for (size_t i = 0; i < n; ++i)
	{
		const char* p = t[i] ? std::strchr(ALPH, t[i]) : nullptr;
		if (!p) return {};
		int v = static_cast<int>(p - ALPH);
		for (int k = 5; k >= 0; --k) bits.push_back((v >> k) & 1);
	}
	Bytes o;
	size_t i = 0;
	for (; i + 8 <= bits.size(); i += 8)
	{
		int v = 0;
		for (int k = 0; k < 8; ++k) v = v * 2 + bits[i + k];
		o.push_back(static_cast<uint8_t>(v));
	}
	for (; i < bits.size(); ++i)
		if (bits[i]) return {};
	return o;
}

static std::string hex(std::string_view s)
{
	std::string o;
	char b[4];
	for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); o += b; }
	return o;
}

static void bytesCase(mc::Ctx& c, const Bytes& b)
{
	if (!c.begin("encode " + hex({ reinterpret_cast<const char*>(b.data()), b.size() }))) return;
	++c.states;
	c.transitions += 2;
	++c.traces;
	try
	{
		auto t = Base64::toBase64(b);
		if (t != refEncode(b)) c.fail("encode", "got " + t + " expected " + refEncode(b));
		if (Base64::fromBase64(t) != b) c.fail("roundtrip", "decode(encode(x)) != x");
	}
	catch (const std::exception& ex) { c.fail("encode-throws", ex.what()); }
	if ((c.idx & 1023) == 0) c.outcome("len" + std::to_string(b.size()));
}

static void textCase(mc::Ctx& c, const std::string& t)
{
	if (!c.begin("decode " + hex(t))) return;
	++c.states;
	++c.transitions;
	++c.traces;
	// exact-size heap copy, no terminator: ASan reports any read past either end
	std::unique_ptr<char[]> p(new char[t.size()]);
	std::memcpy(p.get(), t.data(), t.size());
	auto want = refDecode(t);
	std::optional<Bytes> got;
	try { got = Base64::fromBase64(std::string_view { p.get(), t.size() }); }
	catch (const std::exception&) {}
	if (got.has_value() != want.has_value())
		c.fail(got ? "accepts-malformed" : "rejects-wellformed", "text '" + t + "'");
	else if (got && *got != *want) c.fail("decode-value", "text '" + t + "'");
	c.outcome(got ? "accept" + std::to_string(got->size()) : "reject" + std::to_string(t.size()));
}

static void base64(mc::Ctx& c)
{
	// all byte strings up to length 2, and longer ones over boundary bytes
	if (c.mine()) bytesCase(c, {});
	for (int a = 0; a < 256; ++a)
	{
		if (!c.mine()) continue;
		bytesCase(c, { uint8_t(a) });
		for (int b = 0; b < 256; ++b)
		{
			bytesCase(c, { uint8_t(a), uint8_t(b) });
			if (c.thorough)
				for (int d = 0; d < 256; d += 1) bytesCase(c, { uint8_t(a), uint8_t(b), uint8_t(d) });
			else
				for (int d : { 0, 1, 0x3f, 0x40, 0x80, 0xff }) bytesCase(c, { uint8_t(a), uint8_t(b), uint8_t(d) });
		}
	}
	const std::vector<uint8_t> B { 0x00, 0x01, 0x3f, 0x7f, 0xfb, 0xff };
	int maxlen = c.thorough ? 8 : 7;
	std::function<void(Bytes&)> rec = [&](Bytes& s) {
		if (s.size() >= 4) bytesCase(c, s);
		if (int(s.size()) == maxlen) return;
		for (size_t i = 0; i < B.size(); ++i)
		{
			if (s.size() == 1 && !c.mine()) continue;
			s.push_back(B[i]);
			rec(s);
			s.pop_back();
		}
	};
	Bytes s;
	rec(s);
	// every text up to length L over a class-covering alphabet
	const std::string A("AQgw/=+9z-\0\xff", 12);
	int L = c.thorough ? 7 : 6;
	std::function<void(std::string&)> trec = [&](std::string& t) {
		textCase(c, t);
		if (int(t.size()) == L) return;
		for (char ch : A)
		{
			if (t.size() == 1 && !c.mine()) continue;
			t += ch;
			trec(t);
			t.pop_back();
		}
	};
	std::string t;
	trec(t);
	// every byte value at every position of texts of length 1..9, next to different neighbours
	for (std::string base : { "A", "QQ", "QQ=", "QUI", "QQ==", "QUI=", "QUJD", "QUJDQ", "QUJDQQ", "QUJDQQ==", "QUJDQUI=", "QUJDQUJD", "QUJDQUJDQ", "QUJDQUJDQQ==" })
		for (size_t i = 0; i < base.size(); ++i)
			for (int ch = 0; ch < 256; ++ch)
			{
				if (!c.mine()) continue;
				auto x = base;
				x[i] = static_cast<char>(ch);
				textCase(c, x);
				for (size_t j = i + 1; j < base.size(); ++j)
					for (char ch2 : A)
					{
						auto y = x;
						y[j] = ch2;
						textCase(c, y);
					}
			}
	// longer texts: five kinds of character, eight positions
	const std::string A2("Qg=A*", 5);
	std::function<void(std::string&)> lrec = [&](std::string& u) {
		if (u.size() >= 7) textCase(c, u);
		if (u.size() == (c.thorough ? 10u : 8u)) return;
		for (char ch : A2)
		{
			if (u.size() == 2 && !c.mine()) continue;
			u += ch;
			lrec(u);
			u.pop_back();
		}
	};
	std::string u;
	lrec(u);
	// long ones: every length up to 300 and around powers of two; one byte or character that differs at every place
	for (int n = 1; n <= (c.thorough ? 2100 : 300); n += n < 300 || n % 64 < 2 || n % 64 > 61 ? 1 : 7)
	{
		if (!c.mine()) continue;
		for (int k = 0; k < 4; ++k)
		{
			Bytes x(n);
			for (int i = 0; i < n; ++i) x[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? uint8_t(i * 37 + n) : uint8_t(i * i + 3 * i);
			bytesCase(c, x);
			auto good = refEncode(x);
			textCase(c, good);
			if (k != 2) continue;
			for (int i : mc::places(static_cast<int>(good.size())))
				for (char ch : { '=', '*', 'A', '\n', '\xff' })
				{
					auto y = good;
					y[i] = ch;
					textCase(c, y);
				}
			for (size_t cut = 1; cut <= 4 && cut < good.size(); ++cut) textCase(c, good.substr(0, good.size() - cut));
			for (auto* more : { "=", "==", "A", "QQ==", "====" }) textCase(c, good + more);
		}
	}
	// the character tables
	if (c.shard == 0 && c.begin("tables"))
	{
		for (int i = 0; i < 256; ++i)
		{
			const char* p = i ? std::strchr(ALPH, i) : nullptr;
			uint8_t want = p ? uint8_t(p - ALPH) : 0xFF;
			if (Base64::fromBase64(static_cast<char>(i)) != want) c.fail("table-decode", std::to_string(i));
			char wc = i < 64 ? ALPH[i] : '=';
			if (Base64::toBase64(static_cast<uint8_t>(i)) != wc) c.fail("table-encode", std::to_string(i));
		}
		c.states += 512;
		c.transitions += 512;
	}
}

MC_MAIN({ { "base64", base64 } })
