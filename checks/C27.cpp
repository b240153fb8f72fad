// C27: bit operations return what their definitions say for every word.
#define MC_MAIN
#include "mc.hpp"
#include <seq/bits.hpp>
#include <seq/internal/simd.hpp>
#include <functional>

namespace
{
	using mc::Enum;
	// ---- definitions, bit by bit
	unsigned d_pop(uint64_t x)
	{
		unsigned n = 0;
		for (; x; x >>= 1)
			n += unsigned(x & 1);
		return n;
	}
	unsigned d_low(uint64_t x)
	{
		unsigned i = 0;
		while (!((x >> i) & 1))
			++i;
		return i;
	}
	unsigned d_high(uint64_t x)
	{
		unsigned i = 63;
		while (!((x >> i) & 1))
			--i;
		return i;
	}
	unsigned d_nth(uint64_t x, unsigned n)
	{
		for (unsigned i = 0; i < 64; ++i)
			if ((x >> i) & 1)
				if (n-- == 0)
					return i;
		return 64;
	}
	uint64_t d_swap(uint64_t x, unsigned bytes)
	{
		uint64_t r = 0;
		for (unsigned i = 0; i < bytes; ++i)
			r |= ((x >> (8 * i)) & 0xFF) << (8 * (bytes - 1 - i));
		return r;
	}
	uint64_t d_rev(uint64_t x, unsigned bits)
	{
		uint64_t r = 0;
		for (unsigned i = 0; i < bits; ++i)
			if ((x >> i) & 1)
				r |= uint64_t(1) << (bits - 1 - i);
		return r;
	}
	unsigned d_digits(uint64_t x)
	{
		unsigned n = 1;
		while (x >= 10) {
			x /= 10;
			++n;
		}
		return n;
	}
	unsigned d_consec(uint64_t x, unsigned n)
	{
		for (unsigned i = 0; i + n <= 64; ++i) {
			bool ok = true;
			for (unsigned j = 0; j < n && ok; ++j)
				ok = (x >> (i + j)) & 1;
			if (ok)
				return i;
		}
		return unsigned(-1);
	}

	uint32_t rev32(uint32_t x)
	{
		static uint8_t t[256];
		static bool init = false;
		if (!init) {
			for (unsigned i = 0; i < 256; ++i)
				t[i] = uint8_t(d_rev(i, 8));
			init = true;
		}
		return uint32_t(t[x & 255]) << 24 | uint32_t(t[x >> 8 & 255]) << 16 | uint32_t(t[x >> 16 & 255]) << 8 | t[x >> 24];
	}
	void w8(uint8_t x)
	{
		CHECK(seq::popcnt8(x) == d_pop(x), "popcnt8(0x%x) = %u, not %u", x, unsigned(seq::popcnt8(x)), d_pop(x));
		if (x) {
			CHECK(seq::bit_scan_forward_8(x) == d_low(x), "bit_scan_forward_8(0x%x) = %u", x, unsigned(seq::bit_scan_forward_8(x)));
			CHECK(seq::bit_scan_reverse_8(x) == d_high(x), "bit_scan_reverse_8(0x%x) = %u", x, unsigned(seq::bit_scan_reverse_8(x)));
		}
		CHECK(seq::count_digits_base_10(x) == d_digits(x), "count_digits_base_10(%u) = %u", x, seq::count_digits_base_10(x));
		CHECK(seq::reverse_bits(x) == uint8_t(d_rev(x, 8)), "reverse_bits(uint8 0x%x)", x);
		CHECK(seq::reverse_bits(int8_t(x)) == int8_t(d_rev(x, 8)), "reverse_bits(int8 0x%x)", x);
	}
	void w16(uint16_t x)
	{
		CHECK(seq::popcnt16(x) == d_pop(x), "popcnt16(0x%x) = %u, not %u", x, unsigned(seq::popcnt16(x)), d_pop(x));
		CHECK(seq::byte_swap_16(x) == d_swap(x, 2), "byte_swap_16(0x%x) = 0x%x", x, unsigned(seq::byte_swap_16(x)));
		CHECK(seq::count_digits_base_10(x) == d_digits(x), "count_digits_base_10(%u) = %u", x, seq::count_digits_base_10(x));
		CHECK(seq::reverse_bits(x) == uint16_t(d_rev(x, 16)), "reverse_bits(uint16 0x%x)", x);
		CHECK(seq::reverse_bits(int16_t(x)) == int16_t(d_rev(x, 16)), "reverse_bits(int16 0x%x)", x);
	}
	inline void w32(uint32_t x)
	{
		CHECK(unsigned(seq::popcnt32(x)) == unsigned(__builtin_popcount(x)), "popcnt32(0x%x) = %u", x, unsigned(seq::popcnt32(x)));
		CHECK(unsigned(seq::detail::popcount32(x)) == unsigned(__builtin_popcount(x)), "popcount32(0x%x) = %u", x, unsigned(seq::detail::popcount32(x)));
		if (x) {
			unsigned f = seq::bit_scan_forward_32(x), r = seq::bit_scan_reverse_32(x);
			CHECK(f < 32 && (x >> f & 1) && (x & ((1u << f) - 1)) == 0, "bit_scan_forward_32(0x%x) = %u", x, f);
			CHECK(r < 32 && (x >> r) == 1, "bit_scan_reverse_32(0x%x) = %u", x, r);
		}
		uint32_t s = seq::byte_swap_32(x);
		CHECK(s == ((x >> 24) | ((x >> 8) & 0xFF00u) | ((x << 8) & 0xFF0000u) | (x << 24)), "byte_swap_32(0x%x) = 0x%x", x, s);
		uint32_t v = seq::reverse_bits(x);
		// reversing is an involution that moves the lowest set bit to the highest place
		CHECK(v == rev32(x), "reverse_bits(uint32 0x%x) = 0x%x", x, v);
		CHECK(seq::reverse_bits(int32_t(x)) == int32_t(v), "reverse_bits(int32 0x%x)", x);
		unsigned d = seq::count_digits_base_10(x);
		static const uint64_t p10[] = { 0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000ull };
		CHECK(d >= 1 && d <= 10 && (x >= p10[d - 1]) && x < p10[d], "count_digits_base_10(%u) = %u", x, d);
	}
	template<unsigned N>
	void consec(uint64_t x)
	{
		CHECK(seq::consecutive_N_bits<N>(size_t(x)) == d_consec(x, N), "consecutive_N_bits<%u>(0x%llx) = %u, not %u", N, static_cast<unsigned long long>(x),
		      seq::consecutive_N_bits<N>(size_t(x)), d_consec(x, N));
	}
	void w64(uint64_t x, bool deep)
	{
		unsigned long long X = x;
		unsigned pop = d_pop(x);
		CHECK(unsigned(seq::popcnt64(x)) == pop, "popcnt64(0x%llx) = %u", X, unsigned(seq::popcnt64(x)));
		CHECK(unsigned(seq::detail::popcount64(x)) == pop, "popcount64(0x%llx) = %u", X, unsigned(seq::detail::popcount64(x)));
		if (x) {
			unsigned lo = d_low(x), hi = d_high(x);
			CHECK(seq::bit_scan_forward_64(x) == lo, "bit_scan_forward_64(0x%llx) = %u", X, seq::bit_scan_forward_64(x));
			CHECK(seq::bit_scan_reverse_64(x) == hi, "bit_scan_reverse_64(0x%llx) = %u", X, seq::bit_scan_reverse_64(x));
			CHECK(seq::bit_scan_forward(size_t(x)) == lo, "bit_scan_forward(0x%llx)", X);
			CHECK(seq::bit_scan_reverse(size_t(x)) == hi, "bit_scan_reverse(0x%llx)", X);
		}
		CHECK(seq::byte_swap_64(x) == d_swap(x, 8), "byte_swap_64(0x%llx)", X);
		CHECK(seq::reverse_bits(x) == d_rev(x, 64), "reverse_bits(0x%llx)", X);
		CHECK(seq::reverse_bits(int64_t(x)) == int64_t(d_rev(x, 64)), "reverse_bits(int64 0x%llx)", X);
		CHECK(seq::count_digits_base_10(x) == d_digits(x), "count_digits_base_10(%llu) = %u", X, seq::count_digits_base_10(x));
		w32(uint32_t(x));
		const unsigned ns[] = { 0, 1, pop / 2, pop ? pop - 1 : 0, pop, pop + 1, 63, 64, 1000 };
		for (unsigned n : ns)
			CHECK(seq::nth_bit_set(x, n) == d_nth(x, n), "nth_bit_set(0x%llx, %u) = %u, not %u", X, n, seq::nth_bit_set(x, n), d_nth(x, n));
		if (deep) {
			for (unsigned n = 0; n < 66; ++n)
				CHECK(seq::nth_bit_set(x, n) == d_nth(x, n), "nth_bit_set(0x%llx, %u) = %u, not %u", X, n, seq::nth_bit_set(x, n), d_nth(x, n));
			consec<1>(x);
			consec<2>(x);
			consec<3>(x);
			consec<4>(x);
			consec<7>(x);
			consec<8>(x);
			consec<16>(x);
			consec<33>(x);
			consec<63>(x);
			consec<64>(x);
		}
	}
	void mul(uint64_t a, uint64_t b)
	{
		uint64_t lo = 1, hi = 2;
		seq::umul128(a, b, &lo, &hi);
		// schoolbook on 16-bit limbs
		uint64_t acc[8] = {};
		for (int i = 0; i < 4; ++i)
			for (int j = 0; j < 4; ++j) {
				uint64_t p = ((a >> (16 * i)) & 0xFFFF) * ((b >> (16 * j)) & 0xFFFF);
				acc[i + j] += p & 0xFFFF;
				acc[i + j + 1] += p >> 16;
			}
		uint64_t limb[8], c = 0;
		for (int i = 0; i < 8; ++i) {
			c += acc[i];
			limb[i] = c & 0xFFFF;
			c >>= 16;
		}
		uint64_t el = limb[0] | limb[1] << 16 | limb[2] << 32 | limb[3] << 48;
		uint64_t eh = limb[4] | limb[5] << 16 | limb[6] << 32 | limb[7] << 48;
		CHECK(lo == el && hi == eh, "umul128(0x%llx, 0x%llx) = 0x%llx:%llx, not 0x%llx:%llx", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b),
		      static_cast<unsigned long long>(hi), static_cast<unsigned long long>(lo), static_cast<unsigned long long>(eh), static_cast<unsigned long long>(el));
		// in-place use, as fast_rand does
		uint64_t s1 = a, s2 = b;
		seq::umul128(s1, s2, &s1, &s2);
		CHECK(s1 == el && s2 == eh, "umul128 in place (0x%llx, 0x%llx)", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
	}
	// every word made of at most one run of ones
	std::vector<uint64_t> runs1()
	{
		std::vector<uint64_t> r{ 0 };
		for (int i = 0; i < 64; ++i)
			for (int j = i; j < 64; ++j)
				r.push_back((~uint64_t(0) >> (63 - j)) & (~uint64_t(0) << i));
		return r;
	}
	// reads and writes at every offset of a guarded buffer
	void mem(uint64_t v, unsigned off)
	{
		unsigned char b[32];
		auto fill = [&] {
			for (int i = 0; i < 32; ++i)
				b[i] = static_cast<unsigned char>(0xA0 + i);
		};
		auto guard = [&](unsigned n, const char* w) {
			for (unsigned i = 0; i < 32; ++i)
				if (i < off || i >= off + n)
					CHECK(b[i] == static_cast<unsigned char>(0xA0 + i), "%s at offset %u wrote byte %u", w, off, i);
		};
		auto byte = [&](unsigned i) { return static_cast<unsigned char>(v >> (8 * i)); };
		fill();
		seq::write_LE_16(b + off, uint16_t(v));
		for (unsigned i = 0; i < 2; ++i)
			CHECK(b[off + i] == byte(i), "write_LE_16");
		guard(2, "write_LE_16");
		fill();
		seq::write_LE_32(b + off, uint32_t(v));
		for (unsigned i = 0; i < 4; ++i)
			CHECK(b[off + i] == byte(i), "write_LE_32");
		guard(4, "write_LE_32");
		fill();
		seq::write_LE_64(b + off, v);
		for (unsigned i = 0; i < 8; ++i)
			CHECK(b[off + i] == byte(i), "write_LE_64");
		guard(8, "write_LE_64");
		fill();
		seq::write_BE_64(b + off, v);
		for (unsigned i = 0; i < 8; ++i)
			CHECK(b[off + i] == byte(7 - i), "write_BE_64");
		guard(8, "write_BE_64");
		fill();
		seq::write_size_t(b + off, size_t(v));
		CHECK(memcmp(b + off, &v, sizeof(size_t)) == 0, "write_size_t");
		guard(8, "write_size_t");
		fill();
		for (unsigned i = 0; i < 8; ++i)
			b[off + i] = byte(i);
		CHECK(seq::read_LE_16(b + off) == uint16_t(v) && seq::read_16(b + off) == uint16_t(v), "read 16 at %u", off);
		CHECK(seq::read_LE_32(b + off) == uint32_t(v) && seq::read_32(b + off) == uint32_t(v), "read 32 at %u", off);
		CHECK(seq::read_LE_64(b + off) == v && seq::read_64(b + off) == v && seq::read_ptr_t(b + off) == v, "read 64 at %u", off);
		CHECK(seq::read_size_t(b + off) == v && seq::read_LE_size_t(b + off) == v, "read size_t at %u", off);
		CHECK(seq::read_BE_16(b + off) == d_swap(v & 0xFFFF, 2), "read_BE_16 at %u", off);
		CHECK(seq::read_BE_32(b + off) == d_swap(v & 0xFFFFFFFFu, 4), "read_BE_32 at %u", off);
		CHECK(seq::read_BE_64(b + off) == d_swap(v, 8) && seq::read_BE_size_t(b + off) == d_swap(v, 8), "read_BE_64 at %u", off);
	}
	template<size_t S>
	void sbsr()
	{
		size_t want = 0;
		while ((S >> want) > 1)
			++want;
		CHECK(seq::static_bit_scan_reverse<S>::value == want, "static_bit_scan_reverse<%zu> = %zu", S, size_t(seq::static_bit_scan_reverse<S>::value));
	}
	template<size_t... I>
	void sbsr_all(std::index_sequence<I...>)
	{
		(sbsr<I + 1>(), ...);
	}
	template<size_t... I>
	void sbsr_pow(std::index_sequence<I...>)
	{
		((sbsr<(size_t(1) << I)>(), sbsr<(size_t(2) << I) - 1>()), ...);
	}
}

int main(int argc, char** argv)
{
	using namespace mc;
	add_enum("every 8 and 16 bit word", [](Enum& e) {
		for (unsigned blk = 0; blk < 16; ++blk)
			if (e.begin("16 bit words %u * 4096", blk)) {
				for (unsigned i = 0; i < 4096; ++i)
					w16(uint16_t(blk * 4096 + i));
				e.evals(4096);
			}
		if (e.begin("8 bit words")) {
			for (unsigned i = 0; i < 256; ++i)
				w8(uint8_t(i));
			e.evals(256);
		}
	});
	add_enum("32 bit words", [](Enum& e) {
		if (e.thorough()) {
			for (uint64_t blk = 0; blk < 4096; ++blk)
				if (e.begin("every word of block %llu of 2^20", static_cast<unsigned long long>(blk))) {
					for (uint64_t i = 0; i < (1u << 20); ++i)
						w32(uint32_t(blk << 20 | i));
					e.evals(1u << 20);
				}
			return;
		}
		for (unsigned sh = 0; sh <= 16; ++sh)
			for (int inv = 0; inv < 2; ++inv)
				if (e.begin("16 bit pattern at %u %s", sh, inv ? "inverted" : "")) {
					for (uint32_t p = 0; p < 65536; ++p)
						w32(inv ? ~(p << sh) : (p << sh));
					e.evals(65536);
				}
	});
	add_enum("64 bit words", [](Enum& e) {
		unsigned step = e.thorough() ? 1 : 8;
		for (unsigned sh = 0; sh <= 48; sh += step)
			for (int inv = 0; inv < 2; ++inv)
				for (unsigned blk = 0; blk < 16; ++blk)
					if (e.begin("16 bit pattern block %u at %u %s", blk, sh, inv ? "inverted" : "")) {
						for (uint64_t p = blk * 4096; p < (blk + 1) * 4096; ++p)
							w64(inv ? ~(p << sh) : (p << sh), (p & 15) == 0);
						e.evals(4096);
					}
		// every word of at most two runs of ones, and of up to three set bits
		auto r = runs1();
		for (size_t i = 0; i < r.size(); ++i) {
			if (!e.begin("runs %zu", i))
				continue;
			w64(r[i], true);
			w64(~r[i], true);
			uint64_t n = 2;
			for (size_t j = i + 1; j < r.size(); ++j)
				if (e.thorough() || (i % 8 == 0) || (j % 8 == 0)) {
					w64(r[i] ^ r[j], (j & 31) == 0);
					++n;
				}
			e.evals(n);
		}
		for (unsigned a = 0; a < 64; ++a)
			if (e.begin("three bits %u", a)) {
				for (unsigned b = 0; b < a; ++b)
					for (unsigned c = 0; c <= b; ++c) {
						uint64_t x = uint64_t(1) << a | uint64_t(1) << b | uint64_t(1) << c;
						w64(x, false);
						w64(~x, false);
					}
				e.evals(a * a);
			}
		if (e.begin("around powers of ten and two")) {
			uint64_t n = 0;
			for (uint64_t p = 1;; p *= 10) {
				for (uint64_t m = 1; m < 10; ++m)
					for (int d = -3; d <= 3; ++d, ++n)
						w64(p * m + uint64_t(int64_t(d)), true);
				if (p == 10000000000000000000ull)
					break;
			}
			for (unsigned s = 0; s < 64; ++s)
				for (int d = -3; d <= 3; ++d, ++n)
					w64((uint64_t(1) << s) + uint64_t(int64_t(d)), true);
			e.evals(n);
		}
	});
	add_enum("128 bit products", [](Enum& e) {
		auto r = runs1();
		for (size_t i = 0; i < r.size(); ++i)
			if (e.begin("run %zu by every run", i)) {
				uint64_t n = 0;
				for (size_t j = 0; j < r.size(); ++j)
					if (e.thorough() || i % 4 == 0 || j % 4 == 0) {
						mul(r[i], r[j]);
						++n;
					}
				for (unsigned p = 0; p < 256; ++p) {
					mul(r[i], p * 0x0101010101010101ull);
					mul(~r[i], ~uint64_t(p) << 28);
					mul(p, r[i]);
				}
				e.evals(n);
			}
	});
	add_enum("unaligned reads and writes", [](Enum& e) {
		auto r = runs1();
		for (unsigned off = 0; off <= 24; ++off)
			if (e.begin("offset %u", off)) {
				for (uint64_t v : r)
					mem(v, off);
				for (unsigned b = 0; b < 256; ++b)
					for (unsigned k = 0; k < 8; ++k)
						mem(0x0807060504030201ull ^ (uint64_t(b) << (8 * k)), off);
				e.evals(r.size() + 2048);
			}
	});
	add_enum("compile time", [](Enum& e) {
		if (e.begin("static_bit_scan_reverse")) {
			sbsr_all(std::make_index_sequence<300>());
			sbsr_pow(std::make_index_sequence<63>());
			e.evals(426);
		}
	});
	return main_(argc, argv);
}
