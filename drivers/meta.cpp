// The metadata-group operations under verification, one function per operation and kind of observation.
#include <cstdint>
#include <cstring>
#include <tpp/detail/swiss_table.hpp>
using namespace tpp::_detail;
using B = std::uint8_t;
using U = std::uint64_t;
#define OP extern "C"
static meta_block blk(const B *p) { return meta_block{reinterpret_cast<const meta_byte *>(p)}; }
/* the set of indices the mask enumerates; *dis says whether out of order */
static U all(index_mask m, bool *dis)
{
	U r = 0, last = 0;
	bool bad = false;
	for (U n = 0; !m.empty(); ++m, ++n)
	{
		const U i = m.lsb_index();
		bad |= (n != 0) & (i <= last);
		r |= U(1) << i;
		last = i;
	}
	*dis = bad;
	return r;
}
OP U op_size() { return sizeof(meta_block); }
OP U op_match_eq(const B *p, B h, bool *d) { return all(blk(p).match_eq(static_cast<meta_byte>(h)), d); }
OP U op_match_empty(const B *p, bool *d) { return all(blk(p).match_empty(), d); }
OP U op_match_available(const B *p, bool *d) { return all(blk(p).match_available(), d); }
OP bool op_no_eq(const B *p, B h) { return blk(p).match_eq(static_cast<meta_byte>(h)).empty(); }
OP bool op_no_empty(const B *p) { return blk(p).match_empty().empty(); }
OP bool op_no_available(const B *p) { return blk(p).match_available().empty(); }
OP U op_first_eq(const B *p, B h) { return blk(p).match_eq(static_cast<meta_byte>(h)).lsb_index(); }
OP U op_first_empty(const B *p) { return blk(p).match_empty().lsb_index(); }
OP U op_first_available(const B *p) { return blk(p).match_available().lsb_index(); }
OP U op_count_available(const B *p) { return blk(p).count_available(); }
OP void op_reset(const B *p, B *o) { auto x = blk(p).reset_occupied(); std::memcpy(o, &x.value, sizeof(x.value)); }
OP bool op_is_occupied(B b) { return is_occupied(static_cast<meta_byte>(b)); }
OP bool op_is_available(B b) { return is_available(static_cast<meta_byte>(b)); }
OP B op_code_empty() { return static_cast<B>(meta_byte::empty); }
OP B op_code_deleted() { return static_cast<B>(meta_byte::deleted); }
OP B op_code_sentinel() { return static_cast<B>(meta_byte::sentinel); }
OP U op_ctz32(std::uint32_t v) { return generic_ctz(v); }
OP U op_ctz64(U v) { return generic_ctz(v); }
OP U op_clz16(std::uint16_t v) { return generic_clz(v); }
OP U op_clz64(U v) { return generic_clz(v); }
OP U op_nctz64(U v) { return ctz(v); }
OP U op_nctz16(std::uint16_t v) { return ctz(v); }
OP U op_nclz64(U v) { return clz(v); }
OP U op_nclz16(std::uint16_t v) { return clz(v); }
