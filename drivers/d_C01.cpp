
#include "drv.hpp"
using namespace conduit; using namespace drv;
static const int NB[14] = {0,0,0,1,2,4,8,1,2,4,8,4,8,1};
static void one(index_t id, index_t n, index_t off, index_t st, index_t eb, index_t en)
{
    where("layout", "id=%ld n=%ld offset=%ld stride=%ld ele_bytes=%ld endianness=%ld", (long)id, (long)n, (long)off, (long)st, (long)eb, (long)en);
    DataType d(id, n, off, st, eb, en);
    CHECK(d.id() == id && d.number_of_elements() == n && d.offset() == off && d.stride() == st && d.element_bytes() == eb && d.endianness() == en, "constructor or accessor changed a field");
    long sb = n >= 1 ? st * (n - 1) + eb : 0;
    CHECK(d.strided_bytes() == sb, "strided_bytes %ld, expected %ld", (long)d.strided_bytes(), sb);
    CHECK(d.spanned_bytes() == off + sb, "spanned_bytes %ld, expected %ld", (long)d.spanned_bytes(), off + sb);
    CHECK(d.bytes_compact() == NB[id] * n, "bytes_compact %ld", (long)d.bytes_compact());
    CHECK(d.is_compact() == (id >= 3 && off + sb == NB[id] * n), "is_compact %d", (int)d.is_compact());
    for (index_t i : {(index_t)0, (index_t)1, (index_t)2, n - 1, n, (index_t)7919}) CHECK(d.element_index(i) == off + st * i, "element_index(%ld) = %ld", (long)i, (long)d.element_index(i));
    CHECK(DataType::default_bytes(id) == NB[id], "default_bytes");
    CHECK(d.is_empty() == (id == 0) && d.is_object() == (id == 1) && d.is_list() == (id == 2) && d.is_number() == (id >= 3 && id <= 12) && d.is_floating_point() == (id == 11 || id == 12)
          && d.is_integer() == (id >= 3 && id <= 10) && d.is_signed_integer() == (id >= 3 && id <= 6) && d.is_unsigned_integer() == (id >= 7 && id <= 10) && d.is_string() == (id == 13)
          && d.is_char8_str() == (id == 13), "type classification");
    CHECK(d.is_int8() == (id == 3) && d.is_int16() == (id == 4) && d.is_int32() == (id == 5) && d.is_int64() == (id == 6) && d.is_uint8() == (id == 7) && d.is_uint16() == (id == 8)
          && d.is_uint32() == (id == 9) && d.is_uint64() == (id == 10) && d.is_float32() == (id == 11) && d.is_float64() == (id == 12) && d.is_index_t() == (id == 6), "exact type predicates");
    CHECK(d.is_char() == (id == 3) && d.is_short() == (id == 4) && d.is_int() == (id == 5) && d.is_long() == (id == 6) && d.is_signed_char() == (id == 3) && d.is_signed_short() == (id == 4)
          && d.is_signed_int() == (id == 5) && d.is_signed_long() == (id == 6) && d.is_unsigned_char() == (id == 7) && d.is_unsigned_short() == (id == 8) && d.is_unsigned_int() == (id == 9)
          && d.is_unsigned_long() == (id == 10) && d.is_float() == (id == 11) && d.is_double() == (id == 12), "native type predicates");
    CHECK(d.is_little_endian() == (en != 1) && d.is_big_endian() == (en == 1) && d.endianness_matches_machine() == (en != 1), "byte order predicates");
    DataType c; d.compact_to(c);
    CHECK(c.id() == id && c.number_of_elements() == n && c.offset() == 0 && c.stride() == NB[id] && c.element_bytes() == NB[id] && c.endianness() == en, "compact_to");
    DataType q(d), r; r = d; DataType s; s.set(d); DataType t; t.set(id, n, off, st, eb, en);
    CHECK(q.equals(d) && r.equals(d) && s.equals(d) && t.equals(d), "copies differ");
    for (int k = 0; k < 6; k++) {
        long f[6] = {id, n, off, st, eb, en}; f[k] += (k == 0 ? (f[0] < 13 ? 1 : -1) : 1);
        DataType o(f[0], f[1], f[2], f[3], f[4], f[5]);
        CHECK(!d.equals(o) && !o.equals(d), "equals ignores field %d", k);
        bool w = id == f[0] && eb == f[4] && n >= f[1], w2 = id == f[0] && eb == f[4] && f[1] >= n;
        CHECK(d.compatible(o) == w && o.compatible(d) == w2, "compatible with field %d changed", k);
    }
    DataType z(d);
    z.set_offset(off + 5); CHECK(z.offset() == off + 5 && z.stride() == st, "set_offset"); z.set_stride(st + 3); CHECK(z.stride() == st + 3 && z.offset() == off + 5 && z.element_bytes() == eb, "set_stride");
    z.set_element_bytes(eb + 1); z.set_number_of_elements(n + 2); z.set_endianness(1); z.set_id(7);
    CHECK(z.id() == 7 && z.number_of_elements() == n + 2 && z.offset() == off + 5 && z.stride() == st + 3 && z.element_bytes() == eb + 1 && z.endianness() == 1, "setters");
    z.reset(); CHECK(z.id() == 0 && z.number_of_elements() == 0 && z.offset() == 0 && z.stride() == 0 && z.element_bytes() == 0 && z.endianness() == 0, "reset");
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (int id = 0; id < 14; id++) for (int n = 0; n <= 6; n++) for (int off : {0, 1, 8, 24}) for (int st : {0, 1, 2, 4, 8, 12, 16, 40}) for (int eb : {1, 2, 4, 8}) for (int en : {0, 1, 2}) one(id, n, off, st, eb, en);
    for (int k = 0; k < 20000 * effort; k++) { int id = ri(0, 13); one(id, ri(0, 1 << 20), ri(0, 1) ? 0 : ri(0, 1L << 40), ri(0, 1) ? NB[id] : ri(0, 1 << 20), ri(0, 2) ? NB[id] : ri(0, 16), ri(0, 2)); }
#define FAC(name, ID) { where("factory." #name, #name); DataType d = DataType::name(3, 8, 24, 16, 1); CHECK(d.id() == ID && d.number_of_elements() == 3 && d.offset() == 8 && d.stride() == 24 && d.element_bytes() == 16 && d.endianness() == 1, "factory " #name); }
    FAC(int8, 3) FAC(int16, 4) FAC(int32, 5) FAC(int64, 6) FAC(uint8, 7) FAC(uint16, 8) FAC(uint32, 9) FAC(uint64, 10) FAC(float32, 11) FAC(float64, 12) FAC(char8_str, 13) FAC(index_t, 6)
    FAC(c_char, 3) FAC(c_short, 4) FAC(c_int, 5) FAC(c_long, 6) FAC(c_signed_char, 3) FAC(c_unsigned_char, 7) FAC(c_unsigned_short, 8) FAC(c_unsigned_int, 9) FAC(c_unsigned_long, 10) FAC(c_float, 11) FAC(c_double, 12)
    for (int id = 3; id <= 12; id++) { where("default_dtype", "id=%d", id); DataType d = DataType::default_dtype(id); CHECK(d.id() == id && d.number_of_elements() == 1 && d.offset() == 0 && d.stride() == NB[id] && d.element_bytes() == NB[id], "default_dtype"); }
    return done();
}
