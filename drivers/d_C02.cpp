#include "drv.hpp"
using namespace conduit; using namespace drv;
int main(int argc, char **argv) {
    init(argc, argv);
    const char *N[14] = {"empty","object","list","int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64","char8_str"};
    for (int i = 0; i < 14; i++) { where("type", "%d", i); CHECK(DataType::name_to_id(N[i]) == i && DataType::id_to_name(i) == N[i] && DataType(i, 1).name() == N[i], "type name %s", N[i]); }
    for (int i : {-5, -1, 14, 15, 99}) { where("type", "%d", i); CHECK(DataType::id_to_name(i) == "empty", "unknown id"); }
    const char *E[3] = {"default", "big", "little"};
    for (int i = 0; i < 3; i++) { where("endian", "%d", i); CHECK(Endianness::name_to_id(E[i]) == i && Endianness::id_to_name(i) == E[i], "byte order %s", E[i]); }
    for (const char *s : {"", "Big", "LITTLE", "int", "int3", "int88", "Int8", "uint", "float", "float3", "char8", "char8_strx", "objects", " int8", "int8 ", "uint32x"}) { where("unknown", "%s", s); CHECK(DataType::name_to_id(s) == 0 && Endianness::name_to_id(s) == 0, "unknown name %s", s); }
    struct { const char *n; int id; } C[] = {{"char",3},{"short",4},{"int",5},{"long",6},{"signed char",3},{"signed short",4},{"signed int",5},{"signed long",6},{"unsigned char",7},{"unsigned short",8},{"unsigned int",9},{"unsigned long",10},{"float",11},{"double",12},{"char8_str",13}};
    for (auto &c : C) { where("ctype", "%s", c.n); CHECK(DataType::c_type_name_to_id(c.n) == c.id, "C type name %s", c.n); }
    uint16_t probe = 1; bool little = *(unsigned char *)&probe; where("machine", "x"); CHECK(Endianness::machine_default() == (little ? 2 : 1) && Endianness::machine_is_little_endian() == little && Endianness::machine_is_big_endian() == !little, "machine byte order");
    return done();
}
