import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
L='src/libs/conduit/'
mkseed('s01','C01',[(L+'conduit_data_type.cpp','''             (m_offset    == dtype.m_offset) &&
             (m_stride    == dtype.m_stride) &&''','''             (m_offset    == dtype.m_offset) &&
             (strided_bytes() == dtype.strided_bytes()) &&''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ DataType a(DataType::INT32_ID,1,0,4,4,Endianness::DEFAULT_ID), b(DataType::INT32_ID,1,0,16,4,Endianness::DEFAULT_ID);
 if(a.equals(b)) return 1; if(!a.equals(a)) return 2; return 0; }''','two single-element descriptions differing only in stride','equality of leaf descriptions ignores the stride when there is one element')
mkseed('s03','C03',[(L+'conduit_node.cpp','''                for(index_t i=0;i<num_ele;i++)
                    Endianness::swap64(element_ptr(i));''','''                uint8 *ele = (uint8*)element_ptr(0);
                for(index_t i=0;i<num_ele;i++, ele += ele_bytes)
                    Endianness::swap64(ele);''')],
'''#include "conduit.hpp"
#include <cstring>
using namespace conduit;
int main(){ uint64 d[6]={1,2,3,4,5,6}, e[6]={1,2,3,4,5,6}; Node n; n.set_external(DataType::uint64(3,0,16),d);
 n.endian_swap(Endianness::machine_default()==Endianness::LITTLE_ID?Endianness::BIG_ID:Endianness::LITTLE_ID);
 for(int i=0;i<6;i+=2) Endianness::swap64(&e[i]); return memcmp(d,e,sizeof d)?1:0; }''','a strided 8-byte leaf','byte order change walks contiguously, so it swaps the gaps of a strided leaf')
mkseed('s04','C04',[(L+'conduit_data_array.cpp','''DataArray<T>::set(const DataAccessor<uint64> &values)
{
    index_t num_elems = std::min(m_dtype.number_of_elements(),
                                 values.number_of_elements());
    for(index_t i=0; i <num_elems; i++)
    {
        this->element(i) = (T)values[i];''','''DataArray<T>::set(const DataAccessor<uint64> &values)
{
    index_t num_elems = std::min(m_dtype.number_of_elements(),
                                 values.number_of_elements());
    for(index_t i=0; i <num_elems; i++)
    {
        this->element(i) = (T)(int64)values[i];''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ uint64 s[2]={18446744073709549568ull,3}; float64 d[2]; uint64_accessor a(s,DataType::uint64(2)); float64_array o(d,DataType::float64(2)); o.set(a);
 return (d[0]==(float64)s[0]&&d[1]==3.0)?0:1; }''','an unsigned 64-bit source value above 2^63 and a floating destination','conversion goes through a signed integer')
mkseed('s05','C05',[(L+'conduit_data_accessor.cpp','''            return (T)(*(uint32*)(element_ptr(idx)));''','''            return (T)(*(int32*)(element_ptr(idx)));''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ uint32 s[1]={0xF0000000u}; int64_accessor a(s,DataType::uint32(1)); return a[0]==0xF0000000ll?0:1; }''','an unsigned 32-bit element above 2^31 read as a wider type','converting read sign-extends an unsigned element')
mkseed('s06','C06',[(L+'conduit_data_array.cpp','''DataArray<T>::mean() const
{
    float64 res =0;
    for(index_t i = 0; i < number_of_elements(); i++)
    {
        const T &val = element(i);
        res += val;
    }

    res =''','''DataArray<T>::mean() const
{
    float64 res = (float64) sum();

    res =''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ int8 v[3]={100,100,100}; int8_array a(v,DataType::int8(3)); return a.mean()==100.0?0:1; }''','an array whose sum does not fit its element type','the mean is computed from a wrapped sum')
mkseed('s07','C06',[(L+'conduit_data_accessor.cpp','''    T res = std::numeric_limits<T>::lowest();''','''    T res = std::numeric_limits<T>::min();''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ float64 v[3]={-3,-2,-5}; float64_accessor a(v,DataType::float64(3)); return a.max()==-2.0?0:1; }''','a floating array with only negative values','the maximum starts from the smallest positive value')
mkseed('s08','C04',[(L+'conduit_data_array.cpp','''DataArray<T>::fill(uint16 value)
{''','''DataArray<T>::fill(uint16 value)
{
    if(m_dtype.stride() > 0 && m_dtype.stride() % m_dtype.element_bytes() == 0 && m_dtype.number_of_elements() > 1)
    {
        index_t step = m_dtype.stride() / m_dtype.element_bytes();
        T *ptr = &element(0);
        for(index_t i = 0; i < m_dtype.strided_bytes() / m_dtype.element_bytes(); i += step) ptr[i] = (T)value;
        return;
    }''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 v[8]={-1,-1,-1,-1,-1,-1,-1,-1}; int32_array a(v,DataType::int32(3,0,8)); a.fill((uint16)7);
 return (v[0]==7&&v[1]==-1&&v[2]==7&&v[3]==-1&&v[4]==7&&v[5]==-1&&v[6]==-1)?0:1; }''','x','x')
