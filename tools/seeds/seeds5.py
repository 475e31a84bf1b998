import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'
mkseed('s18','C07',[(L+'conduit_node.cpp','''    init(DataType::float32(data.number_of_elements()));
    const DataType dest_dtype = dtype();
    const DataType src_dtype  = data.dtype();
    utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
            (size_t)src_dtype.number_of_elements(),  // num eles to copy
            (size_t)dest_dtype.element_bytes(),      // bytes per element
            (size_t)dest_dtype.stride(),             // dest stride per ele
''','''    init(DataType::float32(data.number_of_elements()));
    const DataType dest_dtype = dtype();
    const DataType src_dtype  = data.dtype();
    utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
            (size_t)src_dtype.number_of_elements(),  // num eles to copy
            (size_t)dest_dtype.element_bytes(),      // bytes per element
            (size_t)dest_dtype.element_bytes(),      // dest stride per ele
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ float32 d[6]={9,9,9,9,9,9}, s[3]={1,2,3}; Node n; n.set_external(d,3,0,8); n.set(float32_array(s,DataType::float32(3)));
 return (d[0]==1&&d[1]==9&&d[2]==2&&d[3]==9&&d[4]==3)?0:1; }''','a float32 array view set onto a node whose compatible float32 data is strided','the elements land between the described ones')
mkseed('s19','C07',[(L+'conduit_node.cpp','''    set(uint16_array(data,DataType::uint16(num_elements,
                                           offset,
                                           stride,
''','''    set(uint16_array(data,DataType::uint16(num_elements,
                                           stride > element_bytes ? 0 : offset,
                                           stride,
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ uint16 s[6]={1,2,3,4,5,6}; Node n; n.set(s,3,2,4); const uint16 *p=n.as_uint16_ptr(); return (p[0]==2&&p[1]==4&&p[2]==6)?0:1; }''','a strided uint16 source with a nonzero offset','the offset of the source is ignored')

S=open('/repo/'+L+'conduit_node.cpp').read()
def infn(sig, old, new):
    i=S.index(sig); j=S.index('\n}\n', i); assert S[i:j].count(old)==1; return (S[i:j], S[i:j].replace(old,new))
o,n=infn('Node::to_int64() const','case DataType::UINT32_ID: return (int64)as_uint32();','case DataType::UINT32_ID: return (int64)(int32)as_uint32();')
mkseed('s20','C12',[(L+'conduit_node.cpp',o,n)],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node n; n.set((uint32)4000000000u); return n.to_int64()==4000000000ll?0:1; }''','a uint32 leaf above 2^31 converted to int64','the conversion goes through a signed 32-bit integer')
o,n=infn('Node::as_uint16_accessor() const','uint16_accessor(m_data,dtype())','uint16_accessor(element_ptr(0),dtype())')
mkseed('s21','C12',[(L+'conduit_node.cpp',o,n)],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 d[8]={1,2,3,4,5,6,7,8}; Node n; n.set_external(d,3,4,4); const Node &c=n; uint16_accessor a=c.as_uint16_accessor(); return a[0]==2&&a[1]==3&&a[2]==4?0:1; }''','a leaf with a nonzero offset read through a uint16 accessor','the offset is applied twice')
