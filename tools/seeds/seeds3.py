import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
L='src/libs/conduit/'
mkseed('s12','C08',[(L+'conduit_schema.cpp','''            Schema &cld_dest = s_dest.append();
            cld_src->compact_to(cld_dest,curr_offset);
            curr_offset += cld_dest.total_bytes_compact();
''','''            Schema &cld_dest = s_dest.append();
            cld_src->compact_to(cld_dest,curr_offset);
            curr_offset += cld_src->total_strided_bytes();
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 v[8]={0,1,2,3,4,5,6,7}; Node n; n.append().set_external(v,3,0,8); n.append().set_external(v+1,2);
 std::vector<uint8> d; n.serialize(d); Schema s; n.schema().compact_to(s); Node r; d.resize(d.size()+64); r.set_external(s,&d[0]);
 if(r[1].as_int32_ptr()[0]!=1) return 1; if(r[1].as_int32_ptr()[1]!=2) return 2; return 0; }''',
'a list with a strided child followed by another child','the compact schema of a list places later children by strided sizes, so they point past the serialized bytes')
mkseed('s13','C08',[(L+'conduit_node.cpp','''            // by definition it is contiguous, so we simply
            // advance the end pointer
            end_addy  = curr_addy + total_strided_bytes();
''','''            // by definition it is contiguous, so we simply
            // advance the end pointer
            end_addy  = curr_addy + total_bytes_compact();
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ int64 v[8]={0,1,2,3,4,5,6,7}; Node n; n["a"].set_external(v,2,0,16); n["b"].set_external(v+3,1); if(!n.is_contiguous()) return 1;
 Node m; m["a"].set_external(v,2,0,16); m["b"].set_external(v+2,1); if(m.is_contiguous()) return 2; return 0; }''',
'a tree whose first leaf is strided','contiguity is judged by the compact size of the first leaf: overlapping leaves are called contiguous and adjacent ones are not')
mkseed('s14','C08',[(L+'conduit_utils.cpp','''    // source and dest are compact
    if( dest_stride == ele_bytes && src_stride == ele_bytes)
    {''','''    // source and dest have the same layout
    if( dest_stride == src_stride )
    {''')],
'''#include "conduit.hpp"
#include <cstring>
using namespace conduit;
int main(){ int32 a[8]={1,2,3,4,5,6,7,8}, b[8]={0,0,0,0,0,0,0,0};
 utils::conduit_memcpy_strided_elements(b,3,4,8,a,8); int32 w[8]={1,0,3,0,5,0,0,0}; return memcmp(b,w,sizeof w)?1:0; }''',
'a strided element copy between two equally strided arrays','elements are taken as adjacent although both sides are strided: wrong elements are written and gaps overwritten')
