import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'; B='src/libs/blueprint/'
BP='-lconduit -lconduit_blueprint'
mkseed('s24','C14',[(B+'conduit_blueprint_o2mrelation_iterator.cpp','''            pindex = index(m_one_index - 1, elements(m_one_index - 1, MANY), DATA);''','''            pindex = index(m_one_index - 1, elements(m_one_index, MANY), DATA);''')],
r'''#include "conduit.hpp"
#include "conduit_blueprint.hpp"
using namespace conduit;
int main(){ Node n; n["data"].set({10.,11.,12.,13.,14.,15.}); n["sizes"].set({3,1,2}); n["offsets"].set({0,3,4});
 blueprint::o2mrelation::O2MIterator it(n); std::vector<index_t> f;
 while(it.has_next(blueprint::o2mrelation::DATA)) { it.next(blueprint::o2mrelation::DATA); if(it.has_previous(blueprint::o2mrelation::DATA)) f.push_back(it.peek_previous(blueprint::o2mrelation::DATA)); }
 return f==std::vector<index_t>{0,1,2,3,4} ? 0:1; }''','looking back from the first entry of a one to a one of another size','peek_previous names an entry that previous would not move to',BP)
mkseed('s25','C14',[(B+'conduit_blueprint_mcarray.cpp','''        // update the offset for the next component
        curr_offset += elem_bytes;
    }''','''        // update the offset for the next component
        curr_offset += (stride / src.number_of_children());
    }''')],
r'''#include "conduit.hpp"
#include "conduit_blueprint.hpp"
using namespace conduit;
int main(){ Node n,d; n["a"].set(std::vector<int8>{1,2}); n["b"].set(std::vector<float64>{3,4}); n["c"].set(std::vector<int16>{5,6});
 blueprint::mcarray::to_interleaved(n,d);
 Node i; bool bad=d.diff(n,i,0.0);
 for(int k=0;k<2;k++) bad = bad || d["a"].as_int8_array()[k]!=k+1 || d["b"].as_float64_array()[k]!=k+3 || d["c"].as_int16_array()[k]!=k+5;
 return (bad || !blueprint::mcarray::is_interleaved(d)) ? 1:0; }''','components of different element sizes interleaved','the interleaved components overlap, so one component overwrites bytes of another',BP)
mkseed('s26','C15',[(L+'conduit_node.cpp','''        // for leaf types, use update_external
        this->set_external(n_src);''','''        // for leaf types, use update_external
        // (a leaf that already is an external view of this shape is kept)
        if(m_alloced || m_data == NULL || !dtype().equals(n_src.dtype()))
        {
            this->set_external(n_src);
        }''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 v=7,w=8; Node s,t,d; s["a"].set_external(&v,1); t["a"].set_external(&w,1); d.update_external(s); d.update_external(t);
 return d["a"].data_ptr()==&w ? 0:1; }''','updating twice with equally shaped sources','the leaf stays a view of the first source')
mkseed('s27','C15',[(L+'conduit_node.cpp','''        if( (this->dtype().id() == n_src.dtype().id()) &&
                 (this->dtype().number_of_elements() >=
                   n_src.dtype().number_of_elements()))
        {
            size_t ele_bytes  = (size_t) dtype().element_bytes();
            size_t stride     = (size_t) dtype().stride();
            size_t num_ele    = (size_t) n_src.dtype().number_of_elements();
            size_t src_stride = (size_t) n_src.dtype().stride();
            //
            // Note: conduit_memcpy_strided_elements will use a single
            // memcpy when src and dest are compactly  strided
            utils::conduit_memcpy_strided_elements(element_ptr(0),       // dest ptr
                                                   num_ele,              // num ele
                                                   ele_bytes,            // dest bytes per ele
                                                   stride,               // dest stride
                                                   n_src.element_ptr(0), // src ptr
                                                   src_stride);          // src stride
        }
    }
}
''','''        if( (this->dtype().id() == n_src.dtype().id()) &&
                 (this->dtype().number_of_elements() >=
                   n_src.dtype().number_of_elements()))
        {
            size_t ele_bytes  = (size_t) dtype().element_bytes();
            size_t stride     = (size_t) dtype().stride();
            size_t num_ele    = (size_t) n_src.dtype().number_of_elements();
            if(dtype().is_compact())
            {
                // the destination elements are adjacent: one block
                utils::conduit_memcpy(element_ptr(0), n_src.element_ptr(0), num_ele * ele_bytes);
                return;
            }
            size_t src_stride = (size_t) n_src.dtype().stride();
            //
            // Note: conduit_memcpy_strided_elements will use a single
            // memcpy when src and dest are compactly  strided
            utils::conduit_memcpy_strided_elements(element_ptr(0),       // dest ptr
                                                   num_ele,              // num ele
                                                   ele_bytes,            // dest bytes per ele
                                                   stride,               // dest stride
                                                   n_src.element_ptr(0), // src ptr
                                                   src_stride);          // src stride
        }
    }
}
''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 v[4]={1,2,3,4}; Node s,d; s["a"].set_external(v,2,0,8); d["a"].set(std::vector<int32>{9,9,9}); d.update_compatible(s);
 int32_array r=d["a"].value(); return r[0]==1&&r[1]==3&&r[2]==9 ? 0:1; }''','update_compatible of a compact leaf from a strided source','the bytes between the source elements are copied as if they were elements')
