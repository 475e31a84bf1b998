import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'; B='src/libs/blueprint/'
mkseed('s28','C16',[(L+'conduit_node_iterator.hpp',"""        Iter result(static_cast<Iter const &>(*this));
        result -= rhs;
        return result;""","""        return *this + (rhs < 0 ? rhs : -rhs);""")],
r"""#include "conduit.hpp"
using namespace conduit;
int main(){ Node n; n["a"]=1; n["b"]=2; n["c"]=3; NodeChildIterator b=n.children().begin(), e=n.children().end(); index_t back=b-e;
 return (b-back==e && e-(e-b)==b) ? 0:1; }""",'a negative distance subtracted from a child iterator','subtracting a negative distance moves the wrong way')
mkseed('s29','C16',[(L+'conduit_node_iterator.cpp','''NodeConstIterator::peek_previous() 
{
    index_t idx = m_index;
    if(has_previous())
    {
        idx--;
    }
    else
    {
        CONDUIT_ERROR("peek_previous() when has_previous() == false");
    }
    return m_node->child(idx);''','''NodeConstIterator::peek_previous() 
{
    index_t idx = m_index;
    if(idx > 0)
    {
        idx--;
    }
    else
    {
        CONDUIT_ERROR("peek_previous() when has_previous() == false");
    }
    return m_node->child(idx);''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node n; n["a"]=1; n["b"]=2; const Node &c=n; NodeConstIterator it=c.children(); it.next();
 bool t=false; try { it.peek_previous(); } catch(conduit::Error &) { t=true; } return (t && !it.has_previous()) ? 0:1; }''','looking back after the first step','peek_previous gives a child although has_previous() is false')
mkseed('s30','C17',[(L+'c/conduit_node_c.cpp','''    cpp_node(cnode)->set_path_external_uint16_ptr(path,
                                                  data,
                                                  num_elements,
                                                  offset,
                                                  stride,
                                                  element_bytes,
                                                  endianness);''','''    cpp_node(cnode)->set_path_external_uint16_ptr(path,
                                                  data,
                                                  num_elements,
                                                  offset,
                                                  element_bytes,
                                                  stride,
                                                  endianness);''')],
r'''#include "conduit.hpp"
#include "conduit.h"
#include "conduit_cpp_to_c.hpp"
using namespace conduit;
int main(){ Node n; uint16 v[6]={1,2,3,4,5,6}; conduit_node_set_path_external_uint16_ptr_detailed(c_node(&n),"a",v,3,0,4,2,0);
 uint16_array a=n["a"].value(); return (a[0]==1 && a[1]==3 && a[2]==5) ? 0:1; }''','a strided external uint16 array given through the C interface on a path','stride and element size arrive swapped, so other elements are described')
mkseed('s31','C17',[('src/libs/relay/c/conduit_relay_io_c.cpp','''        relay::io::load(path_str,
                        protocol_str,
                        step,
                        domain,
                        *n);
    }''','''        relay::io::load(path_str,
                        protocol_str,
                        domain,
                        step,
                        *n);
    }''')],
r'''#include "conduit.hpp"
#include "conduit.h"
#include "conduit_cpp_to_c.hpp"
#include "conduit_relay_io.h"
#include <dlfcn.h>
#include <string>
using namespace conduit;
static int S=-1,D=-1;
namespace conduit { namespace relay { namespace io {
void load(const std::string &, const std::string &, int step, int domain, Node &) { S=step; D=domain; } }}}
int main(){ Node n; conduit_relay_io_load_step_and_domain("f","p",2,5,NULL,c_node(&n)); return (S==2 && D==5) ? 0:1; }''','loading one step and domain through the C interface without options','step and domain arrive swapped','-I/repo/src/libs/relay/c -I/repo/src/libs/relay -I/repo/_build/libs/relay -lconduit -lconduit_relay')
