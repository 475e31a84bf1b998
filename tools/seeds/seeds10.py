import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'
mkseed('s36','C19',[(L+'conduit_utils.cpp','''       res.find('.') == std::string::npos &&
       res.find('e') == std::string::npos )''','''       res.find('.') == std::string::npos &&
       res.find('e') != 1 )''')],
r'''#include "conduit.hpp"
#include <limits>
using namespace conduit;
int main(){ Node n; n["a"]=(float64)-1e+20; std::string s=n.to_json("json");
 try { Node r; Generator g(s,"json"); g.walk(r); return r["a"].to_float64()==-1e+20 ? 0:1; } catch(conduit::Error &) { return 1; } }''','a number written with an exponent and no decimal point, such as -1e+20','the written text is not JSON')
mkseed('s37','C19',[(L+'conduit_data_type.cpp','''        os << "," << eoe;
        utils::indent(os,indent,depth+1,pad);
        os << "\\"offset\\": " << m_offset;

        os << "," << eoe;
        utils::indent(os,indent,depth+1,pad);
        os << "\\"stride\\": " << m_stride;
''','''        // (an offset of zero is the default)
        if(m_offset != 0)
        {
            os << "," << eoe;
            utils::indent(os,indent,depth+1,pad);
            os << "\\"offset\\": " << m_offset;
        }

        os << "," << eoe;
        utils::indent(os,indent,depth+1,pad);
        os << "\\"stride\\": " << m_stride;
''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ Schema s; s["x"].set(DataType::float64(2,0,16)); s["first"].set(DataType::float64(1,0)); try { Schema t(s.to_json()); return t["first"].dtype().offset()==0 ? 0:1; } catch(conduit::Error &) { return 1; } }''','a schema in which a leaf other than the first one starts at offset zero (a view of interleaved data)','the leaf is read back at the end of the leaf before it')
mkseed('s38','C19',[(L+'conduit_node.cpp','''            utils::indent(os,indent,depth+1,pad);
            m_children[i]->to_json_generic(os,
''','''            // nothing to write for an empty entry
            if(m_children[i]->dtype().is_empty() && i + 1 < nchildren)
            {
                continue;
            }
            utils::indent(os,indent,depth+1,pad);
            m_children[i]->to_json_generic(os,
''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node n; n["l"].append()=(int32)1; n["l"].append(); n["l"].append()=(int32)3; Node r; Generator g(n.to_json("conduit_json"),"conduit_json"); 
 try { g.walk(r); } catch(conduit::Error &) { return 1; } return r["l"].number_of_children()==3 ? 0:1; }''','a list with an empty entry before the last one','the entry is lost and the later ones move')
