import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'
S=open('/repo/'+L+'conduit_data_array.cpp').read()
mkseed('s15','C11',[(L+'conduit_data_array.cpp','''            else
            {
                res |= (*this)[i] != array[i];
            }
        }

        if(res)
        {
            log::error(info, protocol, "data item(s) mismatch; see diff below");
''','''            else
            {
                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
            }
        }

        if(res)
        {
            log::error(info, protocol, "data item(s) mismatch; see diff below");
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node a,b,i; a.set((int64)5); b.set((int64)6); if(!a.diff_compatible(b,i,1.5)) return 1; if(!a.diff_compatible(b,i)) return 2; b.set((int64)5); if(a.diff_compatible(b,i,1.5)) return 3; return 0; }''',
'integer leaves compared with an epsilon of one or more','diff_compatible accepts integers that differ by no more than epsilon')
mkseed('s16','C11',[(L+'conduit_data_array.cpp','''            const char *found = strstr(o_data,t_data);
            // the substr should be found at the start
            // of o_data
            if(found != o_data)
''','''            const char *found = strstr(o_data,t_data);
            // the substr should be found in o_data
            if(found == NULL)
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node a,b,i; a.set("bc"); b.set("abcd"); if(!a.diff_compatible(b,i)) return 1; a.set("ab"); if(a.diff_compatible(b,i)) return 2; return 0; }''',
'two texts, the first occurring inside the other but not at its start','diff_compatible accepts a text that is not a prefix of the other')
mkseed('s17','C11',[(L+'conduit_node.cpp','''        for(; i < std::min(t_nchild, n_nchild); i++)
        {
            const Node &t_child = child(i);
            const Node &n_child = n.child(i);
            res |= t_child.diff_compatible(n_child, info_children["diff"].append(), epsilon, relaxint);
        }
        for(; i < t_nchild; i++)
''','''        for(; i < std::min(t_nchild, n_nchild); i++)
        {
            const Node &t_child = child(i);
            const Node &n_child = n.child(i);
            res = t_child.diff_compatible(n_child, info_children["diff"].append(), epsilon, relaxint);
        }
        for(; i < t_nchild; i++)
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node a,b,i; a.append().set((int64)1); a.append().set((int64)2); b.append().set((int64)3); b.append().set((int64)2); if(!a.diff_compatible(b,i)) return 1; return 0; }''',
'two lists that differ before their last common entry','diff_compatible returns the verdict of the last entry only')
