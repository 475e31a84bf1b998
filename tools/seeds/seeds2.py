import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
L='src/libs/conduit/'
mkseed('s08','C09',[(L+'conduit_schema.cpp','''    // remove current_name
    obj_map.erase(current_name);
    // link new_name to the idx
    obj_map[new_name] = idx;

    // update index to string lookup
    object_order()[(size_t)idx] = new_name;
''','''    // update index to string lookup
    object_order()[(size_t)idx] = new_name;

    // remove current_name
    obj_map.erase(current_name);
    // link new_name to the idx
    obj_map[new_name] = idx;
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Schema s; s.add_child("a").set(DataType::int32()); s.add_child("b").set(DataType::int64());
 s.rename_child(s.child_names()[0],"z"); if(s.has_child("a")) return 1; if(!s.has_child("z")) return 2; if(s.child_index("z")!=0) return 3; return 0; }''',
'renaming with the current name passed as a reference into child_names()','the old name stays in the name index after a rename, so a child is found under two names')
mkseed('s09','C09',[(L+'conduit_schema.cpp','''       for (size_t i = 0; i < their_children.size(); i++) 
       {
           Schema *child_schema = new Schema(*their_children[i]);
           child_schema->m_parent = this;
''','''       for (size_t i = 0; i < their_children.size(); i++) 
       {
           Schema *child_schema = new Schema(*their_children[i]);
           if(child_schema->m_dtype.id() != DataType::LIST_ID)
           {
               child_schema->m_parent = this;
           }
''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Schema s; s["a/b"].set(DataType::int32()); s["l"].append().set(DataType::int64()); Schema c(s);
 for(int i=0;i<2;i++) if(c.child(i).parent()!=&c) return 1; if(c.child("l").path()!="l") return 2; return 0; }''',
'a copied schema that holds a list below an object','a copied list schema does not point back to its parent')
mkseed('s10','C10',[(L+'conduit_node.cpp','''            const Node *curr_src = src->child_ptr(i);
            curr_node->set_allocator(node->allocator());
            curr_node->set_schema_ptr(curr_schema);
            curr_node->set_parent(node);
            mirror_node(curr_node,curr_schema,curr_src);
            node->append_node_ptr(curr_node);
        }
    }


}''','''            const Node *curr_src = src->child_ptr(i);
            curr_node->set_allocator(node->allocator());
            curr_node->set_schema_ptr(curr_schema);
            curr_node->set_parent(src->m_parent != NULL ? node : node->m_parent);
            mirror_node(curr_node,curr_schema,curr_src);
            node->append_node_ptr(curr_node);
        }
    }


}''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node a,b; a.append().set((int64)1); a.append()["x"].set((int64)2); b.set_external(a);
 for(int i=0;i<2;i++) if(b.child(i).parent()!=&b) return 1; return 0; }''',
'set_external from a root node that is a list','children of an external list view have no parent')
mkseed('s11','C10',[(L+'conduit_node.cpp','''            size_t idx = (size_t) this->m_schema->child_index(*itr);
            Node *curr_node = new Node();
            curr_node->set_allocator(m_allocator_id);
            curr_node->set_schema_ptr(curr_schema);
            curr_node->set_parent(this);
            curr_node->set(*node.m_children[idx]);
            this->append_node_ptr(curr_node);
        }
    }
    else if(node.dtype().id() == DataType::LIST_ID)
    {
        reset();
        init(DataType::list());''','''            size_t idx = (size_t) this->m_schema->child_index(*itr);
            Node *curr_node = new Node();
            curr_node->set_allocator(m_allocator_id);
            curr_node->set_schema_ptr(curr_schema);
            curr_node->set_parent(this);
            curr_node->set(*node.m_children[idx]);
            this->append_node_ptr(curr_node);
        }
    }
    else if(node.dtype().id() == DataType::LIST_ID)
    {
        if(this->dtype().id() != DataType::LIST_ID || this->number_of_children() > node.number_of_children())
            reset();
        init(DataType::list());''')],
'''#include "conduit.hpp"
using namespace conduit;
int main(){ Node a,b; a.append().set((int64)1); b.append().set((int64)5); b.append().set((int64)6); a.set(b);
 if(a.number_of_children()!=2) return 1; if(a.child(0).to_int64()!=5||a.child(1).to_int64()!=6) return 2; return 0; }''',
'assigning a list to a node that already holds a shorter or equally long list','stale entries of the old list survive assignment')
mkseed('s12','C10',[(L+'conduit_node.cpp','''    if(m_alloced && m_data)
    {
        ///
        /// TODO: why do we need to check for empty here?
        ///
        if(dtype().id() != DataType::EMPTY_ID)''','''    if(m_data_size > 0 && m_data)
    {
        ///
        /// TODO: why do we need to check for empty here?
        ///
        if(dtype().id() != DataType::EMPTY_ID)''')],
'''#include "conduit.hpp"
#include <unistd.h>
#include <sys/wait.h>
using namespace conduit;
int main(){ int st; if(fork()==0){ close(2); std::vector<int64> v(3,7); { Node n; n.set((int64)3); Node s; s["x"].set_external(v); n.move(s["x"]); n.set_external(&v[0],3); Node m; m.set_int64(4); Node z; z.set(DataType::int64(1)); m.reset(); z.reset(); n.reset(); }
  { Node n; n.set((int64)3); Schema d; d.set(DataType::int64(3)); n.set_external(DataType::int64(3),&v[0]); n.reset(); }
  { Node r; int64 *p=new int64[2]; p[0]=1; p[1]=2; r["a"].set((int64)1); Node e; e.set_external(p,2); r["a"].swap(e); Node f; f.set_external(&v[0],2); Node &ra=r["a"]; ra.set((int64)9); ra.reset(); e.reset(); delete [] p; }
  for(int i=0;i<3;i++) if(v[i]!=7) _exit(3); _exit(0);} wait(&st); return (WIFEXITED(st)&&WEXITSTATUS(st)==0)?0:1; }''',
'n/a','n/a')
