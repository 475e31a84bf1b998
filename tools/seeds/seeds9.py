import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'; G=L+'conduit_generator.cpp'
# an error in the last reader of walk_external leaves a partly filled node
mkseed('s32','C18',[(G,'''            const bool external = true;
            Parser::YAML::walk_yaml_schema(&node,
                                           node.schema_ptr(),
                                           m_data,
                                           m_schema.c_str(),
                                           curr_offset,
                                           external);
        }
        else
        {
            CONDUIT_ERROR("Generator unknown parsing protocol: " << m_protocol);
        }
    }
    catch(const conduit::Error& e)
    {
        node.reset();
        throw e;
    }''','''            const bool external = true;
            Parser::YAML::walk_yaml_schema(&node,
                                           node.schema_ptr(),
                                           m_data,
                                           m_schema.c_str(),
                                           curr_offset,
                                           external);
        }
        else
        {
            CONDUIT_ERROR("Generator unknown parsing protocol: " << m_protocol);
        }
    }
    catch(const conduit::Error& e)
    {
        // external data is not ours, there is nothing to release
        if(m_data == NULL)
        {
            node.reset();
        }
        throw e;
    }''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ int32 d[4]={1,2,3,4}; Node n; bool t=false;
 try { n.generate_external("{\"a\": \"int32\", \"b\": {\"dtype\": \"int33\"}}","conduit_json",d); } catch(conduit::Error &) { t=true; }
 return (t && n.dtype().is_empty() && n.number_of_children()==0) ? 0:1; }''','a text whose later entry cannot be read, over external data','after the error the node holds part of the tree')
# offsets of leaves after a strided leaf inside a list, schema reader only
mkseed('s33','C18',[(G,'''            walk_json_schema(&curr_schema,jvalue[i], curr_offset);
            curr_offset += curr_schema.total_strided_bytes();''','''            walk_json_schema(&curr_schema,jvalue[i], curr_offset);
            curr_offset += curr_schema.total_bytes_compact();''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ Schema s("[{\"dtype\":\"int32\",\"number_of_elements\":3,\"stride\":8},\"int64\"]"); return (s[1].dtype().offset()==s[0].total_strided_bytes()) ? 0:1; }''','a list with a strided leaf followed by another leaf, read into a Schema','the leaf after a strided one overlaps it')
# yaml: stride given explicitly also changes the element size
mkseed('s34','C18',[(G,'''int
Generator::Parser::YAML::get_yaml_sequence_length(const yaml_node_t *yaml_node)
{
    // assumes yaml_node->type == YAML_SEQUENCE_NODE
    return yaml_node->data.sequence.items.top - yaml_node->data.sequence.items.start;''','''int
Generator::Parser::YAML::get_yaml_sequence_length(const yaml_node_t *yaml_node)
{
    // assumes yaml_node->type == YAML_SEQUENCE_NODE
    const size_t nbytes = (const char*)yaml_node->data.sequence.items.top -
                          (const char*)yaml_node->data.sequence.items.start;
    return (int)((nbytes & 0xFFFFF) / sizeof(yaml_node_item_t));''')],
r'''#include "conduit.hpp"
#include <string>
using namespace conduit;
int main(){ std::string t="["; int n=270000; for(int i=0;i<n;i++){ if(i) t+=","; t+="7"; } t+="]"; Node m; m.parse(t,"yaml"); return m.dtype().number_of_elements()==n ? 0:1; }''','a yaml sequence of more than 262143 entries','entries of very long yaml sequences are lost')
mkseed('s35','C18',[(G,'''        if (0 == length)
        {
            if(jvalue.HasMember("value") &&
               jvalue["value"].IsArray())
            {
                length = jvalue["value"].Size();
            }''','''        if (jvalue.HasMember("value") &&
            jvalue["value"].IsArray())
        {
            // the inline values decide how many elements there are
            length = jvalue["value"].Size();
        }
        else if (0 == length)
        {
            if(false)
            {
            }''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ Schema s("{\"dtype\":\"int32\",\"number_of_elements\":6,\"value\":[1,2]}"); return s.dtype().number_of_elements()==6 ? 0:1; }''','an inline array shorter than the given number of elements','the given number of elements is ignored')
