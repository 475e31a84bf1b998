import sys; sys.path.insert(0,'/verif/tools')
import mkseed as M, shutil
M.DEMO=M.DEMO.replace('''g++ -std=c++14 -O0 -g -w $inc "$here/demo.cpp" -o "$t/demo"''','''mpi=/usr/lib/x86_64-linux-gnu/openmpi/include; inc="$inc -I$mpi -I$mpi/openmpi -DOMPI_SKIP_MPICXX=1"
g++ -std=c++14 -O0 -g -w $inc "$here/demo.cpp" src/libs/relay/conduit_relay_mpi.cpp -o "$t/demo"''').replace('LIBS','LIBS -ldl -lpthread')
R='src/libs/relay/conduit_relay_mpi.cpp'
HEAD='''#include "conduit.hpp"
#include <cstring>
#include <functional>
#include "mpi_sim.hpp"
#include "conduit_relay_mpi.hpp"
using namespace conduit; namespace m = conduit::relay::mpi;
'''
def mk(id,edits,demo,needs,breaks):
    M.mkseed(id,'C20',edits,HEAD+demo,needs,breaks); shutil.copy(M.V+'/drivers/mpi_sim.hpp',M.V+'/seeded/'+id+'/mpi_sim.hpp')
mk('s39',[(R,'''        recv_node.set(rcv_schema);
        data_rcv_buff = (char*)recv_node.data_ptr();
    }
''','''        // (avoid the allocation if the result fits what is there)
        if(!recv_node.schema().compatible(rcv_schema))
        {
            recv_node.set(rcv_schema);
        }
        data_rcv_buff = (char*)recv_node.data_ptr();
    }
''')],r'''
int main(){ std::vector<Node> s(2), r(2); for(int i=0;i<2;i++){ s[i]["a"]=(int32)(i*10+1); s[i]["b"]=(float64)(i+0.5); }
 // a result tree whose schema is that of the packed result, but whose leaves lie in separate memory
 std::vector<int32> a(2); std::vector<float64> b(2); Node q;
 { Node &e0=q.append(); e0["a"].set_external(&a[0]); e0["b"].set_external(DataType::float64(1,4),(char*)&b[0]-4); Node &e1=q.append(); e1["a"].set_external(DataType::int32(1,12),(char*)&a[1]-12); e1["b"].set_external(DataType::float64(1,16),(char*)&b[1]-16); }
 std::string e=sim::run(2,[&](int i){ m::gather_using_schema(s[i], i==0? q : r[i], 0, MPI_COMM_WORLD); }); if(!e.empty()) return 1;
 if(q.number_of_children()!=2) return 1;
 for(int i=0;i<2;i++) if(q[i]["a"].as_int32()!=i*10+1 || q[i]["b"].as_float64()!=i+0.5) return 1;
 return 0; }''','a result tree whose schema equals the packed result but whose leaves lie in separate memory','the gathered data is written past the first leaf; the result is wrong')
mk('s40',[(R,'''    // note: this checks for both compact and contig
    if(data_ptr != NULL &&
       node.is_compact() )
    {
        // for wait_all,  this must always be NULL except for
        // the irecv cases where copy out is necessary
        request->m_rcv_ptr = NULL;
    }
    else
    {
        node.compact_to(request->m_buffer);
        data_ptr  = request->m_buffer.data_ptr();
        request->m_rcv_ptr = &node;
    }

    if(!conduit::utils::value_fits<index_t,int>(data_size))
    {
        CONDUIT_INFO("Warning size value (" << data_size << ")"
                     " exceeds the size of MPI_Irecv max value "
                     "(" << std::numeric_limits<int>::max() << ")")
    }

    int mpi_error =  MPI_Irecv(data_ptr,
                               static_cast<int>(data_size),
                               MPI_BYTE,
                               MPI_ANY_SOURCE,''','''    // contiguous data can be received in place
    if(data_ptr != NULL)
    {
        // for wait_all,  this must always be NULL except for
        // the irecv cases where copy out is necessary
        request->m_rcv_ptr = NULL;
    }
    else
    {
        node.compact_to(request->m_buffer);
        data_ptr  = request->m_buffer.data_ptr();
        request->m_rcv_ptr = &node;
    }

    if(!conduit::utils::value_fits<index_t,int>(data_size))
    {
        CONDUIT_INFO("Warning size value (" << data_size << ")"
                     " exceeds the size of MPI_Irecv max value "
                     "(" << std::numeric_limits<int>::max() << ")")
    }

    int mpi_error =  MPI_Irecv(data_ptr,
                               static_cast<int>(data_size),
                               MPI_BYTE,
                               MPI_ANY_SOURCE,''')],r'''
int main(){ int32 mem[6]={-1,-1,-1,-1,-1,-1}; int32 v[3]={1,2,3}; Node s,d; s.set(v,3); d.set_external(mem,3,0,8);
 std::string e=sim::run(2,[&](int i){ m::Request q; MPI_Status st; if(i==0){ m::isend(s,1,3,MPI_COMM_WORLD,&q); m::wait_send(&q,&st);} else { m::irecv(d,MPI_COMM_WORLD,&q); m::wait_recv(&q,&st);} });
 if(!e.empty()) return 1; return mem[0]==1&&mem[2]==2&&mem[4]==3&&mem[1]==-1&&mem[3]==-1 ? 0:1; }''','an any-source non-blocking receive into a strided leaf','the elements land in the gaps between the elements')
mk('s41',[(R,"        res = MPI_UINT32_T;","        res = MPI_INT32_T;")],r"""
int main(){ std::vector<Node> s(2), r(2); s[0].set((uint32)3000000000u); s[1].set((uint32)5u); 
 std::string e=sim::run(2,[&](int i){ m::max_all_reduce(s[i],r[i],MPI_COMM_WORLD); }); if(!e.empty()) return 1; return r[0].as_uint32()==3000000000u && r[1].as_uint32()==3000000000u ? 0:1; }""",'a maximum or minimum over uint32 values above 2^31','the reduction compares them as negative numbers')
mk('s42',[(R,'''         if(requests[i].m_rcv_ptr != NULL)
         {
             requests[i].m_rcv_ptr->update(requests[i].m_buffer);
             requests[i].m_rcv_ptr = NULL;
         }

         requests[i].m_request = justrequests[i];
         requests[i].m_buffer.reset();
''','''         if(requests[i].m_rcv_ptr == NULL)
         {
             continue;
         }

         requests[i].m_rcv_ptr->update(requests[i].m_buffer);
         requests[i].m_rcv_ptr = NULL;
         requests[i].m_request = justrequests[i];
         requests[i].m_buffer.reset();
''')],r"""
int main(){ std::vector<Node> s(1), r(1); s[0].set((int32)42); r[0].set((int32)0); bool ok=true;
 std::string e=sim::run(1,[&](int i){ m::Request q[2]; MPI_Status st[2]; m::irecv(r[0],0,1,MPI_COMM_WORLD,&q[0]); m::isend(s[0],0,1,MPI_COMM_WORLD,&q[1]); m::wait_all(2,q,st); ok = q[0].m_request==MPI_REQUEST_NULL && q[1].m_request==MPI_REQUEST_NULL; });
 return e.empty() && ok && r[0].as_int32()==42 ? 0:1; }""",'requests used again, or waited for again, after wait_all','a finished request is still marked as pending; waiting for it again is an error')
