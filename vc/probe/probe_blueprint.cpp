// Emits the header-inline functions of the blueprint index classes so that they can be put under contract.
// No behaviour of its own: every function verified through this unit comes from /repo's headers.
#include "conduit.hpp"
#include "conduit_blueprint_ndarray_index.hpp"
#include "conduit_blueprint_o2mrelation_index.hpp"
#include "conduit_blueprint_o2mrelation_iterator.hpp"
using namespace conduit;
using blueprint::ndarray::NDIndex;
template <class T> void keep(T);
void probe_ndindex()
{
    keep((index_t (NDIndex::*)(index_t) const)&NDIndex::shape);
    keep((index_t (NDIndex::*)(index_t) const)&NDIndex::offset);
    keep((index_t (NDIndex::*)(index_t) const)&NDIndex::stride);
    keep((index_t (NDIndex::*)() const)&NDIndex::ndims);
}
index_t probe_nd1(const NDIndex &x, index_t a) { return x.index(a); }
index_t probe_nd2(const NDIndex &x, index_t a, index_t b) { return x.index(a, b); }
index_t probe_nd3(const NDIndex &x, index_t a, index_t b, index_t c) { return x.index(a, b, c); }
index_t probe_nd4(const NDIndex &x, index_t a, index_t b, index_t c, index_t d) { return x.index(a, b, c, d); }
size_t probe_sizes() { return sizeof(NDIndex) + sizeof(blueprint::o2mrelation::O2MIndex) + sizeof(blueprint::o2mrelation::O2MIterator); }
