// Emits the header-inline functions of the current tree so that they can be put under contract.
// No behaviour of its own: every function verified through this unit comes from /repo's headers.
#include "conduit.hpp"
#include "conduit_endianness.hpp"
using namespace conduit;
#define USE(f) template <class M> static void use_##f(M) ;
template <class T> void keep(T);
void probe_data_type()
{
    keep((index_t (DataType::*)() const)&DataType::offset);
    keep((index_t (DataType::*)() const)&DataType::stride);
    keep((index_t (DataType::*)() const)&DataType::element_bytes);
    keep((index_t (DataType::*)() const)&DataType::endianness);
    keep((index_t (DataType::*)() const)&DataType::id);
    keep((index_t (DataType::*)() const)&DataType::number_of_elements);
    keep((void (DataType::*)(index_t))&DataType::set_id);
    keep((void (DataType::*)(index_t))&DataType::set_number_of_elements);
    keep((void (DataType::*)(index_t))&DataType::set_offset);
    keep((void (DataType::*)(index_t))&DataType::set_stride);
    keep((void (DataType::*)(index_t))&DataType::set_element_bytes);
    keep((void (DataType::*)(index_t))&DataType::set_endianness);
}
template <class T> static void probe_array()
{
    keep((T &(DataArray<T>::*)(index_t))&DataArray<T>::operator[]);
    keep((T &(DataArray<T>::*)(index_t) const)&DataArray<T>::operator[]);
    keep((void *(DataArray<T>::*)(index_t))&DataArray<T>::element_ptr);
    keep((const void *(DataArray<T>::*)(index_t) const)&DataArray<T>::element_ptr);
    keep((index_t (DataArray<T>::*)() const)&DataArray<T>::number_of_elements);
    keep((index_t (DataAccessor<T>::*)() const)&DataAccessor<T>::number_of_elements);
    keep((T (DataAccessor<T>::*)(index_t) const)&DataAccessor<T>::operator[]);
    keep((const void *(DataAccessor<T>::*)(index_t) const)&DataAccessor<T>::element_ptr);
}
void probe_arrays()
{
    probe_array<int8>(); probe_array<int16>(); probe_array<int32>(); probe_array<int64>();
    probe_array<uint8>(); probe_array<uint16>(); probe_array<uint32>(); probe_array<uint64>();
    probe_array<float32>(); probe_array<float64>();
}
