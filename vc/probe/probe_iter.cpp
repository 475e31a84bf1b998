// names the header-inline members of the child iterators, so that they appear in the extracted code
#include "conduit.hpp"
template class conduit::NodeChildIteratorBase<conduit::Node&, conduit::Node*, conduit::NodeChildIterator>;
template class conduit::NodeChildIteratorBase<const conduit::Node&, const conduit::Node*, conduit::NodeConstChildIterator>;
