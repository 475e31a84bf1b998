import sys; sys.path.insert(0,'/verif/tools')
from mkseed import *
L='src/libs/conduit/'
mkseed('s22','C13',[(L+'conduit_utils.cpp','''            i < (input_size -1))
        {''','''            i < (input_size -1) &&
            (i == 0 || input[i-1] != '\\\\'))
        {''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ std::string t="\\\\\n"; return utils::unescape_special_chars(utils::escape_special_chars(t))==t ? 0:1; }''','an escaped backslash directly followed by another escape','the second escape is left in the text, so unescaping does not undo escaping')
mkseed('s23','C13',[(L+'conduit_utils.cpp','''        if(*start != '\\0')
        {
            size_t len = c - start;
            if(len > 0)
                sv.push_back''','''        if(*start != '\\0' && start != str.c_str())
        {
            size_t len = c - start;
            if(len > 0)
                sv.push_back''')],
r'''#include "conduit.hpp"
using namespace conduit;
int main(){ std::vector<std::string> v; utils::split_string(std::string("abc"), ',', v); return v.size()==1&&v[0]=="abc" ? 0:1; }''','a text without any separator','splitting into a list loses a text that is a single piece')
