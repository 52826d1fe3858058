// Explicit instantiation, so that std::string is interpreted from its own IR (symbolic text) instead of being called natively.
#include <string>
template class std::basic_string<char>;
