// library code that the executor runs as code instead of modelling
#include <string>
template class std::basic_string<char>;
