// Engine-only: the stream templates libstdc++ keeps in its shared library.
#include <ostream>
#include <sstream>
namespace std {
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_ostringstream<char>;
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, char);
template ostream &endl(ostream &);
template ostream &flush(ostream &);
}
