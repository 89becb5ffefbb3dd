#ifndef VCSHIM_ASCII_H_
#define VCSHIM_ASCII_H_
namespace absl {
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_isalpha(unsigned char c) { return ascii_islower(c) || ascii_isupper(c); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
}
#endif
