// Force-included when a harness is compiled for symbolic execution. The libstdc++ stream templates are
// executed for real; only locale facets and number formatting are replaced (see rt.cpp).
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ios>
#include <istream>
#include <ostream>
namespace std {
	template<> void basic_ios<char>::_M_cache_locale(const locale&);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long long);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long long);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(bool);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(double);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long double);
	template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(const void*);
	template<> basic_ostream<char>& basic_ostream<char>::operator<<(int);
	template<> basic_ostream<char>& basic_ostream<char>::operator<<(short);
	template<> basic_istream<char>& basic_istream<char>::operator>>(int&);
	template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(long&);
	template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(unsigned long&);
	template<> basic_istream<char>& basic_istream<char>::ignore(streamsize);
	template<> basic_istream<char>& basic_istream<char>::ignore(streamsize, int);
	template<typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& is);
	template<> basic_istream<char>& ws(basic_istream<char>& is);
}
