//@ bounds the same properties in the variant of the header for compilers without 128-bit integers (products by doubling): the listed cases with the same windows
//@ case applysmall reach=done
//@ case mulmod quick=0-10 reach=done
//@ case powsmall quick=1-8 thorough=1-31 reach=done
//@ case powbig quick=0-7 reach=done
//@ case invbig quick=0-5 reach=inv
#undef __SIZEOF_INT128__
#include "C15.cpp"
