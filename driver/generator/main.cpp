// the command-line interface of the code generator
#include "generator/main.cpp"
