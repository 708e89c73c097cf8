// everything involved in generating code for the binary (de)serializer
#include "generator/codefactory.cpp"
#include "generator/codegenerator.cpp"
#include "generator/consumer.cpp"
#include "generator/frontendaction.cpp"
#include "generator/visitor.cpp"
#include "generator/clangversionabstraction.cpp"
#include "generator/serializationcodegenerator.cpp"
#include "generator/binaryserializationcodegenerator.cpp"
#include "kinds.h"
