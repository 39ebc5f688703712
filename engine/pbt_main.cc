#include "pbt.h"
int main(int argc, char **argv) { return pbt::Main(argc, argv); }
