#include "mods.h"
void case_C32(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C32", case_C32, 0}}); }
