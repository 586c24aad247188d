#include "mods.h"
void case_C01(Ctx &);
void init_C01(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C01", case_C01, init_C01}}); }
