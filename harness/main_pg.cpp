#include "mods.h"
void case_C22(Ctx &); void case_C23(Ctx &); void case_C24(Ctx &); void init_C24(Ctx &); void init_pg(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C22", case_C22, init_pg}, {"C23", case_C23, init_pg}, {"C24", case_C24, init_C24}}); }
