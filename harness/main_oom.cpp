#include "mods.h"
void case_C25(Ctx &);
void init_C25(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C25", case_C25, init_C25}}); }
