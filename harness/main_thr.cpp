#include "mods.h"
void case_C21(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C21", case_C21, 0}}); }
