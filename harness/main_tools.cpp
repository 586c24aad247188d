#include "mods.h"
void case_C28(Ctx &); void case_C29(Ctx &); void case_C30(Ctx &);
int main(int argc, char **argv) { return run_main(argc, argv, {{"C28", case_C28, 0}, {"C29", case_C29, 0}, {"C30", case_C30, 0}}); }
