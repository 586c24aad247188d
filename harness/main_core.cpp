#include "mods.h"
#define D(p) void case_##p(Ctx &);
D(C02) D(C03) D(C04) D(C05) D(C06) D(C07) D(C08) D(C09) D(C10) D(C11) D(C12) D(C13) D(C14) D(C15) D(C16) D(C17) D(C18) D(C19) D(C20) D(C26) D(C27) D(C31)
void init_C13(Ctx &);
#define M(p) {#p, case_##p, 0}
int main(int argc, char **argv) {
    return run_main(argc, argv, {M(C02), M(C03), M(C04), M(C05), M(C06), M(C07), M(C08), M(C09), M(C10), M(C11), M(C12), {"C13", case_C13, init_C13}, M(C14), M(C15),
                                 M(C16), M(C17), M(C18), M(C19), M(C20), M(C26), M(C27), M(C31)});
}
