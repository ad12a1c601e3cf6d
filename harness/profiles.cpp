// Weights of the operations per check.
#include <cstring>

#include "machine.hpp"

namespace pbt {

namespace {
//                    PUSH POP II EI AI UI BULK CLR CONV COPY TRK STEP LOOP  IXI IXE IXA IXU  OIV OIA OAS OER OUP  PRX ALG REJ ALI QRY DROP
Profile const table[] = {
    {"P01", QS, 1, 1, 0, 1,         {10, 8, 10, 10, 6, 6, 6, 1, 2, 0, 0, 0, 8, 6, 6, 4, 4, 8, 8, 4, 8, 4, 0, 0, 0, 0, 2, 1}, false, false, false},
    {"P02", QALL, 4, 6, 0, 1,       {6, 6, 6, 6, 6, 4, 4, 1, 16, 6, 6, 4, 4, 4, 4, 3, 3, 4, 4, 3, 4, 3, 0, 0, 0, 0, 6, 5}, false, false, false},
    {"P03", QALL, 5, 2, 0, 2,       {8, 8, 10, 10, 8, 8, 4, 1, 10, 1, 3, 2, 3, 6, 6, 5, 5, 6, 6, 5, 6, 5, 0, 0, 4, 0, 3, 2}, false, false, false},
    {"P04", QO, 2, 0, 0, 4,         {6, 6, 6, 6, 5, 5, 5, 1, 3, 0, 0, 0, 4, 3, 5, 3, 3, 8, 8, 4, 10, 4, 0, 0, 0, 0, 16, 1}, false, false, false},
    {"P05", QO | QS, 2, 0, 0, 1,    {4, 4, 4, 4, 3, 3, 4, 1, 3, 0, 0, 0, 3, 2, 2, 2, 2, 16, 16, 10, 16, 10, 6, 0, 5, 0, 2, 1}, false, false, false},
    {"P06", QI | QP, 2, 0, 0, 4,    {6, 6, 6, 6, 4, 4, 5, 1, 3, 0, 0, 0, 4, 12, 12, 8, 8, 4, 4, 3, 4, 3, 0, 0, 0, 0, 10, 1}, false, false, false},
    {"P07", QM, 2, 0, 0, 4,         {6, 6, 6, 6, 8, 8, 5, 1, 3, 0, 0, 0, 5, 5, 5, 6, 6, 5, 6, 5, 6, 6, 5, 0, 0, 0, 10, 1}, false, false, false},
    {"P08", QL, 2, 0, 0, 5,         {6, 6, 6, 6, 8, 8, 5, 1, 3, 0, 0, 0, 5, 5, 5, 6, 6, 5, 6, 5, 6, 6, 0, 0, 0, 0, 14, 1}, false, true, false},
    {"P09", QX, 2, 0, 0, 4,         {6, 8, 6, 8, 8, 8, 5, 1, 3, 0, 0, 0, 5, 5, 6, 6, 6, 5, 6, 5, 8, 6, 5, 0, 0, 0, 12, 1}, false, false, false},
    {"P10", QP | QS, 1, 0, 0, 4,    {6, 6, 8, 10, 3, 3, 6, 1, 3, 0, 4, 10, 6, 4, 6, 2, 2, 5, 5, 2, 8, 2, 0, 0, 0, 0, 16, 1}, false, false, false},
    {"P11", QS, 1, 2, 0, 1,         {2, 2, 10, 12, 14, 14, 3, 1, 6, 0, 14, 10, 24, 1, 1, 6, 6, 1, 8, 6, 1, 6, 4, 0, 0, 0, 1, 1}, false, false, false},
    {"P12", QALL, 0, 0, 0, 1,       {4, 4, 4, 4, 3, 3, 4, 1, 4, 0, 4, 2, 2, 3, 3, 2, 2, 4, 4, 2, 4, 2, 40, 30, 0, 0, 3, 1}, false, false, false},
    {"P13", QS, 3, 1, 0, 0,         {8, 8, 8, 8, 6, 6, 6, 2, 8, 8, 1, 1, 6, 5, 5, 4, 4, 5, 5, 4, 5, 4, 2, 0, 8, 4, 2, 6}, true, false, true},
    {"P15", QS, 4, 1, 0, 1,         {6, 6, 8, 8, 6, 6, 3, 1, 14, 8, 3, 2, 3, 5, 5, 4, 4, 5, 5, 4, 5, 4, 0, 0, 0, 0, 4, 5}, false, false, false},
    {"P16", QALL, 1, 2, 0, 1,       {8, 4, 6, 5, 3, 3, 6, 1, 5, 1, 3, 1, 3, 4, 3, 2, 2, 6, 6, 3, 4, 3, 0, 0, 40, 0, 3, 1}, false, false, true},
    {"P17", QALL, 2, 1, 0, 2,       {8, 8, 8, 8, 6, 6, 6, 1, 4, 1, 2, 2, 6, 6, 6, 5, 5, 6, 6, 5, 6, 5, 2, 0, 0, 0, 6, 1}, false, false, false},
    {"P18", QALL, 2, 1, 0, 1,       {6, 3, 3, 4, 2, 2, 5, 1, 5, 0, 0, 0, 2, 2, 2, 1, 1, 5, 5, 1, 4, 1, 0, 0, 0, 40, 2, 1}, false, false, false},
    {"P20", QS, 2, 8, 0, 0,         {8, 6, 8, 8, 6, 6, 5, 6, 6, 30, 2, 1, 4, 5, 5, 4, 4, 5, 5, 4, 5, 4, 0, 0, 0, 0, 2, 6}, false, false, false},
};
}

Profile const& profile_for(char const* check) {
    for (Profile const& p : table) if (!strcmp(p.check, check)) return p;
    return table[0];
}

} // namespace pbt
