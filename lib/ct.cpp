// Results of the operations of ct.hpp as constants: compiled once per operation with -DCT_ONE=id.
#include "ct.hpp"
namespace ct
{
#define CT_PICK2(I) Op##I
#define CT_PICK(I) CT_PICK2(I)
template <class Op> struct Table
{
    enum : long { N = count<Op>(limit<Op>(CT_MOST)) };
    float v[N * Op::OUTS];
};
template <class Op> constexpr Table<Op> fill()
{
    Table<Op> t{};
    float p[8] = {}, o[40] = {};
    for (long i = 0; i < Table<Op>::N; i++)
    {
        args<Op>(i, limit<Op>(CT_MOST), p);
        Op::run(p, o, 0);
        for (int j = 0; j < Op::OUTS; j++) t.v[i * Op::OUTS + j] = o[j];
    }
    return t;
}
} // namespace ct
static constexpr ct::Table<ct::CT_PICK(CT_ONE)> table = ct::fill<ct::CT_PICK(CT_ONE)>();
#ifdef CT_14
#define CT_NAME2(I) ct_table2_##I
#else
#define CT_NAME2(I) ct_table_##I
#endif
#define CT_NAME(I) CT_NAME2(I)
extern "C" const float *CT_NAME(CT_ONE)() { return table.v; }
