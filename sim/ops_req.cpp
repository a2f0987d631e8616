#include "reqnode.h"
template <class A, class B> static ReqNodeBase* join2(bool isAnd, A* a, B* b, int how)
{
    if (isAnd) { N6* n = new N6; Lib l; n->q = how & 1 ? new mvlt::VaultRequest<RT_::And>(*a->q && *b->q) : new mvlt::And(*a->q, *b->q); return n; }
    N5* n = new N5; Lib l; n->q = how & 1 ? new mvlt::VaultRequest<RT_::Or>(*a->q || *b->q) : new mvlt::Or(*a->q, *b->q); return n;
}
template <class A> static ReqNodeBase* join1(bool isAnd, A* a, ReqNodeBase* b, int how)
{
    switch (b->which()) {
    case 0: return join2(isAnd, a, (N0*)b, how); case 1: return join2(isAnd, a, (N1*)b, how); case 2: return join2(isAnd, a, (N2*)b, how);
    case 3: return join2(isAnd, a, (N3*)b, how); case 4: return join2(isAnd, a, (N4*)b, how); case 5: return join2(isAnd, a, (N5*)b, how);
    default: return join2(isAnd, a, (N6*)b, how);
    }
}
ReqNodeBase* reqJoin(bool isAnd, ReqNodeBase* a, ReqNodeBase* b, int how)
{
    switch (a->which()) {
    case 0: return join1(isAnd, (N0*)a, b, how); case 1: return join1(isAnd, (N1*)a, b, how); case 2: return join1(isAnd, (N2*)a, b, how);
    case 3: return join1(isAnd, (N3*)a, b, how); case 4: return join1(isAnd, (N4*)a, b, how); case 5: return join1(isAnd, (N5*)a, b, how);
    default: return join1(isAnd, (N6*)a, b, how);
    }
}
