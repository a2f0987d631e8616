#pragma once
#include "ops.h"
#include "Vault.hpp"
#include "VaultRecordSet.hpp"
#include "VaultRequest.hpp"
template <mvlt::VaultRequestType Ty, int W>
struct ReqNode : ReqNodeBase {
    mvlt::VaultRequest<Ty>* q = nullptr;
    ~ReqNode() { Lib l; delete q; }
    int which() const { return W; }
    static VaultOperationResult go(const mvlt::VaultRequest<Ty>& x, Vault* v, VaultRecordSet* s, VaultRecordSet& out) { return v ? v->Request(x, out) : s->Request(x, out); }
    // A request is an ordinary value: copies, moved and assigned objects and a second use ask for the same records
    VaultOperationResult run(Vault* v, VaultRecordSet* s, VaultRecordSet& out, int how)
    {
        Lib l;
        switch (how) {
        case 1: { mvlt::VaultRequest<Ty> c(*q); delete q; q = nullptr; return go(c, v, s, out); }
        case 2: { mvlt::VaultRequest<Ty> c(std::move(*q)); delete q; q = nullptr; return go(c, v, s, out); }
        case 3: { mvlt::VaultRequest<Ty> c; c = *q; delete q; q = nullptr; return go(c, v, s, out); }
        case 4: { mvlt::VaultRequest<Ty> c; c = std::move(*q); delete q; q = nullptr; return go(c, v, s, out); }
        case 5: { go(*q, v, s, out); return go(*q, v, s, out); }
        case 6: { { mvlt::VaultRequest<Ty> c(*q); } return go(*q, v, s, out); }
        default: return go(*q, v, s, out);
        }
    }
};
typedef mvlt::VaultRequestType RT_;
typedef ReqNode<RT_::Less, 0> N0; typedef ReqNode<RT_::LessOrEqual, 1> N1; typedef ReqNode<RT_::Equal, 2> N2;
typedef ReqNode<RT_::GreaterOrEqual, 3> N3; typedef ReqNode<RT_::Greater, 4> N4; typedef ReqNode<RT_::Or, 5> N5; typedef ReqNode<RT_::And, 6> N6;
