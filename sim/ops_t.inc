#include "ops.h"
#include "reqnode.h"
#include "VaultRecordRef.hpp"
#include "VaultParamInput.hpp"
typedef const std::string& Str;
static bool f_addkey(Vault* v, Str k, Str t) { T x = Val<T>::of(t); Lib l; return v->AddKey(k, x); }
static VaultOperationResult f_adduk(Vault* v, Str k) { Lib l; return v->AddUniqueKey<T>(k); }
static VaultOperationResult f_addukl(Vault* v, Str k, const std::function<std::string(size_t, const VaultRecordRef&)>& fn)
{
    std::function<T(const std::size_t&, const VaultRecordRef&)> g = [&](const std::size_t& c, const VaultRecordRef& r) -> T { Har h; return Val<T>::of(fn(c, r)); };
    Lib l;
    return v->AddUniqueKey<T>(k, g);
}
static VaultOperationResult f_updkey(Vault* v, Str k, Str t) { T x = Val<T>::of(t); Lib l; return v->UpdateKey(k, x); }
static VaultOperationResult f_keyval(Vault* v, VaultRecordSet* s, Str k, std::string& out)
{
    T x{}; VaultOperationResult r;
    { Lib l; r = v ? v->GetKeyValue(k, x) : s->GetKeyValue(k, x); }
    out = Val<T>::to(x); return r;
}
static VaultOperationResult f_get(Vault* v, VaultRecordSet* s, Str k, Str t, VaultRecordRef& ref)
{ T x = Val<T>::of(t); Lib l; return v ? v->GetRecord(k, x, ref) : s->GetRecord(k, x, ref); }
static VaultOperationResult f_getm(Vault* v, VaultRecordSet* s, Str k, Str t, std::vector<VaultRecordRef>& out, bool ha, size_t a)
{
    T x = Val<T>::of(t); Lib l;
    if (ha) return v ? v->GetRecords(k, x, out, a) : s->GetRecords(k, x, out, a);
    return v ? v->GetRecords(k, x, out) : s->GetRecords(k, x, out);
}
static VaultOperationResult f_erasek(Vault* v, VaultRecordSet* s, Str k, Str t)
{ T x = Val<T>::of(t); Lib l; return v ? v->EraseRecord(k, x) : s->RemoveRecord(k, x); }
static VaultOperationResult f_erasem(Vault* v, VaultRecordSet* s, Str k, Str t, bool ha, size_t a)
{
    T x = Val<T>::of(t); Lib l;
    if (ha) return v ? v->EraseRecords(k, x, a) : s->RemoveRecords(k, x, a);
    return v ? v->EraseRecords(k, x) : s->RemoveRecords(k, x);
}
template <class C> static VaultOperationResult reqOn(C* c, VaultRecordSet& out, const ReqArg& a)
{
    T x = Val<T>::of(a.v1), y = Val<T>::of(a.v2); Lib l;
#define RQ(F) (a.havePred ? c->F(a.key, x, out, a.amount, a.pred) : a.haveAmount ? c->F(a.key, x, out, a.amount) : c->F(a.key, x, out))
    switch (a.kind) {
    case 0: return RQ(RequestEqual);
    case 1: return RQ(RequestGreater);
    case 2: return RQ(RequestGreaterOrEqual);
    case 3: return RQ(RequestLess);
    case 4: return RQ(RequestLessOrEqual);
    default:
        if (a.havePred) return c->RequestInterval(a.key, x, y, out, a.inc1, a.inc2, a.amount, a.pred);
        if (a.haveAmount) return c->RequestInterval(a.key, x, y, out, a.inc1, a.inc2, a.amount);
        if (a.haveInc) return c->RequestInterval(a.key, x, y, out, a.inc1, a.inc2);
        return c->RequestInterval(a.key, x, y, out);
    }
}
static VaultOperationResult f_req(Vault* v, VaultRecordSet* s, VaultRecordSet& out, const ReqArg& a) { return v ? reqOn(v, out, a) : reqOn(s, out, a); }
static VaultOperationResult f_rset(VaultRecordRef& r, Str k, Str t) { T x = Val<T>::of(t); Lib l; return r.SetData(k, x); }
static VaultOperationResult f_rget(const VaultRecordRef& r, Str k, std::string& out)
{
    static const T init = Val<T>::of(std::string("i") + "77");
    T x = init; VaultOperationResult res;
    { Lib l; res = r.GetData(k, x); }
    out = Val<T>::to(x); return res;
}
static std::pair<std::string, mvlt::VaultParamInput> f_param(Str k, Str t) { T x = Val<T>::of(t); return std::pair<std::string, mvlt::VaultParamInput>(k, mvlt::VaultParamInput(x)); }
template <class N, class Q> static ReqNodeBase* mkLeaf(Str k, const T& x, bool hp, const PredFn& p)
{ N* n = new N; Lib l; n->q = hp ? new Q(k, x, p) : new Q(k, x); return n; }
static ReqNodeBase* f_leaf(int kind, Str k, Str t, bool hp, const PredFn& p)
{
    T x = Val<T>::of(t);
    switch (kind) {
    case 0: return mkLeaf<N2, mvlt::Equal>(k, x, hp, p);
    case 1: return mkLeaf<N4, mvlt::Greater>(k, x, hp, p);
    case 2: return mkLeaf<N3, mvlt::GreaterOrEqual>(k, x, hp, p);
    case 3: return mkLeaf<N0, mvlt::Less>(k, x, hp, p);
    default: return mkLeaf<N1, mvlt::LessOrEqual>(k, x, hp, p);
    }
}
const TypeOps TABLE = { f_addkey, f_adduk, f_addukl, f_updkey, f_keyval, f_get, f_getm, f_erasek, f_erasem, f_req, f_rset, f_rget, f_param, f_leaf };
