// Shared declarations of the simulated clients ("interpreter"): the slots that
// hold the library objects, value tokens, and the per-value-type call tables.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <typeindex>
#include <cstdint>
#include "rt.h"
#include "num.h"
#include "custom.h"
#include "Vault.h"
#include "VaultRecordRef.h"
#include "VaultRecordSet.h"
#include "VaultRequest.h"
#include "VaultParamInput.h"
#include "VaultOperationResult.h"

using mvlt::Vault;
using mvlt::VaultRecordRef;
using mvlt::VaultRecordSet;
using mvlt::VaultOperationResult;
typedef std::function<bool(const VaultRecordRef&)> PredFn;

struct Lib { int o; Lib() { o = rt_on(); } ~Lib() { rt_restore(o); } };
struct Har { int o; Har() { o = rt_off(); } ~Har() { rt_restore(o); } };

enum { NV = 6, NS = 16, NR = 40, NM = 6 };
extern Vault* V[NV];
extern VaultRecordSet* S[NS];
extern VaultRecordRef* R[NR];

std::string enc(const std::string& s);
std::string dec(const std::string& s);
char tchar(std::type_index t);
std::string vor(const VaultOperationResult& r);
std::string boxRun(const std::string& kind, int n, uint64_t seed, int id);

// a value token: type letter + text
template <class T> struct Val;
template <> struct Val<int> { static int of(const std::string& t) { return (int)strtol(t.c_str() + 1, 0, 10); } static std::string to(int v) { return "i" + std::to_string(v); } };
template <> struct Val<int64_t> { static int64_t of(const std::string& t) { return strtoll(t.c_str() + 1, 0, 10); } static std::string to(int64_t v) { return "l" + std::to_string(v); } };
template <> struct Val<double> { static double of(const std::string& t) { return strtod(t.c_str() + 1, 0); } static std::string to(double v) { return "d" + num::shortest('d', v); } };
template <> struct Val<float> { static float of(const std::string& t) { return strtof(t.c_str() + 1, 0); } static std::string to(float v) { return "f" + num::shortest('f', v); } };
template <> struct Val<bool> { static bool of(const std::string& t) { return t[1] != '0'; } static std::string to(bool v) { return v ? "b1" : "b0"; } };
template <> struct Val<int16_t> { static int16_t of(const std::string& t) { return (int16_t)strtol(t.c_str() + 1, 0, 10); } static std::string to(int16_t v) { return "h" + std::to_string(v); } };
template <> struct Val<uint64_t> { static uint64_t of(const std::string& t) { return strtoull(t.c_str() + 1, 0, 10); } static std::string to(uint64_t v) { return "u" + std::to_string(v); } };
template <> struct Val<int8_t> { static int8_t of(const std::string& t) { return (int8_t)strtol(t.c_str() + 1, 0, 10); } static std::string to(int8_t v) { return "c" + std::to_string((int)v); } };
template <> struct Val<uint8_t> { static uint8_t of(const std::string& t) { return (uint8_t)strtol(t.c_str() + 1, 0, 10); } static std::string to(uint8_t v) { return "y" + std::to_string((int)v); } };
template <> struct Val<uint16_t> { static uint16_t of(const std::string& t) { return (uint16_t)strtol(t.c_str() + 1, 0, 10); } static std::string to(uint16_t v) { return "k" + std::to_string(v); } };
template <> struct Val<uint32_t> { static uint32_t of(const std::string& t) { return (uint32_t)strtoul(t.c_str() + 1, 0, 10); } static std::string to(uint32_t v) { return "w" + std::to_string(v); } };
template <> struct Val<Cust> { static Cust of(const std::string& t) { return Cust((int)strtol(t.c_str() + 1, 0, 10)); } static std::string to(const Cust& v) { return "z" + std::to_string(*v.p); } };
template <> struct Val<std::string> { static std::string of(const std::string& t) { return dec(t.substr(1)); } static std::string to(const std::string& v) { return "s" + enc(v); } };

struct ReqArg {
    int kind;                 // 0 eq 1 gt 2 ge 3 lt 4 le 5 interval
    std::string key, v1, v2;
    bool inc1, inc2, haveInc;
    bool haveAmount; size_t amount;
    bool havePred; PredFn pred;
};

struct ReqNodeBase;
struct TypeOps {
    bool (*addkey)(Vault*, const std::string&, const std::string&);
    VaultOperationResult (*adduk)(Vault*, const std::string&);
    VaultOperationResult (*addukl)(Vault*, const std::string&, const std::function<std::string(size_t, const VaultRecordRef&)>&);
    VaultOperationResult (*updkey)(Vault*, const std::string&, const std::string&);
    VaultOperationResult (*keyval)(Vault*, VaultRecordSet*, const std::string&, std::string&);
    VaultOperationResult (*get)(Vault*, VaultRecordSet*, const std::string&, const std::string&, VaultRecordRef&);
    VaultOperationResult (*getm)(Vault*, VaultRecordSet*, const std::string&, const std::string&, std::vector<VaultRecordRef>&, bool, size_t);
    VaultOperationResult (*erasek)(Vault*, VaultRecordSet*, const std::string&, const std::string&);
    VaultOperationResult (*erasem)(Vault*, VaultRecordSet*, const std::string&, const std::string&, bool, size_t);
    VaultOperationResult (*req)(Vault*, VaultRecordSet*, VaultRecordSet&, const ReqArg&);
    VaultOperationResult (*rset)(VaultRecordRef&, const std::string&, const std::string&);
    VaultOperationResult (*rget)(const VaultRecordRef&, const std::string&, std::string&);
    std::pair<std::string, mvlt::VaultParamInput> (*param)(const std::string&, const std::string&);
    ReqNodeBase* (*leaf)(int kind, const std::string& key, const std::string& val, bool havePred, const PredFn& pred);
};
const TypeOps* typeOps(char t);
inline const TypeOps* typeOps(const std::string& tok) { return typeOps(tok.empty() ? 'i' : tok[0]); }

struct ReqNodeBase {
    virtual ~ReqNodeBase() {}
    virtual int which() const = 0;       // 0 Less 1 LessOrEqual 2 Equal 3 GreaterOrEqual 4 Greater 5 Or 6 And
    virtual VaultOperationResult run(Vault* v, VaultRecordSet* s, VaultRecordSet& out, int how) = 0;
};
ReqNodeBase* reqJoin(bool isAnd, ReqNodeBase* a, ReqNodeBase* b, int how);

extern const TypeOps opsI, opsS, opsL, opsD, opsB, opsH, opsU, opsF, opsC, opsY, opsK, opsW, opsZ;
