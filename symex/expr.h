// Hash-consed symbolic expressions (bit-vectors of any width, reals) and their
// translation to z3.  Part of /verif's own symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <cmath>
#include <numeric>
#include <llvm/ADT/APFloat.h>
#include <z3++.h>

enum class Op : uint8_t {
    Const, Sym, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    // IEEE-754 operations on bit patterns (decided with z3's FP theory)
    FAdd, FSub, FMul, FDiv, FSqrt, FFma, FEq, FLt, FLe, FUno, FExt, FTrunc, FToSI, FToUI, SIToF, UIToF, FRound,
    // real arithmetic ("Real mode")
    RConst, RSym, RAdd, RMul, RDiv, REq, RLt, RLe, RIte, RUF, RFromSI, RFromUI, RFloor, RTrunc2SI, RNe0,
};

struct Expr {
    Op op;
    bool real;         // real-sorted
    uint32_t w;        // bit width (0 for reals)
    uint32_t id;
    uint64_t aux;      // Extract: low bit; FRound: mode; RConst: double bits; Sym: index
    std::vector<Expr *> k;
    llvm::APInt *big = nullptr;  // Const
    std::string name;            // Sym / RUF
    Z3_ast ast = nullptr, bast = nullptr;
    bool isConst() const { return op == Op::Const; }
    uint64_t c64() const { return big->getZExtValue(); }
    unsigned fpw = 0;  // FP source width for conversions
};

struct ExprMgr {
    z3::context ctx;
    std::vector<Expr *> all;
    std::unordered_multimap<uint64_t, Expr *> table;
    uint32_t symCount = 0;
    bool useFPSpecial = true;

    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

    Expr *intern(Op op, bool real, uint32_t w, uint64_t aux, const std::vector<Expr *> &k, const llvm::APInt *big = nullptr, const std::string &name = std::string(), unsigned fpw = 0) {
        uint64_t h = mix((uint64_t)op * 1315423911u + w, aux + real);
        h = mix(h, fpw);
        for (auto e : k) h = mix(h, e->id);
        if (big) for (unsigned i = 0; i < big->getNumWords(); ++i) h = mix(h, big->getRawData()[i]);
        for (char c : name) h = mix(h, (unsigned char) c);
        auto r = table.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Expr *e = it->second;
            if (e->op != op || e->real != real || e->w != w || e->aux != aux || e->k != k || e->name != name || e->fpw != fpw) continue;
            if (big && *e->big != *big) continue;
            return e;
        }
        Expr *e = new Expr();
        e->op = op; e->real = real; e->w = w; e->aux = aux; e->k = k; e->name = name; e->fpw = fpw;
        if (big) e->big = new llvm::APInt(*big);
        e->id = (uint32_t) all.size();
        all.push_back(e);
        table.emplace(h, e);
        return e;
    }

    Expr *cst(const llvm::APInt &v) { return intern(Op::Const, false, v.getBitWidth(), 0, {}, &v); }
    Expr *cst(uint32_t w, uint64_t v) { return cst(llvm::APInt(w, v)); }
    Expr *tru() { return cst(1, 1); }
    Expr *fls() { return cst(1, 0); }
    Expr *sym(uint32_t w, const std::string &name) { return intern(Op::Sym, false, w, symCount++, {}, nullptr, name); }
    Expr *rsym(const std::string &name) { return intern(Op::RSym, true, 0, symCount++, {}, nullptr, name); }
    Expr *rcst(double d) { if (d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); return intern(Op::RConst, true, 0, b, {}); }
    static double rval(Expr *e) { double d; memcpy(&d, &e->aux, 8); return d; }

    // ---------- bit-vector constructors with light simplification ----------
    Expr *add(Expr *a, Expr *b) {
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(*a->big + *b->big);
        if (b->isConst()) {
            if (b->big->isZero()) return a;
            if (a->op == Op::Add && a->k[1]->isConst()) return add(a->k[0], cst(*a->k[1]->big + *b->big));
            if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
                return ite(a->k[0], add(a->k[1], b), add(a->k[2], b));
            return intern(Op::Add, false, a->w, 0, {a, b});
        }
        // keep constants outermost
        if (a->op == Op::Add && a->k[1]->isConst()) return add(add(a->k[0], b), a->k[1]);
        if (b->op == Op::Add && b->k[1]->isConst()) return add(add(a, b->k[0]), b->k[1]);
        // x + (-1 * x) == 0
        if (isNegOf(a, b) || isNegOf(b, a)) return cst(a->w, 0);
        if (a->id > b->id) std::swap(a, b);
        return intern(Op::Add, false, a->w, 0, {a, b});
    }
    static bool isNegOf(Expr *a, Expr *b) {  // a == -b
        return a->op == Op::Mul && a->k[1]->isConst() && a->k[1]->big->isAllOnes() && a->k[0] == b;
    }
    Expr *neg(Expr *a) { return mul(a, cst(llvm::APInt::getAllOnes(a->w))); }
    Expr *sub(Expr *a, Expr *b) { if (a == b) return cst(a->w, 0); return add(a, neg(b)); }
    Expr *mul(Expr *a, Expr *b) {
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(*a->big * *b->big);
        if (b->isConst()) {
            if (b->big->isZero()) return b;
            if (b->big->isOne()) return a;
            if (a->op == Op::Mul && a->k[1]->isConst()) return mul(a->k[0], cst(*a->k[1]->big * *b->big));
            if (a->op == Op::Add && a->k[1]->isConst()) return add(mul(a->k[0], b), cst(*a->k[1]->big * *b->big));
            if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
                return ite(a->k[0], mul(a->k[1], b), mul(a->k[2], b));
            return intern(Op::Mul, false, a->w, 0, {a, b});
        }
        if (a->id > b->id) std::swap(a, b);
        return intern(Op::Mul, false, a->w, 0, {a, b});
    }
    // values an expression can take from its structure alone (as a signed number); false: not known to be small
    std::unordered_map<Expr *, std::pair<int64_t, int64_t>> rangeCache;
    bool range(Expr *e, int64_t &lo, int64_t &hi, int depth = 0) {
        if (e->real || e->w > 64 || e->w < 2) return false;
        if (e->isConst()) { lo = hi = e->big->getSExtValue(); return hi < (1ll << 40) && lo > -(1ll << 40); }
        auto it = rangeCache.find(e);
        if (it != rangeCache.end()) { lo = it->second.first; hi = it->second.second; return lo <= hi; }
        bool ok = false; int64_t a, b, c, d;
        if (depth < 24) switch (e->op) {
            case Op::ZExt: if (e->k[0]->w <= 40) { lo = 0; hi = (int64_t) ((1ull << e->k[0]->w) - 1); ok = true; if (range(e->k[0], a, b, depth + 1) && a >= 0) { lo = a; hi = b; } } break;
            case Op::SExt: if (range(e->k[0], lo, hi, depth + 1)) ok = true; else if (e->k[0]->w <= 40) { lo = -(1ll << (e->k[0]->w - 1)); hi = -lo - 1; ok = true; } break;
            case Op::And: if (e->k[1]->isConst() && !e->k[1]->big->isNegative() && e->k[1]->big->getActiveBits() <= 40) { lo = 0; hi = (int64_t) e->k[1]->big->getZExtValue(); ok = true; } break;
            case Op::Xor: if (e->k[1]->isConst() && e->k[1]->big->isAllOnes() && range(e->k[0], a, b, depth + 1)) { lo = -1 - b; hi = -1 - a; ok = true; } break;
            case Op::Add: if (range(e->k[0], a, b, depth + 1) && range(e->k[1], c, d, depth + 1)) { lo = a + c; hi = b + d; ok = true; } break;
            case Op::Mul: if (e->k[1]->isConst() && range(e->k[0], a, b, depth + 1) && range(e->k[1], c, d, depth + 1) && std::abs(c) < (1 << 20)) { lo = std::min(a * c, b * c); hi = std::max(a * c, b * c); ok = true; } break;
            case Op::Ite: if (range(e->k[1], a, b, depth + 1) && range(e->k[2], c, d, depth + 1)) { lo = std::min(a, c); hi = std::max(b, d); ok = true; } break;
            case Op::Extract: if (e->aux == 0 && range(e->k[0], a, b, depth + 1)) { lo = a; hi = b; ok = true; } break;
            case Op::UDiv: case Op::SDiv: if (e->k[1]->isConst() && range(e->k[1], c, d, depth + 1) && c > 0 && range(e->k[0], a, b, depth + 1) && (a >= 0 || e->op == Op::SDiv)) { lo = a / c; hi = b / c; ok = true; } break;
            case Op::URem: case Op::SRem: if (e->k[1]->isConst() && range(e->k[1], c, d, depth + 1) && c > 0 && range(e->k[0], a, b, depth + 1) && (a >= 0 || e->op == Op::SRem)) { lo = a < 0 ? 1 - c : 0; hi = c - 1; ok = true; } break;
            default: break;
        }
        if (ok && (lo < -(1ll << 40) || hi > (1ll << 40) || (e->w < 64 && (lo < -(1ll << (e->w - 1)) || hi >= (1ll << (e->w - 1)))))) ok = false;
        if (depth < 24) { if (ok) rangeCache[e] = {lo, hi}; else rangeCache[e] = {1, 0}; }
        return ok;
    }
    // division of numbers that are known to be small, in a narrower width
    Expr *narrowDiv(Op op, Expr *a, Expr *b) {
        int64_t lo, hi, c, d; if (a->w < 12 || !range(a, lo, hi) || !range(b, c, d)) return nullptr;
        if ((op == Op::UDiv || op == Op::URem) && (lo < 0 || c < 0)) return nullptr;
        unsigned n = 3; while (n < 60 && (std::min(lo, c) < -(1ll << (n - 2)) || std::max(hi, d) >= (1ll << (n - 2)))) ++n;
        if (n + 4 > a->w) return nullptr;
        if (c <= 0 && d >= 0) return nullptr;   // a divisor that may be zero keeps its width
        return sext(bin(op, extract(a, 0, n), extract(b, 0, n)), a->w);
    }
    Expr *bin(Op op, Expr *a, Expr *b) {
        using llvm::APInt;
        switch (op) {
            case Op::Add: return add(a, b);
            case Op::Mul: return mul(a, b);
            case Op::And: return band(a, b);
            case Op::Or: return bor(a, b);
            case Op::Xor: return bxor(a, b);
            default: break;
        }
        if (a->isConst() && b->isConst()) {
            const APInt &x = *a->big, &y = *b->big;
            switch (op) {
                case Op::UDiv: if (!y.isZero()) return cst(x.udiv(y)); break;
                case Op::SDiv: if (!y.isZero()) return cst(x.sdiv(y)); break;
                case Op::URem: if (!y.isZero()) return cst(x.urem(y)); break;
                case Op::SRem: if (!y.isZero()) return cst(x.srem(y)); break;
                case Op::Shl: return cst(x.shl(y.getLimitedValue(a->w)));
                case Op::LShr: return cst(x.lshr(y.getLimitedValue(a->w)));
                case Op::AShr: return cst(x.ashr(y.getLimitedValue(a->w)));
                default: break;
            }
        }
        if (b->isConst()) {
            const APInt &y = *b->big;
            switch (op) {
                case Op::UDiv: case Op::SDiv: if (y.isOne()) return a; 
                    if (op == Op::UDiv && y.isPowerOf2()) return bin(Op::LShr, a, cst(a->w, y.logBase2()));
                    break;
                case Op::URem: if (y.isOne()) return cst(a->w, 0);
                    if (y.isPowerOf2()) return band(a, cst(y - 1));
                    break;
                case Op::SRem: if (y.isOne()) return cst(a->w, 0); break;
                case Op::Shl: if (y.isZero()) return a;
                    if (y.uge(a->w)) return cst(a->w, 0);
                    return mul(a, cst(APInt::getOneBitSet(a->w, (unsigned) y.getZExtValue())));
                case Op::LShr: {
                    if (y.isZero()) return a;
                    if (y.uge(a->w)) return cst(a->w, 0);
                    unsigned s = (unsigned) y.getZExtValue();
                    return zext(extract(a, s, a->w - s), a->w);
                }
                case Op::AShr: if (y.isZero()) return a; {
                    unsigned s = (unsigned) y.getLimitedValue(a->w - 1);
                    if (s >= a->w) s = a->w - 1;
                    return sext(extract(a, s, a->w - s), a->w);
                }
                default: break;
            }
        }
        if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) if (Expr *r = narrowDiv(op, a, b)) return r;
        return intern(op, false, a->w, 0, {a, b});
    }
    Expr *band(Expr *a, Expr *b) {
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(*a->big & *b->big);
        if (a == b) return a;
        if (b->isConst()) {
            if (b->big->isZero()) return b;
            if (b->big->isAllOnes()) return a;
            if (b->big->isMask()) { unsigned n = b->big->countTrailingOnes(); return zext(extract(a, 0, n), a->w); }
        }
        if (a->w == 1 && (isNot(a, b) || isNot(b, a))) return fls();
        if (!b->isConst() && a->id > b->id) std::swap(a, b);
        return intern(Op::And, false, a->w, 0, {a, b});
    }
    static bool isNot(Expr *a, Expr *b) { return a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->big->isAllOnes() && a->k[0] == b; }
    Expr *bor(Expr *a, Expr *b) {
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(*a->big | *b->big);
        if (a == b) return a;
        if (b->isConst()) {
            if (b->big->isZero()) return a;
            if (b->big->isAllOnes()) return b;
        }
        if (a->w == 1 && (isNot(a, b) || isNot(b, a))) return tru();
        // (zext x) | (zext y << k)  => concat   (byte assembly)
        if (auto c = orConcat(a, b)) return c;
        if (!b->isConst() && a->id > b->id) std::swap(a, b);
        return intern(Op::Or, false, a->w, 0, {a, b});
    }
    Expr *orConcat(Expr *, Expr *) { return nullptr; }
    Expr *bxor(Expr *a, Expr *b) {
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(*a->big ^ *b->big);
        if (a == b) return cst(a->w, 0);
        if (b->isConst()) {
            if (b->big->isZero()) return a;
            if (a->op == Op::Xor && a->k[1]->isConst()) return bxor(a->k[0], cst(*a->k[1]->big ^ *b->big));
            if (a->w == 1) { // not
                if (a->op == Op::Ult) return intern(Op::Ule, false, 1, 0, {a->k[1], a->k[0]});
                if (a->op == Op::Ule) return intern(Op::Ult, false, 1, 0, {a->k[1], a->k[0]});
                if (a->op == Op::Slt) return intern(Op::Sle, false, 1, 0, {a->k[1], a->k[0]});
                if (a->op == Op::Sle) return intern(Op::Slt, false, 1, 0, {a->k[1], a->k[0]});
                if (a->op == Op::RLt) return intern(Op::RLe, false, 1, 0, {a->k[1], a->k[0]});
                if (a->op == Op::RLe) return intern(Op::RLt, false, 1, 0, {a->k[1], a->k[0]});
            }
            return intern(Op::Xor, false, a->w, 0, {a, b});
        }
        if (a->id > b->id) std::swap(a, b);
        return intern(Op::Xor, false, a->w, 0, {a, b});
    }
    Expr *bnot(Expr *a) { return bxor(a, cst(llvm::APInt::getAllOnes(a->w))); }
    Expr *eq(Expr *a, Expr *b) {
        if (a == b) return tru();
        if (a->isConst()) std::swap(a, b);
        if (a->isConst()) return cst(1, *a->big == *b->big);
        if (a->w == 1) {
            if (b->isConst()) return b->big->isZero() ? bnot(a) : a;
            return bnot(bxor(a, b));
        }
        if (b->isConst()) {
            if (a->op == Op::Add && a->k[1]->isConst()) return eq(a->k[0], cst(*b->big - *a->k[1]->big));
            if (a->op == Op::Xor && a->k[1]->isConst()) return eq(a->k[0], cst(*b->big ^ *a->k[1]->big));
            if (a->op == Op::ZExt) {
                unsigned iw = a->k[0]->w;
                if (b->big->getActiveBits() > iw) return fls();
                return eq(a->k[0], cst(b->big->trunc(iw)));
            }
            if (a->op == Op::SExt) {
                unsigned iw = a->k[0]->w;
                if (b->big->trunc(iw).sext(a->w) != *b->big) return fls();
                return eq(a->k[0], cst(b->big->trunc(iw)));
            }
            if (a->op == Op::Ite) {
                Expr *x = eq(a->k[1], b), *y = eq(a->k[2], b);
                if (x->isConst() || y->isConst()) return ite(a->k[0], x, y);
            }
            if (a->op == Op::Concat) {
                unsigned lw = a->k[1]->w;
                return band(eq(a->k[0], cst(b->big->lshr(lw).trunc(a->w - lw))), eq(a->k[1], cst(b->big->trunc(lw))));
            }
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
            if (a->op == Op::Add && b->op == Op::Add && a->k[1]->isConst() && b->k[1]->isConst())
                return eq(a->k[0], add(b->k[0], cst(*b->k[1]->big - *a->k[1]->big)));
        }
        if (!b->isConst() && a->id > b->id) std::swap(a, b);
        return intern(Op::Eq, false, 1, 0, {a, b});
    }
    Expr *cmp(Op op, Expr *a, Expr *b) {
        if (a->isConst() && b->isConst()) {
            const llvm::APInt &x = *a->big, &y = *b->big;
            bool r = op == Op::Ult ? x.ult(y) : op == Op::Ule ? x.ule(y) : op == Op::Slt ? x.slt(y) : x.sle(y);
            return cst(1, r);
        }
        if (a == b) return cst(1, op == Op::Ule || op == Op::Sle);
        if (op == Op::Ult && b->isConst() && b->big->isZero()) return fls();
        if (op == Op::Ult && b->isConst() && b->big->isOne()) return eq(a, cst(a->w, 0));
        if (op == Op::Ule && a->isConst() && a->big->isZero()) return tru();
        if (op == Op::Ule && b->isConst() && b->big->isAllOnes()) return tru();
        if (b->isConst() && a->op == Op::ZExt) {
            unsigned iw = a->k[0]->w;
            bool uns = op == Op::Ult || op == Op::Ule;
            if (!uns && b->big->isNegative()) return fls();
            if (b->big->getActiveBits() > iw) return tru();
            return cmp(uns ? op : (op == Op::Slt ? Op::Ult : Op::Ule), a->k[0], cst(b->big->trunc(iw)));
        }
        if (a->isConst() && b->op == Op::ZExt) {
            unsigned iw = b->k[0]->w;
            bool uns = op == Op::Ult || op == Op::Ule;
            if (!uns && a->big->isNegative()) return tru();
            if (a->big->getActiveBits() > iw) return fls();
            return cmp(uns ? op : (op == Op::Slt ? Op::Ult : Op::Ule), cst(a->big->trunc(iw)), b->k[0]);
        }
        if (a->op == Op::SExt && b->isConst() && (op == Op::Slt || op == Op::Sle)) {
            unsigned iw = a->k[0]->w;
            if (b->big->trunc(iw).sext(a->w) == *b->big) return cmp(op, a->k[0], cst(b->big->trunc(iw)));
        }
        if (b->op == Op::SExt && a->isConst() && (op == Op::Slt || op == Op::Sle)) {
            unsigned iw = b->k[0]->w;
            if (a->big->trunc(iw).sext(b->w) == *a->big) return cmp(op, cst(a->big->trunc(iw)), b->k[0]);
        }
        if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst() && b->isConst())
            return ite(a->k[0], cmp(op, a->k[1], b), cmp(op, a->k[2], b));
        if (b->op == Op::Ite && b->k[1]->isConst() && b->k[2]->isConst() && a->isConst())
            return ite(b->k[0], cmp(op, a, b->k[1]), cmp(op, a, b->k[2]));
        return intern(op, false, 1, 0, {a, b});
    }
    Expr *ite(Expr *c, Expr *a, Expr *b) {
        if (c->isConst()) return c->big->isZero() ? b : a;
        if (a == b) return a;
        if (c->op == Op::Xor && c->k[1]->isConst()) return ite(c->k[0], b, a);
        if (a->real || b->real) return intern(Op::RIte, true, 0, 0, {c, a, b});
        if (a->w == 1) {
            if (a->isConst() && b->isConst()) return a->big->isZero() ? bnot(c) : c;
            if (a->isConst()) return a->big->isZero() ? band(bnot(c), b) : bor(c, b);
            if (b->isConst()) return b->big->isZero() ? band(c, a) : bor(bnot(c), a);
        }
        return intern(Op::Ite, false, a->w, 0, {c, a, b});
    }
    Expr *concat(Expr *hi, Expr *lo) {
        if (hi->isConst() && lo->isConst()) return cst(hi->big->zext(hi->w + lo->w).shl(lo->w) | lo->big->zext(hi->w + lo->w));
        if (hi->isConst() && hi->big->isZero()) return zext(lo, hi->w + lo->w);
        if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
            return extract(lo->k[0], (unsigned) lo->aux, lo->w + hi->w);
        // Extract(hi) of Concat chain: concat(extract(x,..), concat(extract(x,..), rest))
        if (hi->op == Op::Extract && lo->op == Op::Concat && lo->k[0]->op == Op::Extract && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
            return concat(extract(hi->k[0], (unsigned) lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
        return intern(Op::Concat, false, hi->w + lo->w, 0, {hi, lo});
    }
    Expr *extract(Expr *a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        switch (a->op) {
            case Op::Const: return cst(a->big->extractBits(w, lo));
            case Op::Extract: return extract(a->k[0], (unsigned) a->aux + lo, w);
            case Op::Concat: {
                unsigned lw = a->k[1]->w;
                if (lo >= lw) return extract(a->k[0], lo - lw, w);
                if (lo + w <= lw) return extract(a->k[1], lo, w);
                return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
            }
            case Op::ZExt: {
                unsigned iw = a->k[0]->w;
                if (lo >= iw) return cst(w, 0);
                if (lo + w <= iw) return extract(a->k[0], lo, w);
                return zext(extract(a->k[0], lo, iw - lo), w);
            }
            case Op::SExt: {
                unsigned iw = a->k[0]->w;
                if (lo + w <= iw) return extract(a->k[0], lo, w);
                if (lo == 0) return sext(a->k[0], w);
                break;
            }
            case Op::Ite:
                if (a->k[1]->isConst() || a->k[2]->isConst()) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
                break;
            case Op::And: case Op::Or: case Op::Xor: {
                return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
            }
            case Op::Add: case Op::Mul:
                if (a->op == Op::Mul && a->k[1]->isConst() && a->k[1]->big->isPowerOf2()) {   // a shift to the left
                    unsigned q = a->k[1]->big->logBase2();
                    if (lo >= q) return extract(a->k[0], lo - q, w);
                    if (lo + w <= q) return cst(w, 0);
                }
                if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
                break;
            case Op::LShr: case Op::AShr:
                if (a->k[1]->isConst() && a->k[1]->big->ult(a->w) && lo + w + a->k[1]->big->getZExtValue() <= a->w) return extract(a->k[0], lo + (unsigned) a->k[1]->big->getZExtValue(), w);
                break;
            default: break;
        }
        return intern(Op::Extract, false, w, lo, {a});
    }
    Expr *zext(Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (a->isConst()) return cst(a->big->zext(w));
        if (a->op == Op::ZExt) return zext(a->k[0], w);
        if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
        return intern(Op::ZExt, false, w, 0, {a});
    }
    Expr *sext(Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (a->isConst()) return cst(a->big->sext(w));
        if (a->op == Op::SExt) return sext(a->k[0], w);
        if (a->op == Op::ZExt) return zext(a->k[0], w);
        if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
        return intern(Op::SExt, false, w, 0, {a});
    }
    // ---------- reals ----------
    Expr *radd(Expr *a, Expr *b) {
        if (a->op == Op::RConst) std::swap(a, b);
        if (b->op == Op::RConst && rval(b) == 0) return a;
        if (a->op == Op::RConst && b->op == Op::RConst) { double x = rval(a), y = rval(b), s = x + y; if (s - x == y && s - y == x) return rcst(s); }
        if (b->op != Op::RConst && a->id > b->id) std::swap(a, b);
        return intern(Op::RAdd, true, 0, 0, {a, b});
    }
    static bool pow2(double d) { int e; return d > 0 && std::frexp(d, &e) == 0.5 && e > -300 && e < 300; }
    Expr *rmul(Expr *a, Expr *b) {
        if (a->op == Op::RConst) std::swap(a, b);
        if (b->op == Op::RConst && a->op == Op::RMul && a->k[1]->op == Op::RConst && pow2(rval(b)) && pow2(rval(a->k[1]))) return rmul(a->k[0], rcst(rval(b) * rval(a->k[1])));
        if (b->op == Op::RConst) { if (rval(b) == 0) return b; if (rval(b) == 1) return a;
            if (rval(b) == -1 && a->op == Op::RMul && a->k[1]->op == Op::RConst && rval(a->k[1]) == -1) return a->k[0];
            if (a->op == Op::RConst) { double p = rval(a) * rval(b); if (std::abs(rval(a)) == 1 || std::abs(rval(b)) == 1) return rcst(p); } }
        if (b->op != Op::RConst && a->id > b->id) std::swap(a, b);
        return intern(Op::RMul, true, 0, 0, {a, b});
    }
    Expr *rneg(Expr *a) { if (a->op == Op::RConst) return rcst(-rval(a)); return rmul(a, rcst(-1)); }
    Expr *rsub(Expr *a, Expr *b) { if (a == b) return rcst(0); return radd(a, rneg(b)); }
    Expr *rdiv(Expr *a, Expr *b) { if (b->op == Op::RConst && rval(b) == 1) return a; if (b->op == Op::RConst && pow2(rval(b))) return rmul(a, rcst(1 / rval(b))); return intern(Op::RDiv, true, 0, 0, {a, b}); }
    // a real that is a fraction of integers: value = bv / den (bv signed, wide enough never to wrap)
    struct Rat { Expr *bv = nullptr; uint64_t den = 1; bool sym = false; };
    Expr *widen(Expr *a, unsigned w) { return a->w < w ? sext(a, w) : a; }
    Expr *mulWide(Expr *a, int64_t c) { if (c == 1) return a; unsigned w = a->w + 64 - llvm::countl_zero((uint64_t) (c < 0 ? -c : c)) + 1; return mul(sext(a, w), cst(llvm::APInt(w, (uint64_t) c, true))); }
    bool rat(Expr *e, Rat &r, int depth = 0) {
        if (depth > 12) return false;
        switch (e->op) {
            case Op::RFromSI: r.bv = e->k[0]; r.den = 1; r.sym = true; return r.bv->w <= 72;
            case Op::RFromUI: r.bv = zext(e->k[0], e->k[0]->w + 1); r.den = 1; r.sym = true; return r.bv->w <= 72;
            case Op::RConst: { double d = rval(e); uint64_t den = 1; while (den < (1u << 20) && d != std::floor(d)) { d *= 2; den *= 2; } if (d != std::floor(d) || std::fabs(d) > 1e9) return false; int64_t v = (int64_t) d; unsigned w = 66 - llvm::countl_zero((uint64_t) (v < 0 ? -v : v)); r.bv = cst(llvm::APInt(w, (uint64_t) v, true)); r.den = den; r.sym = false; return true; }
            case Op::RAdd: { Rat a, b; if (!rat(e->k[0], a, depth + 1) || !rat(e->k[1], b, depth + 1)) return false; uint64_t g = std::gcd(a.den, b.den), da = a.den / g, db = b.den / g; if (a.den * db > (1u << 30)) return false; Expr *x = mulWide(a.bv, (int64_t) db), *y = mulWide(b.bv, (int64_t) da); unsigned w = std::max(x->w, y->w) + 1; if (w > 72) return false; r.bv = add(sext(x, w), sext(y, w)); r.den = a.den * db; r.sym = a.sym || b.sym; return true; }
            case Op::RMul: { if (e->k[1]->op != Op::RConst) return false; Rat a, c; if (!rat(e->k[0], a, depth + 1) || !rat(e->k[1], c, depth + 1) || !c.bv->isConst() || c.bv->big->getSignificantBits() > 40 || a.den * c.den > (1u << 30)) return false; r.bv = mulWide(a.bv, c.bv->big->getSExtValue()); r.den = a.den * c.den; r.sym = a.sym; return r.bv->w <= 72; }
            case Op::RDiv: { if (e->k[1]->op != Op::RConst) return false; double d = rval(e->k[1]); Rat a; if (d != std::floor(d) || d == 0 || std::fabs(d) > 1e6 || !rat(e->k[0], a, depth + 1)) return false; uint64_t q = (uint64_t) std::fabs(d); if (a.den * q > (1u << 30)) return false; r.bv = mulWide(a.bv, d < 0 ? -1 : 1); r.den = a.den * q; r.sym = a.sym; return r.bv->w <= 72; }
            default: return false;
        }
    }
    Expr *rfloor(Expr *a) {
        Rat r;
        if (!rat(a, r) || !r.sym) return intern(Op::RFloor, true, 0, 0, {a});
        if (r.den > 1) r.bv = widen(r.bv, 34);
        Expr *q = r.bv;
        if (r.den > 1) {   // shifted to positive numbers: floor(b / d) = (b + d * 2^k) / d - 2^k
            unsigned w = r.bv->w + 2, k = r.bv->w; while (k > 0 && (llvm::APInt(160, r.den) << (k - 1)).uge(llvm::APInt(160, 1) << (r.bv->w - 1))) --k;
            Expr *up = add(sext(r.bv, w), cst((llvm::APInt(160, r.den) << k).trunc(w)));
            q = sub(bin(Op::UDiv, up, cst(llvm::APInt(w, r.den))), cst((llvm::APInt(160, 1) << k).trunc(w)));
        }
        return intern(Op::RFromSI, true, 0, 0, {q});
    }
    Expr *rtrunc(Expr *a, unsigned w) {
        { Rat r; if ((a->op != Op::RFromSI || a->k[0]->w > w) && rat(a, r) && r.sym) { if (r.den > 1) r.bv = widen(r.bv, 34); Expr *q = r.den == 1 ? r.bv : bin(Op::SDiv, r.bv, cst(llvm::APInt(r.bv->w, r.den))); return q->w < w ? sext(q, w) : extract(q, 0, w); } }
        if (a->op == Op::RFromSI && a->k[0]->w <= w) return sext(a->k[0], w);
        if (a->op == Op::RFromUI && a->k[0]->w < w) return zext(a->k[0], w);
        return intern(Op::RTrunc2SI, false, w, 0, {a});
    }
    Expr *rcmp(Op op, Expr *a, Expr *b) {
        if (a->op == b->op && a->op == Op::RFromSI) { unsigned w = std::max(a->k[0]->w, b->k[0]->w); Expr *x = sext(a->k[0], w), *y = sext(b->k[0], w); return op == Op::REq ? eq(x, y) : cmp(op == Op::RLt ? Op::Slt : Op::Sle, x, y); }
        if (a->op != Op::RSym && b->op != Op::RSym && !(a->op == Op::RConst && b->op == Op::RConst)) { Rat x, y; if (rat(a, x) && rat(b, y) && (x.sym || y.sym)) { Expr *p = mulWide(x.bv, (int64_t) y.den), *q = mulWide(y.bv, (int64_t) x.den); unsigned w = std::max(p->w, q->w); if (w <= 80) { p = sext(p, w); q = sext(q, w); return op == Op::REq ? eq(p, q) : cmp(op == Op::RLt ? Op::Slt : Op::Sle, p, q); } } }
        if (a->op == Op::RConst && b->op == Op::RConst) {
            double x = rval(a), y = rval(b);
            return cst(1, op == Op::REq ? x == y : op == Op::RLt ? x < y : x <= y);
        }
        if (a == b) return cst(1, op != Op::RLt);
        if (op == Op::REq && a->id > b->id) std::swap(a, b);
        return intern(op, false, 1, 0, {a, b});
    }
    Expr *ruf(const std::string &n, const std::vector<Expr *> &args) { return intern(Op::RUF, true, 0, 0, args, nullptr, n); }

    // ---------- FP on bits ----------
    Expr *fp(Op op, uint32_t w, const std::vector<Expr *> &k, uint64_t aux = 0) {
        unsigned fpw = k[0]->w;
        return intern(op, false, w, aux, k, nullptr, std::string(), fpw);
    }

    // ---------- z3 ----------
    Z3_sort fpsort(unsigned w) { return w == 16 ? Z3_mk_fpa_sort_16(ctx) : w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast keep(Z3_ast a) { if (!a) throw std::runtime_error("z3 build error: " + std::string(Z3_get_error_msg(ctx, Z3_get_error_code(ctx)))); Z3_inc_ref(ctx, a); return a; }
    Z3_ast tofp(Expr *e) { return keep(Z3_mk_fpa_to_fp_bv(ctx, z(e), fpsort(e->w))); }
    Z3_ast FB(Z3_ast a) { keep(a); return Z3_mk_fpa_to_ieee_bv(ctx, a); }
    Z3_ast rne() { return keep(Z3_mk_fpa_rne(ctx)); }
    static bool isPred(Expr *e) {
        switch (e->op) {
            case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::REq: case Op::RLt: case Op::RLe:
            case Op::FEq: case Op::FLt: case Op::FLe: case Op::FUno: return true;
            case Op::And: case Op::Or: case Op::Xor: case Op::Ite: return e->w == 1;
            default: return false;
        }
    }
    Z3_ast zb(Expr *e) {  // as Bool
        if (e->bast) return e->bast;
        Z3_ast r;
        auto k = [&](int i) { return z(e->k[i]); };
        switch (e->op) {
            case Op::Const: r = e->big->isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
            case Op::Eq: r = Z3_mk_eq(ctx, k(0), k(1)); break;
            case Op::Ult: r = Z3_mk_bvult(ctx, k(0), k(1)); break;
            case Op::Ule: r = Z3_mk_bvule(ctx, k(0), k(1)); break;
            case Op::Slt: r = Z3_mk_bvslt(ctx, k(0), k(1)); break;
            case Op::Sle: r = Z3_mk_bvsle(ctx, k(0), k(1)); break;
            case Op::REq: r = Z3_mk_eq(ctx, k(0), k(1)); break;
            case Op::RLt: r = Z3_mk_lt(ctx, k(0), k(1)); break;
            case Op::RLe: r = Z3_mk_le(ctx, k(0), k(1)); break;
            case Op::FEq: r = Z3_mk_fpa_eq(ctx, tofp(e->k[0]), tofp(e->k[1])); break;
            case Op::FLt: r = Z3_mk_fpa_lt(ctx, tofp(e->k[0]), tofp(e->k[1])); break;
            case Op::FLe: r = Z3_mk_fpa_leq(ctx, tofp(e->k[0]), tofp(e->k[1])); break;
            case Op::FUno: { Z3_ast a[2] = {keep(Z3_mk_fpa_is_nan(ctx, tofp(e->k[0]))), keep(Z3_mk_fpa_is_nan(ctx, tofp(e->k[1])))}; r = Z3_mk_or(ctx, 2, a); break; }
            case Op::And: if (e->w == 1) { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }  // fallthrough
            case Op::Or: if (e->w == 1 && e->op == Op::Or) { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
            case Op::Xor: if (e->w == 1 && e->op == Op::Xor) {
                    if (e->k[1]->isConst()) { r = Z3_mk_not(ctx, zb(e->k[0])); break; }
                    r = Z3_mk_xor(ctx, zb(e->k[0]), zb(e->k[1])); break; }
            case Op::Ite: if (e->w == 1 && e->op == Op::Ite) { r = Z3_mk_ite(ctx, zb(e->k[0]), zb(e->k[1]), zb(e->k[2])); break; }
            default: r = Z3_mk_eq(ctx, z(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
        }
        e->bast = keep(r);
        return e->bast;
    }
    std::string numeral(const llvm::APInt &v) { llvm::SmallString<64> s; v.toString(s, 10, false); return std::string(s.c_str()); }
    Z3_ast z(Expr *e) {
        if (e->ast) return e->ast;
        Z3_ast r = nullptr;
        auto k = [&](int i) { return z(e->k[i]); };
        if (isPred(e)) {
            Z3_sort s = Z3_mk_bv_sort(ctx, 1);
            r = Z3_mk_ite(ctx, zb(e), keep(Z3_mk_unsigned_int64(ctx, 1, s)), keep(Z3_mk_unsigned_int64(ctx, 0, s)));
            e->ast = keep(r);
            return r;
        }
        switch (e->op) {
            case Op::Const: r = Z3_mk_numeral(ctx, numeral(*e->big).c_str(), Z3_mk_bv_sort(ctx, e->w)); break;
            case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (e->name + "!" + std::to_string(e->aux)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
            case Op::Add: 
                if (isNegOf(e->k[1], e->k[1]->k.empty() ? nullptr : e->k[1]->k[0])) r = Z3_mk_bvsub(ctx, k(0), z(e->k[1]->k[0]));
                else if (isNegOf(e->k[0], e->k[0]->k.empty() ? nullptr : e->k[0]->k[0])) r = Z3_mk_bvsub(ctx, k(1), z(e->k[0]->k[0]));
                else r = Z3_mk_bvadd(ctx, k(0), k(1));
                break;
            case Op::Mul:
                if (e->k[1]->isConst() && e->k[1]->big->isAllOnes()) r = Z3_mk_bvneg(ctx, k(0));
                else r = Z3_mk_bvmul(ctx, k(0), k(1));
                break;
            case Op::UDiv: r = Z3_mk_bvudiv(ctx, k(0), k(1)); break;
            case Op::SDiv: r = Z3_mk_bvsdiv(ctx, k(0), k(1)); break;
            case Op::URem: r = Z3_mk_bvurem(ctx, k(0), k(1)); break;
            case Op::SRem: r = Z3_mk_bvsrem(ctx, k(0), k(1)); break;
            case Op::And: r = Z3_mk_bvand(ctx, k(0), k(1)); break;
            case Op::Or: r = Z3_mk_bvor(ctx, k(0), k(1)); break;
            case Op::Xor: r = Z3_mk_bvxor(ctx, k(0), k(1)); break;
            case Op::Shl: r = Z3_mk_bvshl(ctx, k(0), k(1)); break;
            case Op::LShr: r = Z3_mk_bvlshr(ctx, k(0), k(1)); break;
            case Op::AShr: r = Z3_mk_bvashr(ctx, k(0), k(1)); break;
            case Op::Ite: case Op::RIte: r = Z3_mk_ite(ctx, zb(e->k[0]), k(1), k(2)); break;
            case Op::Concat: r = Z3_mk_concat(ctx, k(0), k(1)); break;
            case Op::Extract: r = Z3_mk_extract(ctx, (unsigned) e->aux + e->w - 1, (unsigned) e->aux, k(0)); break;
            case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, k(0)); break;
            case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, k(0)); break;
            case Op::FAdd: r = FB(Z3_mk_fpa_add(ctx, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
            case Op::FSub: r = FB(Z3_mk_fpa_sub(ctx, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
            case Op::FMul: r = FB(Z3_mk_fpa_mul(ctx, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
            case Op::FDiv: r = FB(Z3_mk_fpa_div(ctx, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
            case Op::FSqrt: r = FB(Z3_mk_fpa_sqrt(ctx, rne(), tofp(e->k[0]))); break;
            case Op::FFma: r = FB(Z3_mk_fpa_fma(ctx, rne(), tofp(e->k[0]), tofp(e->k[1]), tofp(e->k[2]))); break;
            case Op::FExt: case Op::FTrunc: r = FB(Z3_mk_fpa_to_fp_float(ctx, rne(), tofp(e->k[0]), fpsort(e->w))); break;
            case Op::FToSI: r = Z3_mk_fpa_to_sbv(ctx, e->aux ? rne() : keep(Z3_mk_fpa_rtz(ctx)), tofp(e->k[0]), e->w); break;
            case Op::FToUI: r = Z3_mk_fpa_to_ubv(ctx, keep(Z3_mk_fpa_rtz(ctx)), tofp(e->k[0]), e->w); break;
            case Op::SIToF: r = FB(Z3_mk_fpa_to_fp_signed(ctx, rne(), k(0), fpsort(e->w))); break;
            case Op::UIToF: r = FB(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), k(0), fpsort(e->w))); break;
            case Op::FRound: {
                Z3_ast m = e->aux == 0 ? rne() : e->aux == 1 ? keep(Z3_mk_fpa_rtn(ctx)) : e->aux == 2 ? keep(Z3_mk_fpa_rtp(ctx)) : e->aux == 3 ? keep(Z3_mk_fpa_rtz(ctx)) : keep(Z3_mk_fpa_rna(ctx));
                r = FB(Z3_mk_fpa_round_to_integral(ctx, m, tofp(e->k[0]))); break; }
            case Op::RConst: {
                double d = rval(e);
                // exact rational
                int ex; double m = std::frexp(d, &ex);
                int64_t mi = (int64_t) std::ldexp(m, 53); ex -= 53;
                while (mi && !(mi & 1)) { mi /= 2; ex++; }
                if (mi == 0) ex = 0;
                llvm::APInt num(1200, (uint64_t) (mi < 0 ? -mi : mi)), den(1200, 1);
                if (ex >= 0) num = num.shl(ex); else den = den.shl(-ex);
                std::string s = (mi < 0 ? "-" : "") + numeral(num) + "/" + numeral(den);
                r = Z3_mk_numeral(ctx, s.c_str(), Z3_mk_real_sort(ctx)); break; }
            case Op::RSym: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (e->name + "!" + std::to_string(e->aux)).c_str()), Z3_mk_real_sort(ctx)); break;
            case Op::RAdd: { Z3_ast a[2] = {k(0), k(1)}; r = Z3_mk_add(ctx, 2, a); break; }
            case Op::RMul: { Z3_ast a[2] = {k(0), k(1)}; r = Z3_mk_mul(ctx, 2, a); break; }
            case Op::RDiv: r = Z3_mk_div(ctx, k(0), k(1)); break;
            case Op::RUF: {
                std::vector<Z3_sort> ds(e->k.size(), Z3_mk_real_sort(ctx)); std::vector<Z3_ast> as;
                for (auto x : e->k) as.push_back(z(x));
                Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf_" + e->name).c_str()), (unsigned) ds.size(), ds.data(), Z3_mk_real_sort(ctx));
                r = Z3_mk_app(ctx, f, (unsigned) as.size(), as.data()); break; }
            case Op::RFromSI: r = Z3_mk_int2real(ctx, keep(Z3_mk_bv2int(ctx, k(0), true))); break;
            case Op::RFromUI: r = Z3_mk_int2real(ctx, keep(Z3_mk_bv2int(ctx, k(0), false))); break;
            case Op::RFloor: r = Z3_mk_int2real(ctx, keep(Z3_mk_real2int(ctx, k(0)))); break;
            case Op::RTrunc2SI: {
                Z3_ast x = k(0), zero = keep(Z3_mk_numeral(ctx, "0", Z3_mk_real_sort(ctx)));
                Z3_ast fl = keep(Z3_mk_real2int(ctx, x)), nx = keep(Z3_mk_unary_minus(ctx, x)), nf = keep(Z3_mk_real2int(ctx, nx));
                Z3_ast nfl = keep(Z3_mk_unary_minus(ctx, nf)), ge = keep(Z3_mk_ge(ctx, x, zero));
                r = Z3_mk_int2bv(ctx, e->w, keep(Z3_mk_ite(ctx, ge, fl, nfl))); break; }
            default: throw std::runtime_error("z3: unhandled op " + std::to_string((int) e->op));
        }
        e->ast = keep(r);
        return r;
    }
    // recursion depth safe-guard: build children iteratively first
    void prepare(Expr *root) {
        std::vector<std::pair<Expr *, unsigned>> st{{root, 0}};
        std::unordered_set<Expr *> seen;
        while (!st.empty()) {
            auto &t = st.back();
            if (t.first->ast || t.second >= t.first->k.size()) { 
                Expr *e = t.first; st.pop_back();
                if (!e->ast && !isPred(e)) z(e); else if (isPred(e) && !e->bast) zb(e);
                continue; }
            Expr *c = t.first->k[t.second++];
            if (!c->ast && !c->bast && seen.insert(c).second) st.push_back({c, 0});
        }
    }
};
