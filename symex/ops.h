// instruction semantics (included inside struct Exec)
static int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t) v; uint64_t m = 1ULL << (w - 1); v &= msk(w); return (int64_t) ((v ^ m) - m); }

Val intBin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (w <= 64 && a.k != Val::E && b.k != Val::E) {
        uint64_t x = a.c, y = b.c, r = 0;
        switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: r = y >= w ? 0 : x << y; break;
            case Instruction::LShr: r = y >= w ? 0 : (x & msk(w)) >> y; break;
            case Instruction::AShr: r = (uint64_t) (sx(x, w) >> (y >= w ? 63 : y)); break;
            case Instruction::UDiv: case Instruction::URem: if ((y & msk(w)) == 0) throw Bug{"arithmetic", "division by zero"}; r = op == Instruction::UDiv ? (x & msk(w)) / (y & msk(w)) : (x & msk(w)) % (y & msk(w)); break;
            case Instruction::SDiv: case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w); if (q == 0) throw Bug{"arithmetic", "division by zero"}; if (q == -1) { if (p == sx(1ULL << (w - 1), w) && w >= 32) throw Bug{"arithmetic", "signed division overflow"}; r = op == Instruction::SDiv ? (uint64_t) (-(unsigned long long) p) : 0; } else r = (uint64_t) (op == Instruction::SDiv ? p / q : p % q); break; }
            default: throw Unsup{"int op"};
        }
        return Val::con(r & msk(w));
    }
    // a real passing through bit-ops: only identity-like operations are meaningful
    Expr *x, *y;
    if (a.isReal() || b.isReal()) {
        // sign-bit tricks on reals
        if (a.isReal() && b.k == Val::C) {
            uint64_t sb = 1ULL << (w - 1);
            if (op == Instruction::Xor && b.c == sb) return Val::ex(EM->rneg(a.e()));
            if (op == Instruction::And && b.c == (msk(w) ^ sb)) return Val::ex(rabs(a.e()));
        }
        throw Unsup{"bit operation on a Real-mode float"};
    }
    x = E(a, w); y = E(b, w);
    switch (op) {
        case Instruction::Add: return Val::ex(EM->add(x, y));
        case Instruction::Sub: return Val::ex(EM->sub(x, y));
        case Instruction::Mul: return Val::ex(EM->mul(x, y));
        case Instruction::And: return Val::ex(EM->band(x, y));
        case Instruction::Or: return Val::ex(EM->bor(x, y));
        case Instruction::Xor: return Val::ex(EM->bxor(x, y));
        case Instruction::Shl: return Val::ex(EM->bin(Op::Shl, x, y));
        case Instruction::LShr: return Val::ex(EM->bin(Op::LShr, x, y));
        case Instruction::AShr: return Val::ex(EM->bin(Op::AShr, x, y));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            if (!y->isConst()) { if (branch(EM->eq(y, EM->cst(w, 0)))) throw Bug{"arithmetic", "division by zero"}; }
            else if (y->big->isZero()) throw Bug{"arithmetic", "division by zero"};
            return Val::ex(EM->bin(op == Instruction::UDiv ? Op::UDiv : op == Instruction::URem ? Op::URem : op == Instruction::SDiv ? Op::SDiv : Op::SRem, x, y)); }
        default: throw Unsup{"int op"};
    }
}
Expr *rabs(Expr *x) { return EM->ite(EM->rcmp(Op::RLt, x, EM->rcst(0)), EM->rneg(x), x); }

bool realMode(const Val &a, const Val &b) { return a.isReal() || b.isReal(); }
Val fltBin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k != Val::E && b.k != Val::E) {
        if (w == 32) { float x, y, r; uint32_t xi = (uint32_t) a.c, yi = (uint32_t) b.c; memcpy(&x, &xi, 4); memcpy(&y, &yi, 4);
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; default: throw Unsup{"fp op"}; }
            memcpy(&xi, &r, 4); return Val::con(xi); }
        if (w == 64) { double x = dbl(a.c, 64), y = dbl(b.c, 64), r;
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; default: throw Unsup{"fp op"}; }
            return Val::con(bits(r, 64)); }
        throw Unsup{"fp width"};
    }
    if (realMode(a, b)) {
        // concrete non-finite with real: min/max idioms handled by callers; here unsupported
        Expr *x = R(a, w), *y = R(b, w);
        switch (op) {
            case Instruction::FAdd: return Val::ex(EM->radd(x, y)); case Instruction::FSub: return Val::ex(EM->rsub(x, y)); case Instruction::FMul: return Val::ex(EM->rmul(x, y));
            case Instruction::FDiv: { Expr *z = EM->rcmp(Op::REq, y, EM->rcst(0)); if (branch(z)) return Val::ex(EM->rsym("quotient_by_zero")); return Val::ex(EM->rdiv(x, y)); }
            default: throw Unsup{"real op"};
        }
    }
    Expr *x = E(a, w), *y = E(b, w);
    switch (op) { case Instruction::FAdd: return Val::ex(EM->fp(Op::FAdd, w, {x, y})); case Instruction::FSub: return Val::ex(EM->fp(Op::FSub, w, {x, y})); case Instruction::FMul: return Val::ex(EM->fp(Op::FMul, w, {x, y})); case Instruction::FDiv: return Val::ex(EM->fp(Op::FDiv, w, {x, y})); default: throw Unsup{"fp op"}; }
}
Val fcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (p == CmpInst::FCMP_FALSE) return Val::con(0); if (p == CmpInst::FCMP_TRUE) return Val::con(1);
    if (a.k != Val::E && b.k != Val::E) {
        double x = dbl(a.c, w), y = dbl(b.c, w); bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        }
        return Val::con(r);
    }
    if (realMode(a, b)) {
        // comparison with infinity / NaN constant
        for (int s = 0; s < 2; ++s) { const Val &q = s ? a : b; if (q.k == Val::C) { double d = dbl(q.c, w); if (std::isinf(d) || std::isnan(d)) { Val z = Val::con(0); return s ? fcmp(p, a, z, w) : fcmp(p, z, b, w); } } }
        Expr *x = R(a, w), *y = R(b, w);
        switch (p) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return Val::ex(EM->rcmp(Op::REq, x, y));
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return Val::ex(EM->bnot(EM->rcmp(Op::REq, x, y)));
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return Val::ex(EM->rcmp(Op::RLt, y, x));
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return Val::ex(EM->rcmp(Op::RLe, y, x));
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return Val::ex(EM->rcmp(Op::RLt, x, y));
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return Val::ex(EM->rcmp(Op::RLe, x, y));
            case CmpInst::FCMP_ORD: return Val::con(1); case CmpInst::FCMP_UNO: return Val::con(0);
        }
    }
    Expr *x = E(a, w), *y = E(b, w); Expr *un = EM->fp(Op::FUno, 1, {x, y});
    Expr *r;
    switch (p) {
        case CmpInst::FCMP_OEQ: r = EM->fp(Op::FEq, 1, {x, y}); break; case CmpInst::FCMP_UNE: r = EM->bnot(EM->fp(Op::FEq, 1, {x, y})); break;
        case CmpInst::FCMP_OLT: r = EM->fp(Op::FLt, 1, {x, y}); break; case CmpInst::FCMP_OGT: r = EM->fp(Op::FLt, 1, {y, x}); break;
        case CmpInst::FCMP_OLE: r = EM->fp(Op::FLe, 1, {x, y}); break; case CmpInst::FCMP_OGE: r = EM->fp(Op::FLe, 1, {y, x}); break;
        case CmpInst::FCMP_ULT: r = EM->bnot(EM->fp(Op::FLe, 1, {y, x})); break; case CmpInst::FCMP_UGT: r = EM->bnot(EM->fp(Op::FLe, 1, {x, y})); break;
        case CmpInst::FCMP_ULE: r = EM->bnot(EM->fp(Op::FLt, 1, {y, x})); break; case CmpInst::FCMP_UGE: r = EM->bnot(EM->fp(Op::FLt, 1, {x, y})); break;
        case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = EM->bnot(un); break;
        case CmpInst::FCMP_UEQ: r = EM->bor(un, EM->fp(Op::FEq, 1, {x, y})); break;
        case CmpInst::FCMP_ONE: r = EM->band(EM->bnot(un), EM->bnot(EM->fp(Op::FEq, 1, {x, y}))); break;
        default: throw Unsup{"fcmp"};
    }
    return Val::ex(r);
}
Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (a.k != Val::E && b.k != Val::E && w <= 64) {
        uint64_t x = a.c & msk(w), y = b.c & msk(w); int64_t s = sx(x, w), t = sx(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; }
        return Val::con(r);
    }
    if (a.isReal() || b.isReal()) {
        // sign test of a real through its bits
        if (a.isReal() && b.k == Val::C && p == CmpInst::ICMP_SLT && b.c == 0) return Val::ex(EM->rcmp(Op::RLt, a.e(), EM->rcst(0)));
        throw Unsup{"integer comparison of a Real-mode float"};
    }
    Expr *x = E(a, w), *y = E(b, w); Expr *r;
    switch (p) {
        case CmpInst::ICMP_EQ: r = EM->eq(x, y); break; case CmpInst::ICMP_NE: r = EM->bnot(EM->eq(x, y)); break;
        case CmpInst::ICMP_ULT: r = EM->cmp(Op::Ult, x, y); break; case CmpInst::ICMP_ULE: r = EM->cmp(Op::Ule, x, y); break; case CmpInst::ICMP_UGT: r = EM->cmp(Op::Ult, y, x); break; case CmpInst::ICMP_UGE: r = EM->cmp(Op::Ule, y, x); break;
        case CmpInst::ICMP_SLT: r = EM->cmp(Op::Slt, x, y); break; case CmpInst::ICMP_SLE: r = EM->cmp(Op::Sle, x, y); break; case CmpInst::ICMP_SGT: r = EM->cmp(Op::Slt, y, x); break; case CmpInst::ICMP_SGE: r = EM->cmp(Op::Sle, y, x); break;
        default: throw Unsup{"icmp"};
    }
    return Val::ex(r);
}
Val selectV(const Val &c, const Val &a, const Val &b, TI *t) {
    if (c.k != Val::E) return c.c & 1 ? a : b;
    Expr *ce = c.e();
    if (implied(S, ce)) return a; if (implied(S, EM->bnot(ce))) return b;
    if (a.k == Val::A || b.k == Val::A) { std::vector<Val> v; size_t n = a.k == Val::A ? a.a().size() : b.a().size(); for (size_t i = 0; i < n; ++i) v.push_back(selectV(c, a.a()[i], b.a()[i], t->k == TI::Struct ? t->el[i] : t->el[0])); return Val::agg(std::move(v)); }
    if (a.isReal() || b.isReal()) {
        for (int s = 0; s < 2; ++s) { const Val &q = s ? a : b; if (q.k == Val::C) { double d = dbl(q.c, t->w); if (std::isinf(d) || std::isnan(d)) return branch(ce) ? a : b; } }
        return Val::ex(EM->ite(ce, R(a, t->w), R(b, t->w)));
    }
    return Val::ex(EM->ite(ce, E(a, t->w), E(b, t->w)));
}
Val castV(unsigned op, const Val &a, TI *ft, TI *tt) {
    unsigned fw = ft->w, tw = tt->w;
    switch (op) {
        case Instruction::Trunc: if (a.k != Val::E) return Val::con(a.c & msk(tw)); return Val::ex(EM->extract(E(a, fw), 0, tw));
        case Instruction::ZExt: if (a.k != Val::E) { if (tw <= 64) return Val::con(a.c & msk(fw)); return Val::ex(EM->cst(APInt(tw, a.c & msk(fw)))); } return Val::ex(EM->zext(E(a, fw), tw));
        case Instruction::SExt: if (a.k != Val::E) { if (tw <= 64) return Val::con((uint64_t) sx(a.c, fw) & msk(tw)); return Val::ex(EM->cst(APInt(tw, (uint64_t) sx(a.c, fw), true))); } return Val::ex(EM->sext(E(a, fw), tw));
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (fw == tw) return a; if (tw < fw) return castV(Instruction::Trunc, a, ft, tt); return castV(Instruction::ZExt, a, ft, tt);
        case Instruction::FPTrunc: case Instruction::FPExt:
            if (a.isReal()) return a;
            if (a.k != Val::E) return Val::con(bits(dbl(a.c, fw), tw));
            return Val::ex(EM->fp(op == Instruction::FPExt ? Op::FExt : Op::FTrunc, tw, {E(a, fw)}));
        case Instruction::SIToFP: case Instruction::UIToFP: {
            if (a.k != Val::E) { if (op == Instruction::SIToFP) { int64_t s = sx(a.c, fw); return Val::con(tw == 32 ? bits32((float) s) : bits((double) s, tw)); } uint64_t u = a.c & msk(fw); return Val::con(tw == 32 ? bits32((float) u) : bits((double) u, tw)); }
            Expr *e = E(a, fw);
            if (realInts) return Val::ex(EM->intern(op == Instruction::SIToFP ? Op::RFromSI : Op::RFromUI, true, 0, 0, {e}));
            return Val::ex(EM->fp(op == Instruction::SIToFP ? Op::SIToF : Op::UIToF, tw, {e})); }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            if (a.isReal()) { int64_t k; if (a.e()->op != Op::RFromSI && a.e()->op != Op::RFromUI && pinned(a.e(), k)) return Val::con((uint64_t) k & msk(tw)); return Val::ex(EM->rtrunc(a.e(), tw)); }
            if (a.k != Val::E) { double d = std::trunc(dbl(a.c, fw)); if (std::isnan(d)) return Val::con(op == Instruction::FPToSI ? (1ULL << (tw - 1)) : 0);
                if (op == Instruction::FPToSI) { if (!(d >= -std::ldexp(1.0, (int) tw - 1) && d < std::ldexp(1.0, (int) tw - 1))) return Val::con(tw >= 32 ? (1ULL << (tw - 1)) & msk(tw) : (uint64_t) (int64_t) (int32_t) (std::fabs(d) < 2147483648.0 ? (int32_t) d : INT32_MIN) & msk(tw)); return Val::con((uint64_t) (int64_t) d & msk(tw)); }
                if (d < 0) return Val::con((uint64_t) (int64_t) (d < -9.2e18 ? INT64_MIN : (int64_t) d) & msk(tw)); if (d >= 18446744073709551616.0) return Val::con(msk(tw)); return Val::con((uint64_t) d & msk(tw)); }
            return Val::ex(EM->fp(op == Instruction::FPToSI ? Op::FToSI : Op::FToUI, tw, {E(a, fw)})); }
        default: throw Unsup{"cast"};
    }
}
static uint64_t bits32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
bool realInts = true;

template <class F> Val mapVec(TI *t, F f) { std::vector<Val> v; v.reserve(t->n); for (uint64_t i = 0; i < t->n; ++i) v.push_back(f(i)); return Val::agg(std::move(v)); }

// flatten vector <-> integer bits for bitcast
Val bitcast(const Val &a, TI *f, TI *t) {
    if (f->k != TI::Vec && t->k != TI::Vec) return a;
    if (f->k == TI::Vec && t->k == TI::Vec && f->n == t->n) return a;
    unsigned fw = f->k == TI::Vec ? f->el[0]->w : f->w, tw = t->k == TI::Vec ? t->el[0]->w : t->w; 
    std::vector<Val> src; if (f->k == TI::Vec) src = a.a(); else src.push_back(a);
    unsigned n = (unsigned) (src.size() * fw / tw); std::vector<Val> out;
    for (unsigned i = 0; i < n; ++i) {
        if (fw == tw) { out.push_back(src[i]); continue; }
        if (fw > tw) { unsigned per = fw / tw; const Val &s = src[i / per]; unsigned lo = (i % per) * tw; if (s.k != Val::E) { out.push_back(Val::con((s.c >> lo) & msk(tw))); } else out.push_back(Val::ex(EM->extract(E(s, fw), lo, tw))); }
        else { unsigned per = tw / fw; bool allc = true; for (unsigned j = 0; j < per; ++j) if (src[i * per + j].k == Val::E) allc = false;
            if (allc && tw <= 64) { uint64_t x = 0; for (unsigned j = 0; j < per; ++j) x |= (src[i * per + j].c & msk(fw)) << (j * fw); out.push_back(Val::con(x)); }
            else { Expr *r = nullptr; for (int j = (int) per - 1; j >= 0; --j) { Expr *b = E(src[i * per + j], fw); r = r ? EM->concat(r, b) : b; } out.push_back(Val::ex(r)); } }
    }
    if (t->k != TI::Vec) return out[0];
    return Val::agg(std::move(out));
}

void step(Frame &fr, DI &d) {
    auto setd = [&](Val &&v) { fr.r[d.dst] = std::move(v); fr.ip++; };
    switch (d.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            const Val &a = get(fr, d.o[0]), &b = get(fr, d.o[1]);
            if (d.t->k == TI::Vec) { setd(mapVec(d.t, [&](uint64_t i) { return intBin(d.op, a.a()[i], b.a()[i], d.t->el[0]->w); })); return; }
            setd(intBin(d.op, a, b, d.t->w)); return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            const Val &a = get(fr, d.o[0]), &b = get(fr, d.o[1]);
            if (d.t->k == TI::Vec) { setd(mapVec(d.t, [&](uint64_t i) { return fltBin(d.op, a.a()[i], b.a()[i], d.t->el[0]->w); })); return; }
            setd(fltBin(d.op, a, b, d.t->w)); return; }
        case Instruction::FNeg: {
            auto neg = [&](const Val &a, unsigned w) -> Val { if (a.isReal()) return Val::ex(EM->rneg(a.e())); if (a.k != Val::E) return Val::con((a.c ^ (1ULL << (w - 1))) & msk(w)); return Val::ex(EM->bxor(E(a, w), EM->cst(w, 1ULL << (w - 1)))); };
            const Val &a = get(fr, d.o[0]);
            if (d.t->k == TI::Vec) { setd(mapVec(d.t, [&](uint64_t i) { return neg(a.a()[i], d.t->el[0]->w); })); return; }
            setd(neg(a, d.t->w)); return; }
        case Instruction::ICmp: case Instruction::FCmp: {
            const Val &a = get(fr, d.o[0]), &b = get(fr, d.o[1]);
            if (d.t0->k == TI::Vec) { setd(mapVec(d.t0, [&](uint64_t i) { return d.op == Instruction::ICmp ? icmp(d.pred, a.a()[i], b.a()[i], d.t0->el[0]->w) : fcmp(d.pred, a.a()[i], b.a()[i], d.t0->el[0]->w); })); return; }
            setd(d.op == Instruction::ICmp ? icmp(d.pred, a, b, d.t0->w) : fcmp(d.pred, a, b, d.t0->w)); return; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
            const Val &a = get(fr, d.o[0]);
            if (d.t->k == TI::Vec) { setd(mapVec(d.t, [&](uint64_t i) { return castV(d.op, a.a()[i], d.t0->el[0], d.t->el[0]); })); return; }
            setd(castV(d.op, a, d.t0, d.t)); return; }
        case Instruction::BitCast: setd(bitcast(get(fr, d.o[0]), d.t0, d.t)); return;
        case Instruction::Freeze: case Instruction::AddrSpaceCast: setd(Val(get(fr, d.o[0]))); return;
        case Instruction::Select: {
            const Val &c = get(fr, d.o[0]), &a = get(fr, d.o[1]), &b = get(fr, d.o[2]);
            if (d.t0->k == TI::Vec) { setd(mapVec(d.t, [&](uint64_t i) { return selectV(c.a()[i], a.a()[i], b.a()[i], d.t->el[0]); })); return; }
            setd(selectV(c, a, b, d.t)); return; }
        case Instruction::GetElementPtr: {
            const Val &p = get(fr, d.o[0]);
            if (p.k == Val::E || [&] { for (auto &g : d.gep) if (get(fr, g.first).k == Val::E) return true; return false; }()) {
                Expr *e = EM->add(E(p, 64), EM->cst(64, d.imm)); size_t i = 0;
                for (auto &g : d.gep) { const Val &x = get(fr, g.first); unsigned w = (unsigned) d.idx[i++]; Expr *ix = x.k == Val::E ? (w < 64 ? EM->sext(x.e(), 64) : EM->extract(x.e(), 0, 64)) : EM->cst(64, (uint64_t) sx(x.c, w)); e = EM->add(e, EM->mul(ix, EM->cst(64, g.second))); }
                setd(Val::ex(e)); return; }
            uint64_t a = p.c + d.imm; size_t i = 0; for (auto &g : d.gep) { a += (uint64_t) sx(get(fr, g.first).c, (unsigned) d.idx[i++]) * g.second; }
            setd(Val::con(a)); return; }
        case Instruction::Load: {
            if (S->th.size() > 1 && d.I->isAtomic()) { uint64_t a = conc(get(fr, d.o[0]), 64, "atomic address"); atomicAcc = true; Val v; try { v = loadT(a, d.t); } catch (...) { atomicAcc = false; throw; } atomicAcc = false; if (isAcquireOrStronger(cast<LoadInst>(d.I)->getOrdering())) syncAcq(a); setd(std::move(v)); if (preemptAt >= 1) maybePreempt(); return; }
            const Val &p = get(fr, d.o[0]);
            if (p.k == Val::E) { Val out; if (fixedValue(p.e()), fixedOk) { setd(loadT(fixedValue(p.e()), d.t)); return; } if (symLoad(p.e(), d.t, out)) { setd(std::move(out)); return; } uint64_t a = conc(p, 64, "load address"); setd(loadT(a, d.t)); return; }
            setd(loadT(p.c, d.t)); return; }
        case Instruction::Store: {
            if (S->th.size() > 1 && d.I->isAtomic()) { uint64_t a = conc(get(fr, d.o[1]), 64, "atomic address"); atomicAcc = true; try { storeT(a, get(fr, d.o[0]), d.t0); } catch (...) { atomicAcc = false; throw; } atomicAcc = false; if (isReleaseOrStronger(cast<StoreInst>(d.I)->getOrdering())) syncRel(a); else race().sync.erase(a); fr.ip++; if (preemptAt >= 1) maybePreempt(); return; }
            uint64_t a = conc(get(fr, d.o[1]), 64, "store address"); storeT(a, get(fr, d.o[0]), d.t0); fr.ip++; return; }
        case Instruction::Alloca: {
            uint64_t n = conc(get(fr, d.o[0]), 64, "alloca count"); uint64_t a = allocStk(d.t0->alloc * n, d.imm); fr.allocas.push_back(a); setd(Val::con(a)); return; }
        case Instruction::Br:
            if (d.bb.size() == 1) { jump(fr, d.bb[0]); return; }
            { const Val &c = get(fr, d.o[0]); bool b = c.k != Val::E ? (c.c & 1) : branch(c.e()); jump(top(), b ? d.bb[0] : d.bb[1]); return; }
        case Instruction::Switch: {
            const Val &c = get(fr, d.o[0]);
            if (c.k != Val::E) { for (auto &x : d.cases) if (x.first.c == (c.c & msk(d.t0->w))) { jump(fr, x.second); return; } jump(fr, d.bb[0]); return; }
            Expr *ce = E(c, d.t0->w);
            for (auto &x : d.cases) { if (branch(EM->eq(ce, EM->cst(d.t0->w, x.first.c)))) { jump(top(), x.second); return; } }
            jump(top(), d.bb[0]); return; }
        case Instruction::Ret: { Val v; if (!d.o.empty()) v = get(fr, d.o[0]); ret(v); return; }
        case Instruction::Unreachable: throw Bug{"unreachable", "control reaches unreachable code (missing return / undefined behaviour)"};
        case Instruction::ExtractValue: { Val v = get(fr, d.o[0]); for (auto x : d.idx) { if (v.k != Val::A) { v = Val(); break; } Val q = v.a()[x]; v = q; } setd(std::move(v)); return; }
        case Instruction::InsertValue: { std::function<Val(const Val &, TI *, size_t)> ins = [&](const Val &v, TI *t, size_t k) -> Val { if (k == d.idx.size()) return get(fr, d.o[1]); std::vector<Val> x; if (v.k == Val::A) x = v.a(); else x.resize(t->n); TI *et = t->k == TI::Struct ? t->el[d.idx[k]] : t->el[0]; x[d.idx[k]] = ins(x[d.idx[k]], et, k + 1); return Val::agg(std::move(x)); };
            Val r = ins(get(fr, d.o[0]), d.t, 0); setd(std::move(r)); return; }
        case Instruction::ExtractElement: { uint64_t i = conc(get(fr, d.o[1]), 64, "vector index"); Val v = get(fr, d.o[0]).a().at(i); setd(std::move(v)); return; }
        case Instruction::InsertElement: { uint64_t i = conc(get(fr, d.o[2]), 64, "vector index"); std::vector<Val> v; const Val &b = get(fr, d.o[0]); if (b.k == Val::A) v = b.a(); else v.resize(d.t->n); v.at(i) = get(fr, d.o[1]); setd(Val::agg(std::move(v))); return; }
        case Instruction::ShuffleVector: { const Val &a = get(fr, d.o[0]), &b = get(fr, d.o[1]); std::vector<Val> v; int n = (int) d.t0->n; for (int m : d.mask) { if (m < 0) v.push_back(Val::con(0)); else if (m < n) v.push_back(a.k == Val::A ? a.a()[m] : Val::con(0)); else v.push_back(b.k == Val::A ? b.a()[m - n] : Val::con(0)); } setd(Val::agg(std::move(v))); return; }
        case Instruction::Call: case Instruction::Invoke: call(fr, d); return;
        case Instruction::Resume: { uint64_t e = get(fr, d.o[0]).a()[0].c; unwind(e); return; }
        case Instruction::LandingPad: throw Unsup{"stray landingpad"};
        case Instruction::AtomicRMW: {
            uint64_t a = conc(get(fr, d.o[0]), 64, "atomic address"); auto RM = cast<AtomicRMWInst>(d.I); struct At { bool &f; At(bool &x) : f(x) { f = true; } ~At() { f = false; } } at(atomicAcc); if (isAcquireOrStronger(RM->getOrdering())) syncAcq(a); Val old = loadT(a, d.t), v = get(fr, d.o[1]), nv;
            switch (RM->getOperation()) { case AtomicRMWInst::Add: nv = intBin(Instruction::Add, old, v, d.t->w); break; case AtomicRMWInst::Sub: nv = intBin(Instruction::Sub, old, v, d.t->w); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = intBin(Instruction::Or, old, v, d.t->w); break; case AtomicRMWInst::And: nv = intBin(Instruction::And, old, v, d.t->w); break; default: throw Unsup{"atomicrmw"}; }
            storeT(a, nv, d.t); if (isReleaseOrStronger(RM->getOrdering())) syncRel(a); setd(std::move(old)); if (preemptAt >= 2) maybePreempt(); return; }
        case Instruction::AtomicCmpXchg: {
            uint64_t a = conc(get(fr, d.o[0]), 64, "atomic address"); TI *t = d.t0; struct At { bool &f; At(bool &x) : f(x) { f = true; } ~At() { f = false; } } at(atomicAcc); syncAcq(a); Val old = loadT(a, t); Val eqv = icmp(CmpInst::ICMP_EQ, old, get(fr, d.o[1]), t->w); bool b = eqv.k != Val::E ? eqv.c : branch(eqv.e()); if (b) { storeT(a, get(top(), d.o[2]), t); syncRel(a); } Frame &f2 = top(); f2.r[d.dst] = Val::agg({old, Val::con(b)}); f2.ip++; if (preemptAt >= 2) maybePreempt(); return; }
        case Instruction::Fence: fr.ip++; return;
        case Instruction::VAArg: throw Unsup{"va_arg"};
        default: throw Unsup{std::string("instruction ") + d.I->getOpcodeName()};
    }
}
