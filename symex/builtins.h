// calls, intrinsics, runtime model (included inside struct Exec)
std::string cstr(uint64_t a) { std::string s; for (;;) { Obj *o = access(a, 1, false); uint64_t off = a - o->base; if (o->s && (*o->s)[off].e) return s + "?"; if (!o->b[off]) return s; s += (char) o->b[off]; ++a; if (s.size() > 4000) return s; } }
void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    Obj *so = access(src, n, false); OR hold(so);  // keep source alive across COW
    uint64_t soff = src - so->base;
    if (!so->s) { std::vector<uint8_t> tmp(so->b.begin() + soff, so->b.begin() + soff + n); hold = OR(); Obj *d = access(dst, n, true); uint64_t doff = dst - d->base; memcpy(&d->b[doff], tmp.data(), n); if (d->s) for (uint64_t i = 0; i < n && d->s; ++i) clrSym(d, doff + i); return; }
    std::vector<uint8_t> tmp(so->b.begin() + soff, so->b.begin() + soff + n); std::vector<SB> ts(so->s->begin() + soff, so->s->begin() + soff + n); hold = OR();
    Obj *d = access(dst, n, true); uint64_t doff = dst - d->base;
    for (uint64_t i = 0; i < n; ++i) { d->b[doff + i] = tmp[i]; if (ts[i].e) setSym(d, doff + i, ts[i].e, ts[i].i); else clrSym(d, doff + i); }
}
void setMem(uint64_t dst, const Val &v, uint64_t n) {
    if (!n) return; Obj *d = access(dst, n, true); uint64_t off = dst - d->base;
    if (v.k != Val::E) { memset(&d->b[off], (int) (v.c & 255), n); if (d->s) for (uint64_t i = 0; i < n && d->s; ++i) clrSym(d, off + i); return; }
    Expr *e = E(v, v.e()->w); e = EM->extract(e, 0, 8); for (uint64_t i = 0; i < n; ++i) setSym(d, off + i, e, 0);
}
Expr *byteAt(uint64_t a) { Obj *o = access(a, 1, false); Val v = loadAt(o, a - o->base, ti(Type::getInt8Ty(LC))); return E(v, 8); }

Val math1(const std::string &n0, const Val &a, unsigned w) {
    std::string n = n0; if (w == 32 && n.size() > 3 && n.back() == 'f' && n != "erf") n.pop_back();
    if (a.isReal()) {
        Expr *x = a.e();
        if (n == "fabs") return Val::ex(rabs(x));
        if (n == "floor") return Val::ex(EM->rfloor(x));
        if (n == "ceil") return Val::ex(EM->rneg(EM->rfloor(EM->rneg(x))));
        if (n == "round") { Expr *h = EM->rcst(0.5); Expr *p = EM->rfloor(EM->radd(x, h)), *q = EM->rneg(EM->rfloor(EM->radd(EM->rneg(x), h))); return Val::ex(EM->ite(EM->rcmp(Op::RLt, x, EM->rcst(0)), q, p)); }
        if (n == "trunc") { Expr *p = EM->rfloor(x), *q = EM->rneg(EM->rfloor(EM->rneg(x))); return Val::ex(EM->ite(EM->rcmp(Op::RLt, x, EM->rcst(0)), q, p)); }
        if (n == "rint" || n == "nearbyint") throw Unsup{"rint of a real"};
        Expr *u = EM->ruf(n, {x});
        if (n == "exp" || n == "exp2") addPC(S, EM->rcmp(Op::RLt, EM->rcst(0), u));
        if (n == "sqrt") { addPC(S, EM->rcmp(Op::RLe, EM->rcst(0), u)); addPC(S, EM->bor(EM->rcmp(Op::RLe, x, EM->rcst(0)), EM->rcmp(Op::RLt, EM->rcst(0), u))); }
        S->model.reset(); return Val::ex(u);
    }
    if (a.k == Val::E) {
        Expr *x = E(a, w);
        if (n == "fabs") return Val::ex(EM->band(x, EM->cst(w, msk(w) >> 1)));
        if (n == "sqrt") return Val::ex(EM->fp(Op::FSqrt, w, {x}));
        int m = n == "floor" ? 1 : n == "ceil" ? 2 : n == "trunc" ? 3 : n == "round" ? 4 : (n == "rint" || n == "nearbyint") ? 0 : -1;
        if (m >= 0) return Val::ex(EM->fp(Op::FRound, w, {x}, m));
        throw Unsup{"math function " + n + " on symbolic bits"};
    }
    double x = dbl(a.c, w), r;
#define M1(fn) else if (n == #fn) r = w == 32 ? (double) ::fn##f((float) x) : (double) ::fn(x)
    if (0) r = 0; M1(sqrt); M1(exp); M1(log); M1(log2); M1(log10); M1(tanh); M1(sin); M1(cos); M1(tan); M1(erf); M1(fabs); M1(floor); M1(ceil); M1(round); M1(trunc); M1(rint); M1(nearbyint); M1(log1p); M1(cbrt); M1(exp2); M1(expm1); M1(atan); M1(asin); M1(acos); M1(sinh); M1(cosh);
    else throw Unsup{"math " + n};
    return Val::con(bits(r, w));
}
Val math2(const std::string &n0, const Val &a, const Val &b, unsigned w) {
    std::string n = n0; if (w == 32 && n.back() == 'f') n.pop_back();
    if (a.k == Val::E || b.k == Val::E) {
        if (n == "fmax" || n == "maxnum" || n == "maximum") return selectV(fcmp(CmpInst::FCMP_OLT, a, b, w), b, a, ti(w == 32 ? Type::getFloatTy(LC) : Type::getDoubleTy(LC)));
        if (n == "fmin" || n == "minnum" || n == "minimum") return selectV(fcmp(CmpInst::FCMP_OLT, b, a, w), b, a, ti(w == 32 ? Type::getFloatTy(LC) : Type::getDoubleTy(LC)));
        if (a.isReal() || b.isReal()) {
            Expr *x = R(a, w), *y = R(b, w);
            if (n == "pow" && y->op == Op::RConst && ExprMgr::rval(y) == 2) return Val::ex(EM->rmul(x, x));
            if (n == "pow" && y->op == Op::RConst && ExprMgr::rval(y) == 1) return Val::ex(x);
            if (n == "copysign") { Expr *ab = rabs(x); return Val::ex(EM->ite(EM->rcmp(Op::RLt, y, EM->rcst(0)), EM->rneg(ab), ab)); }
            return Val::ex(EM->ruf(n, {x, y}));
        }
        if (n == "copysign") { Expr *x = E(a, w), *y = E(b, w); return Val::ex(EM->bor(EM->band(x, EM->cst(w, msk(w) >> 1)), EM->band(y, EM->cst(w, 1ULL << (w - 1))))); }
        throw Unsup{"math2 " + n};
    }
    double x = dbl(a.c, w), y = dbl(b.c, w), r;
    if (n == "pow") r = w == 32 ? powf((float) x, (float) y) : pow(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "fmax" || n == "maxnum" || n == "maximum") r = fmax(x, y); else if (n == "fmin" || n == "minnum" || n == "minimum") r = fmin(x, y); else if (n == "atan2") r = w == 32 ? atan2f((float) x, (float) y) : atan2(x, y); else if (n == "copysign") r = copysign(x, y); else if (n == "hypot") r = hypot(x, y); else throw Unsup{"math2 " + n};
    return Val::con(bits(r, w));
}
Val fma3(const Val &a, const Val &b, const Val &c, unsigned w, bool fused) {
    if (a.k != Val::E && b.k != Val::E && c.k != Val::E) { if (!fused) return fltBin(Instruction::FAdd, fltBin(Instruction::FMul, a, b, w), c, w); if (w == 32) return Val::con(bits32(fmaf((float) dbl(a.c, 32), (float) dbl(b.c, 32), (float) dbl(c.c, 32)))); return Val::con(bits(fma(dbl(a.c, 64), dbl(b.c, 64), dbl(c.c, 64)), 64)); }
    if (a.isReal() || b.isReal() || c.isReal() || !fused) return fltBin(Instruction::FAdd, fltBin(Instruction::FMul, a, b, w), c, w);
    return Val::ex(EM->fp(Op::FFma, w, {E(a, w), E(b, w), E(c, w)}));
}
// run scalar lambda over scalars or vector lanes
template <class F> Val lanes(TI *t, F f) { if (t->k == TI::Vec) return mapVec(t, [&](uint64_t i) { return f((int) i, t->el[0]); }); return f(-1, t); }
static const Val &lane(const Val &v, int i) { return i < 0 ? v : v.a()[i]; }

void intrinsic(Frame &fr, DI &d, Function *F, std::vector<Val> &a) {
    auto id = F->getIntrinsicID(); TI *t = d.t;
    auto D = [&](const Val &v) { done(d, v); };
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: D(Val()); return;
        case Intrinsic::stacksave: D(Val::con(0)); return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: 
            D(a[0]); return;
        case Intrinsic::threadlocal_address: D(Val::con(tlsAddr(conc(a[0], 64, "thread-local address")))); return;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { uint64_t n = conc(a[2], 64, "memcpy size"), x = conc(a[0], 64, "memcpy dst"), y = conc(a[1], 64, "memcpy src"); copyMem(x, y, n); D(Val()); return; }
        case Intrinsic::memset: { uint64_t n = conc(a[2], 64, "memset size"), x = conc(a[0], 64, "memset dst"); setMem(x, a[1], n); D(Val()); return; }
        case Intrinsic::eh_typeid_for: D(Val::con((uint32_t) selectorOf(a[0].c))); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: throw Bug{"trap", "llvm.trap reached"};
        case Intrinsic::objectsize: D(Val::con(a.size() > 1 && a[1].c ? 0 : ~0ULL)); return;
        case Intrinsic::is_constant: D(Val::con(0)); return;
        case Intrinsic::abs: D(lanes(t, [&](int i, TI *e) { const Val &x = lane(a[0], i); if (x.k != Val::E) { int64_t s = sx(x.c, e->w); return Val::con((uint64_t) (s < 0 ? -(uint64_t) s : s) & msk(e->w)); } Expr *q = E(x, e->w); return Val::ex(EM->ite(EM->cmp(Op::Slt, q, EM->cst(e->w, 0)), EM->neg(q), q)); })); return;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: D(lanes(t, [&](int i, TI *e) { const Val &x = lane(a[0], i), &y = lane(a[1], i); unsigned p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; return selectV(icmp(p, x, y, e->w), x, y, e); })); return;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = t->el[0]->w; Expr *x = E(a[0], w), *y = E(a[1], w); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow; unsigned W = mul ? 2 * w : w + 2;
            Expr *X = sg ? EM->sext(x, W) : EM->zext(x, W), *Y = sg ? EM->sext(y, W) : EM->zext(y, W); Expr *Z = mul ? EM->mul(X, Y) : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? EM->add(X, Y) : EM->sub(X, Y); Expr *lo = EM->extract(Z, 0, w); Expr *ov = EM->bnot(EM->eq(sg ? EM->sext(lo, W) : EM->zext(lo, W), Z));
            D(Val::agg({Val::ex(lo), Val::ex(ov)})); return; }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: D(lanes(t, [&](int i, TI *e) { Expr *x = E(lane(a[0], i), e->w), *y = E(lane(a[1], i), e->w); if (id == Intrinsic::usub_sat) return Val::ex(EM->ite(EM->cmp(Op::Ult, x, y), EM->cst(e->w, 0), EM->sub(x, y))); Expr *s = EM->add(x, y); return Val::ex(EM->ite(EM->cmp(Op::Ult, s, x), EM->cst(e->w, msk(e->w)), s)); })); return;
        case Intrinsic::fshl: case Intrinsic::fshr: D(lanes(t, [&](int i, TI *e) { unsigned w = e->w; uint64_t s = conc(lane(a[2], i), w, "funnel shift") % w; Expr *x = E(lane(a[0], i), w), *y = E(lane(a[1], i), w); Expr *c = EM->concat(x, y); if (id == Intrinsic::fshl) return Val::ex(EM->extract(c, (unsigned) (w - s), w)); return Val::ex(EM->extract(c, (unsigned) s, w)); })); return;
        case Intrinsic::bswap: { unsigned w = t->w; Expr *x = E(a[0], w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = EM->extract(x, i, 8); r = r ? EM->concat(r, b) : b; } D(Val::ex(r)); return; }
        case Intrinsic::ctpop: { unsigned w = t->w; Expr *x = E(a[0], w), *r = EM->cst(w, 0); for (unsigned i = 0; i < w; ++i) r = EM->add(r, EM->zext(EM->extract(x, i, 1), w)); D(Val::ex(r)); return; }
        case Intrinsic::ctlz: case Intrinsic::cttz: { unsigned w = t->w; Expr *x = E(a[0], w), *r = EM->cst(w, w); for (unsigned k = 0; k < w; ++k) { unsigned i = id == Intrinsic::ctlz ? k : w - 1 - k; r = EM->ite(EM->eq(EM->extract(x, i, 1), EM->cst(1, 1)), EM->cst(w, id == Intrinsic::ctlz ? w - 1 - i : i), r); } D(Val::ex(r)); return; }
        case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
            const char *n = id == Intrinsic::fabs ? "fabs" : id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::trunc ? "trunc" : id == Intrinsic::rint ? "rint" : id == Intrinsic::nearbyint ? "nearbyint" : id == Intrinsic::round ? "round" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::exp2 ? "exp2" : id == Intrinsic::log2 ? "log2" : "log10";
            D(lanes(t, [&](int i, TI *e) { return math1(n, lane(a[0], i), e->w); })); return; }
        case Intrinsic::pow: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum: case Intrinsic::copysign: {
            const char *n = id == Intrinsic::pow ? "pow" : id == Intrinsic::maxnum || id == Intrinsic::maximum ? "maxnum" : id == Intrinsic::copysign ? "copysign" : "minnum";
            D(lanes(t, [&](int i, TI *e) { return math2(n, lane(a[0], i), lane(a[1], i), e->w); })); return; }
        case Intrinsic::fma: case Intrinsic::fmuladd: D(lanes(t, [&](int i, TI *e) { return fma3(lane(a[0], i), lane(a[1], i), lane(a[2], i), e->w, id == Intrinsic::fma); })); return;
        case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::lround: case Intrinsic::llround: { unsigned w = ti(F->getArg(0)->getType())->w; const Val &x = a[0]; if (x.k == Val::E) throw Unsup{"lrint symbolic"}; double q = dbl(x.c, w); q = (id == Intrinsic::lrint || id == Intrinsic::llrint) ? std::nearbyint(q) : std::round(q); D(Val::con((uint64_t) (int64_t) q & msk(t->w))); return; }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: {
            bool f = id == Intrinsic::vector_reduce_fadd; const Val &v = f ? a[1] : a[0]; Val acc; bool first = true; if (f) { acc = a[0]; first = false; }
            unsigned op = f ? Instruction::FAdd : id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Or;
            for (auto &x : v.a()) { if (first) { acc = x; first = false; } else acc = f ? fltBin(op, acc, x, t->w) : intBin(op, acc, x, t->w); } D(acc); return; }
        case Intrinsic::masked_load: { TI *et = t->el[0]; uint64_t p = conc(a[0], 64, "masked load"); D(mapVec(t, [&](uint64_t i) { const Val &m = a[2].a()[i]; uint64_t mv = m.k != Val::E ? (m.c & 1) : (branch(m.e()) ? 1 : 0); return mv ? loadT(p + i * et->size, et) : a[3].a()[i]; })); return; }
        case Intrinsic::masked_store: { TI *vt = ti(F->getArg(0)->getType()); TI *et = vt->el[0]; uint64_t p = conc(a[1], 64, "masked store"); std::vector<bool> mk; for (auto &m : a[3].a()) mk.push_back(m.k != Val::E ? (m.c & 1) : branch(m.e())); for (uint64_t i = 0; i < vt->n; ++i) if (mk[i]) storeT(p + i * et->size, a[0].a()[i], et); D(Val()); return; }
        case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw Unsup{"varargs"};
        default: break;
    }
    std::string n = F->getName().str();
    if (n.find("llvm.x86.") == 0) {
        if (n == "llvm.x86.avx.dp.ps.256" || n == "llvm.x86.sse41.dpps") throw Unsup{n};
        if (n == "llvm.x86.sse.rcp.ps" || n == "llvm.x86.avx.rcp.ps.256" || n == "llvm.x86.sse.rsqrt.ps" || n == "llvm.x86.avx.rsqrt.ps.256") throw Unsup{n + " (approximate instruction)"};
        if (n.find("max.ps") != std::string::npos || n.find("max.ss") != std::string::npos || n.find(".max.pd") != std::string::npos) { done(d, lanes(t, [&](int i, TI *e) { return selectV(fcmp(CmpInst::FCMP_OGT, lane(a[0], i), lane(a[1], i), e->w), lane(a[0], i), lane(a[1], i), e); })); return; }
        if (n.find("min.ps") != std::string::npos || n.find(".min.pd") != std::string::npos) { done(d, lanes(t, [&](int i, TI *e) { return selectV(fcmp(CmpInst::FCMP_OLT, lane(a[0], i), lane(a[1], i), e->w), lane(a[0], i), lane(a[1], i), e); })); return; }
        if (n == "llvm.x86.sse3.hadd.ps" || n == "llvm.x86.avx.hadd.ps.256") { std::vector<Val> r; auto &x = a[0].a(), &y = a[1].a(); for (size_t b = 0; b < x.size(); b += 4) { r.push_back(fltBin(Instruction::FAdd, x[b], x[b + 1], 32)); r.push_back(fltBin(Instruction::FAdd, x[b + 2], x[b + 3], 32)); r.push_back(fltBin(Instruction::FAdd, y[b], y[b + 1], 32)); r.push_back(fltBin(Instruction::FAdd, y[b + 2], y[b + 3], 32)); } done(d, Val::agg(std::move(r))); return; }
        if (n == "llvm.x86.avx.vzeroupper") { done(d, Val()); return; }
        if (n == "llvm.x86.sse2.cvtps2dq" || n == "llvm.x86.avx.cvt.ps2dq.256") { done(d, mapVec(t, [&](uint64_t i) { const Val &x = a[0].a()[i]; if (x.k == Val::E) { if (x.isReal()) throw Unsup{n}; return Val::ex(EM->fp(Op::FToSI, 32, {E(x, 32)}, 1)); } return Val::con((uint32_t) (int32_t) std::nearbyint(dbl(x.c, 32))); })); return; }
        if (n == "llvm.x86.sse2.cvttps2dq" || n == "llvm.x86.avx.cvtt.ps2dq.256") { TI ft; ft.w = 32; done(d, mapVec(t, [&](uint64_t i) { return castV(Instruction::FPToSI, a[0].a()[i], &ft, t->el[0]); })); return; }
        if (n.find("movmsk") != std::string::npos) { Expr *r = EM->cst(32, 0); int i = 0; for (auto &x : a[0].a()) { Expr *b; if (x.isReal()) b = EM->rcmp(Op::RLt, x.e(), EM->rcst(0)); else { unsigned w = ti(F->getArg(0)->getType())->el[0]->w; b = EM->extract(E(x, w), w - 1, 1); } r = EM->bor(r, EM->bin(Op::Shl, EM->zext(b, 32), EM->cst(32, i++))); } done(d, Val::ex(r)); return; }
        if (n.find("blendv") != std::string::npos) { unsigned w = t->el[0]->w; done(d, mapVec(t, [&](uint64_t i) { const Val &m = a[2].a()[i]; Val c = m.isReal() ? Val::ex(EM->rcmp(Op::RLt, m.e(), EM->rcst(0))) : Val::ex(EM->extract(E(m, w), w - 1, 1)); return selectV(c, a[1].a()[i], a[0].a()[i], t->el[0]); })); return; }
    }
    throw Unsup{"intrinsic " + n};
}

void addInput(const std::string &n, char ty, unsigned w, Expr *e, uint64_t c = 0) { S->in.push_back(Input{n, ty, w, e, c}); }

void doAssert(Expr *c, const std::string &msg, DI &d) {
    nasserts++;
    if (c->isConst()) { nasserttriv++; if (c->big->isZero()) throw Bug{"assertion", msg}; return; }
    Expr *nc = EM->bnot(c);
    std::shared_ptr<z3::model> m;
    if (implied(S, c)) return;
    Res r = check(S, nc, &m);
    if (r == Unk) { incomplete.push_back("assertion '" + msg + "' undecided within " + std::to_string(qtimeout) + " ms"); addPC(S, c); return; }
    if (r == Sat) { addPC(S, nc); S->model = m; throw Bug{"assertion", msg}; }
    (void) d;
}

void call(Frame &fr, DI &d) {
    if (d.builtin == -3) { auto IA = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); if (IA->getAsmString().empty() && d.dst < 0) { done(d, Val()); return; } throw Unsup{"inline asm: " + IA->getAsmString()}; }
    Function *F = d.callee; int b = d.builtin; size_t na = d.o.size();
    if (!F) { na--; uint64_t a = conc(get(fr, d.o[na]), 64, "function pointer"); auto it = fnAddr.find(a); if (it == fnAddr.end()) throw Bug{"memory", "call through invalid function pointer " + hex(a)}; F = it->second; b = builtinId(F); }
    std::vector<Val> a; a.reserve(na); for (size_t i = 0; i < na; ++i) a.push_back(d.o[i] == INT32_MIN ? Val() : get(fr, d.o[i]));
    if (b == B_none) {
        if (F->isDeclaration()) throw Unsup{"call to external function " + demangle(F->getName().str())};
        enter(F, std::move(a), d.dst, d.bb.empty() ? -1 : d.bb[0], d.bb.empty() ? -1 : d.bb[1]); return;
    }
    if (b == B_intrinsic) { intrinsic(fr, d, F, a); return; }
    auto N = [&](int i) { return conc(a[i], 64, "builtin argument"); };
    switch (b) {
        case B_malloc: case B_new: { uint64_t n = N(0); if (n > (1ULL << 32)) { if (b == B_new) throw Bug{"allocation", "operator new of " + std::to_string(n) + " bytes"}; done(d, Val::con(0)); return; } uint64_t p = allocHeap(n); done(d, Val::con(p)); return; }
        case B_calloc: { uint64_t n = N(0) * N(1); uint64_t p = allocHeap(n); setMem(p, Val::con(0), n); done(d, Val::con(p)); return; }
        case B_posix_memalign: { uint64_t pp = N(0), n = N(2); uint64_t p = allocHeap(n); storeT(pp, Val::con(p), ti(PointerType::get(LC, 0))); done(d, Val::con(0)); return; }
        case B_realloc: { uint64_t p = N(0), n = N(1); if (!p) { done(d, Val::con(allocHeap(n))); return; } Obj *o = find(S, p); if (!o || o->base != p || o->freed || o->kind) throw Bug{"memory", "invalid realloc"}; uint64_t os = o->size; uint64_t q = allocHeap(n); copyMem(q, p, std::min(os, n)); freeHeap(p, "realloc"); done(d, Val::con(q)); return; }
        case B_free: freeHeap(N(0), "free"); done(d, Val()); return;
        case B_memcpy: { uint64_t x = N(0), y = N(1), n = N(2); copyMem(x, y, n); done(d, Val::con(x)); return; }
        case B_memset: { uint64_t x = N(0), n = N(2); setMem(x, a[1], n); done(d, Val::con(x)); return; }
        case B_memcmp: { uint64_t x = N(0), y = N(1), n = N(2); Expr *r = EM->cst(32, 0); if (n) { access(x, n, false); access(y, n, false); } for (uint64_t i = n; i-- > 0;) { Expr *p = byteAt(x + i), *q = byteAt(y + i); if (p == q) continue; r = EM->ite(EM->eq(p, q), r, EM->ite(EM->cmp(Op::Ult, p, q), EM->cst(32, 0xffffffffu), EM->cst(32, 1))); } done(d, Val::ex(r)); return; }
        case B_strlen: { uint64_t x = N(0), n = 0; while (true) { Expr *p = byteAt(x + n); if (branch(EM->eq(p, EM->cst(8, 0)))) break; n++; } done(d, Val::con(n)); return; }
        case B_allocexc: { uint64_t p = allocHeap(N(0), "exception"); done(d, Val::con(p)); return; }
        case B_freeexc: freeHeap(N(0), "__cxa_free_exception"); done(d, Val()); return;
        case B_throw: { uint64_t p = N(0); Exc e; e.ti = N(1); e.dtor = N(2); S->exc[p] = e; throwExc(fr, d, p); return; }
        case B_rethrow: { auto &c = S->th[S->cur].caught; if (c.empty()) throw Bug{"exception", "rethrow without exception"}; uint64_t p = c.back(); S->exc[p].rethrown = 1; throwExc(fr, d, p); return; }
        case B_getexc: done(d, a[0]); return;
        case B_begincatch: { uint64_t p = N(0); S->exc[p].handlers++; S->exc[p].rethrown = 0; auto &c = S->th[S->cur].caught; if (c.empty() || c.back() != p) c.push_back(p); done(d, a[0]); return; }
        case B_endcatch: { auto &c = S->th[S->cur].caught; if (c.empty()) throw Unsup{"endcatch"}; uint64_t p = c.back(); auto &e = S->exc[p]; e.handlers--; 
            if (e.handlers == 0) { c.pop_back(); if (!e.rethrown) { uint64_t dt = e.dtor; S->exc.erase(p); done(d, Val()); if (dt) { auto it = fnAddr.find(dt); if (it != fnAddr.end() && !it->second->isDeclaration()) { enter(it->second, {Val::con(p)}, -1, -1, -1, 1); S->th[S->cur].st.back().excIn = p; return; } } freeHeap(p, "exception"); return; } }
            done(d, Val()); return; }
        case B_abort: throw Bug{"abort", "program aborts (" + F->getName().str() + ")"};
        case B_exit: throw Bug{"abort", "program exits (" + F->getName().str() + ")"};
        case B_purevirt: throw Bug{"abort", "pure virtual call"};
        case B_ignore: case B_ret0: done(d, Val::con(0)); return;
        case B_sxint: { std::string n = cstr(N(0)); unsigned w = (unsigned) N(1); Expr *e = EM->sym(w, n); addInput(n, 'i', w, e); done(d, Val::ex(EM->zext(e, 64))); return; }
        case B_sxreal: { std::string n = cstr(N(0)); Expr *e = EM->rsym(n); addInput(n, 'r', 0, e); done(d, Val::ex(e)); return; }
        case B_choose: { uint64_t n = N(0); std::string nm = cstr(N(1)); for (uint64_t i = n; i-- > 1;) { State *o = new State(*S); nforks++; State *sv = S; S = o; addInput(nm, 'c', 32, nullptr, i); done(d, Val::con(i)); S = sv; work.push_back(o); } addInput(nm, 'c', 32, nullptr, 0); done(d, Val::con(0)); return; }
        case B_concval: { uint64_t v = conc(a[0], 64, "sx_concretize"); done(d, Val::con(v)); return; }
        case B_assume: { nassume++; if (a[0].k != Val::E) { if (!(a[0].c & 1)) throw Term{"assume"}; done(d, Val()); return; } Expr *c = EM->extract(E(a[0], a[0].e()->w), 0, 1); std::shared_ptr<z3::model> m; if (!may(S, c, &m)) throw Term{"assume"}; addPC(S, c); S->model = m; done(d, Val()); return; }
        case B_assert: { std::string msg = cstr(N(1)); Expr *c = a[0].k != Val::E ? EM->cst(1, a[0].c & 1) : EM->extract(E(a[0], a[0].e()->w), 0, 1); doAssert(c, msg, d); done(d, Val()); return; }
        case B_feq: case B_fnear: {
            std::string msg = cstr(N(b == B_feq ? 2 : 3));
            if (a[0].k != Val::E && a[1].k != Val::E) { double x = dbl(a[0].c, 64), y = dbl(a[1].c, 64), tol = b == B_feq ? 1e-4 * (1 + std::fabs(y)) : dbl(a[2].c, 64); nasserts++; nasserttriv++; if (!(std::fabs(x - y) <= tol) && !(x == y) && !(std::isnan(x) && std::isnan(y))) throw Bug{"assertion", msg + " (" + std::to_string(x) + " vs " + std::to_string(y) + ")"}; done(d, Val()); return; }
            if (!a[0].isReal() && !a[1].isReal() && b == B_feq && !((a[0].k != Val::E || bits2real(a[0].e(), 64)) && (a[1].k != Val::E || bits2real(a[1].e(), 64)))) { doAssert(EM->eq(E(a[0], 64), E(a[1], 64)), msg, d); done(d, Val()); return; }
            for (int q = 0; q < 2; ++q) if (a[q].k == Val::C) { double x = dbl(a[q].c, 64); if (std::isnan(x) || std::isinf(x)) throw Bug{"assertion", msg + " (non-finite)"}; }
            Expr *x = R(a[0], 64), *y = R(a[1], 64);
            if (b == B_feq) doAssert(EM->rcmp(Op::REq, x, y), msg, d);
            else { Expr *t = R(a[2], 64), *df = EM->rsub(x, y); doAssert(EM->band(EM->rcmp(Op::RLe, df, t), EM->rcmp(Op::RLe, EM->rneg(t), df)), msg, d); }
            done(d, Val()); return; }
        case B_reach: { std::string n = cstr(N(0)); reached.insert(n); S->reached = true; done(d, Val()); return; }
        case B_note: { S->trace.push_back(cstr(N(0)) + (na > 1 ? "=" + (a[1].k != Val::E ? std::to_string((int64_t) a[1].c) : std::string("<sym>")) : "")); done(d, Val()); return; }
        case B_issym: done(d, Val::con(a[0].k == Val::E)); return;
        case B_model: done(d, Val::con(0)); return;
        case B_live: { uint64_t n = 0; for (auto &o : S->heap) if (!o->freed) n++; done(d, Val::con(n)); return; }
        case B_math1: done(d, math1(F->getName().str(), a[0], d.t->w)); return;
        case B_math2: done(d, math2(F->getName().str(), a[0], a[1], d.t->w)); return;
        case B_dyncast: {
            uint64_t src = N(0); if (!src) { done(d, Val::con(0)); return; }
            uint64_t vp = loadT(src, ti(Type::getInt64Ty(LC))).c; int64_t off = (int64_t) loadT(vp - 16, ti(Type::getInt64Ty(LC))).c; uint64_t wt = loadT(vp - 8, ti(Type::getInt64Ty(LC))).c; uint64_t whole = src + off; int64_t adj = 0;
            done(d, Val::con(tiDerives(wt, N(2), adj) ? whole + adj : 0)); return; }
        case B_self: done(d, Val::con(S->cur + 1)); return;
        case B_thr_create: { uint64_t pt = N(0), f = N(2); int id = (int) S->th.size(); storeT(pt, Val::con(id + 1), ti(Type::getInt64Ty(LC))); auto it = fnAddr.find(f); if (it == fnAddr.end()) throw Unsup{"thread entry"}; Function *TF = it->second; Val arg = a[3]; done(d, Val::con(0)); S->th.emplace_back(); { Race &r = race(); vjoin(r.vc[id], r.vc[S->cur]); r.vc[S->cur][S->cur]++; } int sv = S->cur; S->cur = id; enter(TF, {arg}, -1, -1, -1); S->cur = sv; maybePreempt(); return; }
        case B_thr_join: { int id = (int) N(0) - 1; if (id < 0 || id >= (int) S->th.size()) throw Bug{"thread", "join of invalid thread"}; if (S->th[id].status == 4) { Race &r = race(); vjoin(r.vc[S->cur], r.vc[id]); done(d, Val::con(0)); return; } S->th[S->cur].status = 3; S->th[S->cur].wait = (uint64_t) id; return; }
        case B_mtx_lock: { uint64_t m = N(0); int &ow = S->mtx[m]; if (ow == 0) { ow = S->cur + 1; syncAcq(m); done(d, Val::con(0)); maybePreempt(); return; } if (S->th.size() == 1 || ow == S->cur + 1) throw Bug{"deadlock", "thread re-locks a mutex it already holds"}; S->th[S->cur].status = 1; S->th[S->cur].wait = m; return; }
        case B_mtx_trylock: { uint64_t m = N(0); int &ow = S->mtx[m]; bool ok = ow == 0; if (ok) { ow = S->cur + 1; syncAcq(m); } done(d, Val::con(ok ? 0 : 16)); return; }
        case B_mtx_unlock: { uint64_t m = N(0); if (S->mtx[m] != S->cur + 1) throw Bug{"mutex", "unlock of a mutex not held by this thread"}; S->mtx[m] = 0; syncRel(m); for (auto &t : S->th) if (t.status == 1 && t.wait == m) t.status = 0; done(d, Val::con(0)); maybePreempt(); return; }
        case B_cond_wait: { uint64_t c = N(0), m = N(1); Thread &T = S->th[S->cur]; if (T.wait2 == 1) { if (S->mtx[m] != 0) { T.status = 1; T.wait = m; return; } S->mtx[m] = S->cur + 1; syncAcq(m); T.wait2 = 0; done(d, Val::con(0)); return; }
            if (S->mtx[m] != S->cur + 1) throw Bug{"mutex", "cond wait without holding the mutex"}; S->mtx[m] = 0; syncRel(m); if ((int) S->spur < spurious) { State *o = new State(*S); nforks++; o->spur++; for (auto &t : o->th) if (t.status == 1 && t.wait == m) t.status = 0; o->th[o->cur].wait2 = 1; addInputTo(o, "spurious", (uint64_t) o->cur); work.push_back(o); } for (auto &t : S->th) if (t.status == 1 && t.wait == m) t.status = 0; T.status = 2; T.wait = c; return; }
        case B_cond_signal: { uint64_t c = N(0); std::vector<int> w; for (int i = 0; i < (int) S->th.size(); ++i) if (S->th[i].status == 2 && S->th[i].wait == c) w.push_back(i); done(d, Val::con(0));
            for (size_t k = 1; k < w.size(); ++k) { State *o = new State(*S); nforks++; o->th[w[k]].status = 0; o->th[w[k]].wait2 = 1; addInputTo(o, "signal", w[k]); work.push_back(o); }
            if (!w.empty()) { S->th[w[0]].status = 0; S->th[w[0]].wait2 = 1; if (w.size() > 1) addInputTo(S, "signal", w[0]); } maybePreempt(); return; }
        case B_cond_broadcast: { uint64_t c = N(0); for (auto &t : S->th) if (t.status == 2 && t.wait == c) { t.status = 0; t.wait2 = 1; } done(d, Val::con(0)); maybePreempt(); return; }
        case B_yield: done(d, Val()); maybePreempt(); return;
        default: throw Unsup{"builtin " + F->getName().str()};
    }
}
void throwExc(Frame &fr, DI &d, uint64_t p) { S->thrownAt = where();
    if (!d.bb.empty()) { // invoke of __cxa_throw/__cxa_rethrow: landing pad in this frame -> emulate a callee frame
        auto &st = S->th[S->cur].st; st.emplace_back(); Frame &f = st.back(); f.f = fr.f; f.unwind = d.bb[1]; f.normal = d.bb[0]; 
        // note: fr reference may be invalid now
    } else { auto &st = S->th[S->cur].st; st.emplace_back(); Frame &f = st.back(); f.f = st[st.size() - 2].f; f.unwind = -1; f.normal = -1; }
    unwind(p);
}
void addInputTo(State *s, const std::string &n, uint64_t v) { s->in.push_back(Input{n, 's', 32, nullptr, v}); s->trace.push_back(n + " " + std::to_string(v)); }
void afterSpecial(uint8_t sp, Frame &fr) { if (sp == 1 && fr.excIn) freeHeap(fr.excIn, "exception"); }
void threadDone(const Val &) {
    if (S->cur == 0) return;
    for (auto &t : S->th) if (t.status == 3 && t.wait == (uint64_t) S->cur) t.status = 0;
}
// current thread cannot run: choose another (fork over all choices); false = path ended
bool schedule() {
    if (S->th[0].status == 4) return false;
    std::vector<int> r; for (int i = 0; i < (int) S->th.size(); ++i) if (S->th[i].status == 0) r.push_back(i);
    if (r.empty()) throw Bug{"deadlock", "all threads blocked"};
    for (size_t k = 1; k < r.size(); ++k) { State *o = new State(*S); nforks++; o->cur = r[k]; addInputTo(o, "run", r[k]); work.push_back(o); }
    S->cur = r[0]; if (r.size() > 1) addInputTo(S, "run", r[0]);
    return true;
}
void maybePreempt() {
    if (S->th.size() < 2 || (int) S->switches >= preempt) return;
    std::vector<int> r; for (int i = 0; i < (int) S->th.size(); ++i) if (i != S->cur && S->th[i].status == 0) r.push_back(i);
    for (int t : r) { State *o = new State(*S); nforks++; o->switches++; o->cur = t; addInputTo(o, "preempt", t); work.push_back(o); }
}
