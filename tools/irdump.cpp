// irdump: LLVM module -> JSON, with data-layout facts resolved (GEP offsets,
// type sizes, flattened global initialisers, loop nest) so that the analysis
// in vlib/ works on the type-checked program and never on source text.
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
using namespace llvm;

static const DataLayout* DL;
static std::map<Type*, int> TyIdx;
static json::Array Types;
static std::map<std::string, int> FileIdx;
static json::Array Files;
static std::map<const Value*, int> ids;

static int ty(Type* t)
{
    auto it = TyIdx.find(t);
    if (it != TyIdx.end()) return it->second;
    json::Array a;
    if (t->isIntegerTy())
        a = json::Array{"i", (int64_t)t->getIntegerBitWidth()};
    else if (t->isPointerTy())
        a = json::Array{"p"};
    else if (t->isFloatTy() || t->isDoubleTy())
        a = json::Array{"f", (int64_t)t->getPrimitiveSizeInBits().getFixedValue()};
    else if (auto* v = dyn_cast<FixedVectorType>(t))
    {
        int e = ty(v->getElementType());
        a     = json::Array{"v", (int64_t)v->getNumElements(), e};
    }
    else if (auto* ar = dyn_cast<ArrayType>(t))
    {
        int e = ty(ar->getElementType());
        a     = json::Array{"a", (int64_t)ar->getNumElements(), e,
                 (int64_t)DL->getTypeAllocSize(ar->getElementType())};
    }
    else if (auto* s = dyn_cast<StructType>(t))
    {
        json::Array f;
        if (!s->isOpaque())
        {
            auto* sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); i++)
                f.push_back(json::Array{(int64_t)(uint64_t)sl->getElementOffset(i),
                                        ty(s->getElementType(i))});
        }
        a = json::Array{"s", std::move(f), s->hasName() ? s->getName().str() : ""};
    }
    else if (t->isVoidTy())
        a = json::Array{"void"};
    else
        a = json::Array{"x"};
    int64_t sz = 0, al = 0;
    if (t->isSized())
    {
        sz = DL->getTypeStoreSize(t).getFixedValue();
        al = DL->getTypeAllocSize(t).getFixedValue();
    }
    Types.push_back(json::Array{std::move(a), sz, al});
    int i    = Types.size() - 1;
    TyIdx[t] = i;
    return i;
}

static json::Value ap(const APInt& v)
{
    if (v.getBitWidth() <= 64)
    {
        uint64_t x = v.getZExtValue();
        if (x <= (uint64_t)INT64_MAX) return (int64_t)x;
    }
    SmallString<64> s;
    v.toString(s, 10, false);
    return std::string(s.str());
}

static json::Value opnd(const Value* v)
{
    auto it = ids.find(v);
    if (it != ids.end()) return (int64_t)it->second;
    if (auto* c = dyn_cast<ConstantInt>(v))
        return json::Array{"c", ap(c->getValue()), (int64_t)c->getBitWidth()};
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u", ty(v->getType())};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"z", ty(v->getType())};
    if (auto* f = dyn_cast<ConstantFP>(v))
        return json::Array{"c", ap(f->getValueAPF().bitcastToAPInt()), 64};
    if (auto* cd = dyn_cast<ConstantDataSequential>(v))
    {
        json::Array a;
        for (unsigned i = 0; i < cd->getNumElements(); i++)
            a.push_back(opnd(cd->getElementAsConstant(i)));
        return json::Array{"v", std::move(a)};
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(v))
    {
        json::Array a;
        for (unsigned i = 0; i < ca->getNumOperands(); i++)
            a.push_back(opnd(ca->getOperand(i)));
        return json::Array{"v", std::move(a)};
    }
    if (isa<Constant>(v) && v->getType()->isPointerTy())
    {
        APInt       off(64, 0);
        const Value* b = v->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (auto* g = dyn_cast<GlobalAlias>(b)) b = g->getAliaseeObject();
        if (auto* g = dyn_cast<GlobalValue>(b))
            return json::Array{"g", g->getName().str(), off.getSExtValue()};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v))
    {
        json::Array a;
        for (auto& o : ce->operands()) a.push_back(opnd(o));
        return json::Array{"ce", ce->getOpcodeName(), std::move(a), ty(ce->getType())};
    }
    if (auto* bb = dyn_cast<BasicBlock>(v)) { (void)bb; return json::Array{"bb"}; }
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    return json::Array{"?"};
}

static void flatten(const Constant* c, uint64_t off, std::string& bytes, json::Array& rel)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned n = DL->getTypeStoreSize(t);
        APInt    v = ci->getValue().zext(std::max(n * 8, ci->getBitWidth()));
        for (unsigned i = 0; i < n; i++) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APInt    v = cf->getValueAPF().bitcastToAPInt();
        unsigned n = v.getBitWidth() / 8;
        for (unsigned i = 0; i < n; i++) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++)
            flatten(cd->getElementAsConstant(i), off + i * es, bytes, rel);
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < ca->getNumOperands(); i++)
                flatten(cast<Constant>(ca->getOperand(i)), off + sl->getElementOffset(i), bytes, rel);
        }
        else
        {
            Type*    et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType()
                                            : cast<VectorType>(t)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < ca->getNumOperands(); i++)
                flatten(cast<Constant>(ca->getOperand(i)), off + i * es, bytes, rel);
        }
        return;
    }
    if (t->isPointerTy())
    {
        rel.push_back(json::Array{(int64_t)off, opnd(c)});
        return;
    }
    rel.push_back(json::Array{(int64_t)off, json::Array{"?"}});
}

static json::Value loc(const Instruction& I)
{
    const DILocation* d = I.getDebugLoc();
    if (!d) return nullptr;
    // report the outermost source position inside the analysed function as well as the innermost
    std::string f = d->getFilename().str();
    auto        p = FileIdx.emplace(f, (int)FileIdx.size());
    if (p.second) Files.push_back(f);
    return json::Array{(int64_t)p.first->second, (int64_t)d->getLine()};
}

int main(int argc, char** argv)
{
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         M = parseIRFile(argv[1], err, ctx);
    if (!M)
    {
        err.print("irdump", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    json::Array globals, funcs;
    for (auto& g : M->globals())
    {
        json::Object o;
        o["name"]  = g.getName().str();
        o["dem"]   = demangle(g.getName().str());
        o["const"] = g.isConstant();
        o["tls"]   = g.isThreadLocal();
        o["init"]  = g.hasInitializer();
        o["local"] = g.hasLocalLinkage();
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
        o["size"]  = (int64_t)sz;
        SmallVector<DIGlobalVariableExpression*, 1> dbg;
        g.getDebugInfo(dbg);
        if (!dbg.empty())
        {
            auto* dv  = dbg[0]->getVariable();
            o["file"] = dv->getFilename().str();
            o["line"] = (int64_t)dv->getLine();
            o["src"]  = dv->getName().str();
        }
        if (g.hasInitializer())
        {
            std::string b(sz, 0);
            json::Array rel;
            flatten(g.getInitializer(), 0, b, rel);
            std::string hex;
            static const char* H = "0123456789abcdef";
            for (unsigned char c : b) { hex += H[c >> 4]; hex += H[c & 15]; }
            o["data"] = hex;
            o["rel"]  = std::move(rel);
        }
        globals.push_back(std::move(o));
    }
    for (auto& F : *M)
    {
        json::Object o;
        o["name"]     = F.getName().str();
        o["dem"]      = demangle(F.getName().str());
        o["nounwind"] = F.doesNotThrow();
        o["noreturn"] = F.doesNotReturn();
        o["local"]    = F.hasLocalLinkage();
        o["ret"]      = ty(F.getReturnType());
        o["vararg"]   = F.isVarArg();
        if (auto* sp = F.getSubprogram())
        {
            o["file"] = sp->getFilename().str();
            o["line"] = (int64_t)sp->getLine();
        }
        ids.clear();
        int         n = 0;
        json::Array args;
        for (auto& a : F.args())
        {
            ids[&a] = n++;
            json::Object ao;
            ao["t"]    = ty(a.getType());
            ao["name"] = a.getName().str();
            if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
            if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
            args.push_back(std::move(ao));
        }
        o["args"] = std::move(args);
        if (F.isDeclaration())
        {
            funcs.push_back(std::move(o));
            continue;
        }
        std::map<const BasicBlock*, int> bb;
        int                              nb = 0;
        for (auto& B : F) bb[&B] = nb++;
        for (auto& B : F)
            for (auto& I : B)
                if (!I.getType()->isVoidTy()) ids[&I] = n++;
        o["nv"] = n;
        json::Array blocks;
        for (auto& B : F)
        {
            json::Array ins;
            for (auto& I : B)
            {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                json::Object io;
                io["o"] = I.getOpcodeName();
                io["t"] = ty(I.getType());
                auto it = ids.find(&I);
                if (it != ids.end()) io["i"] = (int64_t)it->second;
                io["l"] = loc(I);
                json::Array a;
                if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    // base, const offset, [(operand, scale)]
                    int64_t     co = 0;
                    json::Array var;
                    bool vec = g->getType()->isVectorTy();
                    io["inb"] = g->isInBounds();
                    if (vec) io["vec"] = true;
                    a.push_back(opnd(g->getPointerOperand()));
                    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti)
                    {
                        Value* idx = gti.getOperand();
                        if (auto* st = gti.getStructTypeOrNull())
                        {
                            co += DL->getStructLayout(st)->getElementOffset(
                                cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx))
                            co += sc * ci->getSExtValue();
                        else
                            var.push_back(json::Array{opnd(idx), sc, ty(idx->getType())});
                    }
                    io["co"]  = co;
                    io["var"] = std::move(var);
                }
                else if (auto* p = dyn_cast<PHINode>(&I))
                {
                    for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
                        a.push_back(json::Array{opnd(p->getIncomingValue(k)),
                                                (int64_t)bb[p->getIncomingBlock(k)]});
                }
                else if (auto* br = dyn_cast<BranchInst>(&I))
                {
                    if (br->isConditional()) a.push_back(opnd(br->getCondition()));
                    json::Array s;
                    for (unsigned k = 0; k < br->getNumSuccessors(); k++)
                        s.push_back((int64_t)bb[br->getSuccessor(k)]);
                    io["s"] = std::move(s);
                }
                else if (auto* sw = dyn_cast<SwitchInst>(&I))
                {
                    a.push_back(opnd(sw->getCondition()));
                    json::Array s;
                    s.push_back((int64_t)bb[sw->getDefaultDest()]);
                    for (auto& c : sw->cases())
                        s.push_back(json::Array{ap(c.getCaseValue()->getValue()),
                                                (int64_t)bb[c.getCaseSuccessor()]});
                    io["s"] = std::move(s);
                }
                else if (auto* cb = dyn_cast<CallBase>(&I))
                {
                    for (auto& x : cb->args()) a.push_back(opnd(x));
                    io["f"] = opnd(cb->getCalledOperand()->stripPointerCasts());
                    io["nounwind"] = cb->doesNotThrow();
                    json::Array bv;
                    for (unsigned k = 0; k < cb->arg_size(); k++)
                    {
                        if (cb->isByValArgument(k))
                            bv.push_back(json::Array{(int64_t)k,
                                (int64_t)DL->getTypeAllocSize(cb->getParamByValType(k))});
                    }
                    if (!bv.empty()) io["bv"] = std::move(bv);
                    json::Array at;
                    for (auto& x : cb->args()) at.push_back(ty(x->getType()));
                    io["at"] = std::move(at);
                    if (auto* inv = dyn_cast<InvokeInst>(&I))
                        io["s"] = json::Array{(int64_t)bb[inv->getNormalDest()],
                                              (int64_t)bb[inv->getUnwindDest()]};
                }
                else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
                {
                    a.push_back(opnd(sv->getOperand(0)));
                    a.push_back(opnd(sv->getOperand(1)));
                    json::Array m;
                    for (int x : sv->getShuffleMask()) m.push_back((int64_t)x);
                    io["m"] = std::move(m);
                    io["n"] = (int64_t)cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
                }
                else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                {
                    a.push_back(opnd(ev->getAggregateOperand()));
                    json::Array m;
                    for (unsigned x : ev->getIndices()) m.push_back((int64_t)x);
                    io["m"] = std::move(m);
                }
                else if (auto* iv = dyn_cast<InsertValueInst>(&I))
                {
                    a.push_back(opnd(iv->getAggregateOperand()));
                    a.push_back(opnd(iv->getInsertedValueOperand()));
                    json::Array m;
                    for (unsigned x : iv->getIndices()) m.push_back((int64_t)x);
                    io["m"] = std::move(m);
                }
                else if (auto* al = dyn_cast<AllocaInst>(&I))
                {
                    io["sz"]   = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
                    io["name"] = al->getName().str();
                    a.push_back(opnd(al->getArraySize()));
                }
                else if (auto* lp = dyn_cast<LandingPadInst>(&I))
                {
                    io["cleanup"] = lp->isCleanup();
                    json::Array cl;
                    for (unsigned k = 0; k < lp->getNumClauses(); k++)
                        cl.push_back(json::Array{lp->isCatch(k) ? "catch" : "filter", opnd(lp->getClause(k))});
                    io["clauses"] = std::move(cl);
                }
                else
                {
                    for (auto& x : I.operands()) a.push_back(opnd(x));
                    if (auto* c = dyn_cast<CmpInst>(&I))
                        io["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
                    if (auto* st = dyn_cast<StoreInst>(&I)) {
                        io["st"] = ty(st->getValueOperand()->getType());
                        if (st->isVolatile()) io["vol"] = true;
                    }
                    if (auto* ld = dyn_cast<LoadInst>(&I)) { if (ld->isVolatile()) io["vol"] = true; }
                    if (I.getNumOperands()) io["ot"] = ty(I.getOperand(0)->getType());
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I))
                    {
                        if (ob->hasNoSignedWrap()) io["nsw"] = true;
                        if (ob->hasNoUnsignedWrap()) io["nuw"] = true;
                    }
                }
                io["a"] = std::move(a);
                ins.push_back(std::move(io));
            }
            blocks.push_back(json::Object{{"name", B.getName().str()}, {"ins", std::move(ins)}});
        }
        o["blocks"] = std::move(blocks);
        DominatorTree     DT(F);
        LoopInfo          LI(DT);
        json::Array       loops;
        std::map<Loop*, int> lidx;
        auto              lps = LI.getLoopsInPreorder();
        for (auto* l : lps) { int k = lidx.size(); lidx[l] = k; }
        for (auto* l : lps)
        {
            json::Array bs;
            for (auto* b : l->blocks()) bs.push_back((int64_t)bb[b]);
            loops.push_back(json::Object{{"h", (int64_t)bb[l->getHeader()]},
                                         {"p", l->getParentLoop() ? (int64_t)lidx[l->getParentLoop()] : (int64_t)-1},
                                         {"b", std::move(bs)}});
        }
        o["loops"] = std::move(loops);
        funcs.push_back(std::move(o));
    }
    json::Object top;
    top["types"]   = std::move(Types);
    top["files"]   = std::move(Files);
    top["globals"] = std::move(globals);
    top["funcs"]   = std::move(funcs);
    json::Array alias;
    for (auto& a : M->aliases())
        alias.push_back(json::Array{a.getName().str(), a.getAliaseeObject() ? a.getAliaseeObject()->getName().str() : ""});
    top["aliases"] = std::move(alias);
    outs() << json::Value(std::move(top)) << "\n";
    return 0;
}
