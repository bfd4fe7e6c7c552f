// irx: load LLVM bitcode of /repo's sources, build for each requested root function one whole-behaviour
// flow graph (every callee that is not a rule anchor inlined, locals promoted to SSA, constant branches folded)
// and dump it as JSON for the rule engine.  Nothing is executed.
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::map<std::string, std::string> DemCache;
static const std::string& dem(StringRef n)
{
    auto it = DemCache.find(n.str());
    if (it != DemCache.end())
        return it->second;
    return DemCache[n.str()] = demangle(n.str());
}
// strip template arguments, parameter lists, return types: "iox::popo::ChunkSender::send"
static std::string baseName(const std::string& d)
{
    std::string out;
    size_t i = 0;
    int angle = 0, paren = 0;
    auto isOp = [&](size_t p) { return p >= 8 && d.compare(p - 8, 8, "operator") == 0; };
    while (i < d.size())
    {
        char c = d[i];
        if (angle == 0 && paren == 0 && d.compare(i, 8, "operator") == 0
            && (i == 0 || !(isalnum(d[i - 1]) || d[i - 1] == '_')))
        {
            out += "operator";
            i += 8;
            if (i < d.size() && (d[i] == '(') && d.compare(i, 2, "()") == 0)
            {
                out += "()";
                i += 2;
                continue;
            }
            while (i < d.size() && strchr("<>=!+-*/%&|^~[]", d[i]))
            {
                // operator< followed by template args: operator<<X> ambiguity is accepted
                out += d[i++];
            }
            continue;
        }
        if (c == '<')
        {
            angle++;
            i++;
            continue;
        }
        if (c == '>' && angle > 0)
        {
            // "->" inside template args
            if (i > 0 && d[i - 1] == '-')
            {
                i++;
                continue;
            }
            angle--;
            i++;
            continue;
        }
        if (angle > 0)
        {
            i++;
            continue;
        }
        if (c == '(')
        {
            if (d.compare(i, 21, "(anonymous namespace)") == 0)
            {
                if (paren == 0)
                    out += "(anon)";
                i += 21;
                continue;
            }
            paren++;
            i++;
            continue;
        }
        if (c == ')')
        {
            paren--;
            i++;
            continue;
        }
        if (paren > 0)
        {
            i++;
            continue;
        }
        out += c;
        i++;
    }
    // drop trailing cv/ref/abi
    auto cut = [&](const char* s) {
        std::string t(s);
        while (out.size() > t.size() && out.compare(out.size() - t.size(), t.size(), t) == 0)
            out.resize(out.size() - t.size());
    };
    for (int k = 0; k < 3; ++k)
    {
        cut(" const");
        cut(" volatile");
        cut("&");
        cut(" ");
    }
    // drop return type: last space that is not inside {...} and not after "operator"
    int br = 0;
    size_t last = std::string::npos;
    for (size_t k = 0; k < out.size(); ++k)
    {
        if (out[k] == '{')
            br++;
        else if (out[k] == '}')
            br--;
        else if (out[k] == ' ' && br == 0)
        {
            if (k >= 8 && isOp(k))
                break;
            last = k;
        }
    }
    if (last != std::string::npos)
        out = out.substr(last + 1);
    return out;
}
static std::map<std::string, std::string> BaseCache;
static const std::string& base(StringRef n)
{
    auto it = BaseCache.find(n.str());
    if (it != BaseCache.end())
        return it->second;
    return BaseCache[n.str()] = baseName(dem(n));
}

struct FieldInfo
{
    StructType* st;
    unsigned idx;
    std::string cls, field;
};
static std::map<Function*, FieldInfo> Fields;
// before linking: the linker merges structurally equal types, so that names have to be taken in each unit
static std::map<std::string, FieldInfo> FieldsByName;

static std::string cleanTypeName(StringRef n)
{
    if (n.starts_with("class."))
        n = n.drop_front(6);
    else if (n.starts_with("struct."))
        n = n.drop_front(7);
    else if (n.starts_with("union."))
        n = n.drop_front(6);
    std::string s = n.str();
    // strip .123 / .base suffixes
    for (;;)
    {
        size_t p = s.rfind('.');
        if (p == std::string::npos)
            break;
        std::string t = s.substr(p + 1);
        bool digits = !t.empty();
        for (char c : t)
            if (!isdigit(c))
                digits = false;
        if (digits || t == "base")
            s.resize(p);
        else
            break;
    }
    return s;
}

static void nameFields(Module& M)
{
    LLVMContext& C = M.getContext();
    auto* PT = PointerType::getUnqual(C);
    std::vector<GetElementPtrInst*> work;
    for (auto& F : M)
        for (auto& I : instructions(F))
            if (auto* G = dyn_cast<GetElementPtrInst>(&I))
            {
                auto* ST = dyn_cast<StructType>(G->getSourceElementType());
                if (!ST || !ST->hasName() || G->getNumIndices() != 2 || !G->hasName())
                    continue;
                auto* z = dyn_cast<ConstantInt>(G->getOperand(1));
                auto* k = dyn_cast<ConstantInt>(G->getOperand(2));
                if (!z || !k || !z->isZero() || G->getType() != PT)
                    continue;
                work.push_back(G);
            }
    std::map<std::pair<StructType*, unsigned>, std::string> nm;
    // the shortest name seen for (type, index) is the field name (uniquifying digits only append)
    for (auto* G : work)
    {
        auto* ST = cast<StructType>(G->getSourceElementType());
        unsigned k = cast<ConstantInt>(G->getOperand(2))->getZExtValue();
        std::string n = G->getName().str();
        size_t p = n.find(".i"); // never expected before inlining
        (void)p;
        while (!n.empty() && isdigit(n.back()) && n.size() > 1)
            n.pop_back();
        auto& cur = nm[{ST, k}];
        if (cur.empty() || n.size() < cur.size())
            cur = n;
    }
    const DataLayout& DL = M.getDataLayout();
    for (auto* G : work)
    {
        auto* ST = cast<StructType>(G->getSourceElementType());
        unsigned k = cast<ConstantInt>(G->getOperand(2))->getZExtValue();
        auto key = std::make_pair(ST, k);
        std::string cls = cleanTypeName(ST->getName());
        std::string name = "fld:" + cls + ":" + nm[key] + ":" + std::to_string(k) + ":"
                           + std::to_string(DL.getStructLayout(ST)->getElementOffset(k).getFixedValue());
        Function* fn = M.getFunction(name);
        if (!fn)
        {
            auto* FT = FunctionType::get(PT, {PT}, false);
            fn = Function::Create(FT, GlobalValue::ExternalLinkage, name, &M);
            fn->setDoesNotAccessMemory();
            fn->setDoesNotThrow();
            fn->addFnAttr(Attribute::WillReturn);
            fn->addFnAttr(Attribute::Speculatable);
            fn->addFnAttr(Attribute::NoFree);
            fn->addFnAttr(Attribute::NoSync);
            fn->addRetAttr(Attribute::NonNull);
            FieldsByName.insert({name, {ST, k, cls, nm[key]}});
        }
        auto* CI = CallInst::Create(fn, {G->getPointerOperand()}, "", G);
        CI->setDebugLoc(G->getDebugLoc());
        CI->takeName(G);
        G->replaceAllUsesWith(CI);
        G->eraseFromParent();
    }
}

static bool lowerAllocaFields(Function& F)
{
    bool any = false;
    bool ch = true;
    std::set<std::pair<Value*, Function*>> skip;
    while (ch)
    {
        ch = false;
        std::vector<CallInst*> w;
        for (auto& I : instructions(F))
            if (auto* CI = dyn_cast<CallInst>(&I))
            {
                auto it = CI->getCalledFunction() ? Fields.find(CI->getCalledFunction()) : Fields.end();
                if (it == Fields.end())
                    continue;
                Value* b = CI->getArgOperand(0);
                // follow through geps/casts
                for (int k = 0; k < 64; ++k)
                {
                    if (auto* G = dyn_cast<GEPOperator>(b))
                        b = G->getPointerOperand();
                    else if (auto* BC = dyn_cast<BitCastOperator>(b))
                        b = BC->getOperand(0);
                    else
                        break;
                }
                if (isa<AllocaInst>(b))
                    w.push_back(CI);
            }
        for (auto* CI : w)
        {
            auto& fi = Fields[CI->getCalledFunction()];
            IRBuilder<> B(CI);
            auto* G = B.CreateStructGEP(fi.st, CI->getArgOperand(0), fi.idx);
            CI->replaceAllUsesWith(G);
            CI->eraseFromParent();
            ch = any = true;
        }
    }
    return any;
}

// every select becomes an explicit branch, so that path rules see one form only
static void unfoldSelects(Function& F)
{
    for (int k = 0; k < 5000; ++k)
    {
        SelectInst* S = nullptr;
        for (auto& I : instructions(F))
            if (auto* s = dyn_cast<SelectInst>(&I))
                if (s->getCondition()->getType()->isIntegerTy(1))
                {
                    S = s;
                    break;
                }
        if (!S)
            return;
        Instruction *T = nullptr, *E = nullptr;
        SplitBlockAndInsertIfThenElse(S->getCondition(), S, &T, &E);
        T->setDebugLoc(S->getDebugLoc());
        E->setDebugLoc(S->getDebugLoc());
        PHINode* P = PHINode::Create(S->getType(), 2, "", S->getParent()->getFirstNonPHI());
        P->addIncoming(S->getTrueValue(), T->getParent());
        P->addIncoming(S->getFalseValue(), E->getParent());
        P->setDebugLoc(S->getDebugLoc());
        S->replaceAllUsesWith(P);
        S->eraseFromParent();
    }
}

struct Engine
{
    Module& M;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    FunctionPassManager thread, full;
    Engine(Module& m)
        : M(m)
    {
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        auto parse = [&](FunctionPassManager& P, const char* s) {
            if (auto E = PB.parsePassPipeline(P, s))
            {
                errs() << "pipeline error: " << toString(std::move(E)) << "\n";
                exit(3);
            }
        };
        parse(thread, "jump-threading,correlated-propagation,instsimplify,dce");
        parse(full,
              "sroa<modify-cfg>,early-cse<memssa>,instsimplify,sccp,simplifycfg,jump-threading,correlated-propagation,"
              "instsimplify,early-cse<memssa>,dce,simplifycfg");
    }
};

static json::Value jval(Value* v, std::map<Value*, int>& id, const DataLayout& DL);

static std::string typeStr(Type* t)
{
    if (auto* s = dyn_cast<StructType>(t))
        if (s->hasName())
            return cleanTypeName(s->getName());
    std::string o;
    raw_string_ostream os(o);
    t->print(os, false, true);
    return os.str();
}

static json::Value jval(Value* v, std::map<Value*, int>& id, const DataLayout& DL)
{
    if (auto* I = dyn_cast<Instruction>(v))
        return json::Value(id[I]);
    if (auto* A = dyn_cast<Argument>(v))
        return json::Object{{"a", (int64_t)A->getArgNo()}};
    if (auto* c = dyn_cast<ConstantInt>(v))
    {
        if (c->getBitWidth() <= 64)
            return json::Object{{"c", std::to_string(c->getZExtValue())}, {"w", (int64_t)c->getBitWidth()}};
        SmallString<64> s;
        c->getValue().toString(s, 10, false);
        return json::Object{{"c", s.str().str()}, {"w", (int64_t)c->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(v))
        return json::Object{{"null", true}};
    if (isa<UndefValue>(v))
        return json::Object{{"undef", true}};
    if (auto* g = dyn_cast<GlobalValue>(v))
    {
        json::Object o{{"g", g->getName().str()}};
        if (auto* f = dyn_cast<Function>(g))
            o["f"] = base(f->getName());
        else if (auto* gv = dyn_cast<GlobalVariable>(g))
        {
            if (gv->hasInitializer())
                if (auto* cd = dyn_cast<ConstantDataArray>(gv->getInitializer()))
                    if (cd->isCString())
                        o["str"] = json::fixUTF8(cd->getAsCString());
            // table of getopt_long options: [name, has_arg, value] per entry
            if (gv->hasInitializer())
                if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer()))
                {
                    auto* st = dyn_cast<StructType>(ca->getType()->getElementType());
                    if (st && st->hasName() && st->getName() == "struct.option" && st->getNumElements() == 4)
                    {
                        json::Array rows;
                        for (auto& e : ca->operands())
                        {
                            auto* c = cast<Constant>(e.get());
                            json::Array row;
                            std::string name;
                            if (auto* n = dyn_cast_or_null<GlobalVariable>(c->getAggregateElement(0u)))
                                if (n->hasInitializer())
                                    if (auto* t = dyn_cast<ConstantDataArray>(n->getInitializer()))
                                        if (t->isCString())
                                            name = t->getAsCString().str();
                            row.push_back(json::fixUTF8(name));
                            for (unsigned k : {1u, 3u})
                            {
                                auto* v = dyn_cast_or_null<ConstantInt>(c->getAggregateElement(k));
                                row.push_back(v ? v->getSExtValue() : (int64_t)-1);
                            }
                            rows.push_back(std::move(row));
                        }
                        o["options"] = std::move(rows);
                    }
                }
        }
        return o;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v))
    {
        if (auto* g = dyn_cast<GEPOperator>(ce))
        {
            APInt off(DL.getIndexTypeSizeInBits(g->getType()), 0);
            if (auto* b = dyn_cast<GlobalVariable>(g->stripAndAccumulateConstantOffsets(DL, off, true)))
                return json::Object{{"g", b->getName().str()}, {"off", (int64_t)off.getSExtValue()}};
        }
        json::Array a;
        for (auto& op : ce->operands())
            a.push_back(jval(op, id, DL));
        return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(a)}};
    }
    std::string o;
    raw_string_ostream os(o);
    v->printAsOperand(os, false);
    return json::Object{{"k", json::fixUTF8(os.str())}};
}

// location table: entry = [file, line, function, index of the location it is inlined at or -1]
static std::map<const DILocation*, int> LocIds;
static json::Array LocTable;
static int jloc(const DILocation* L)
{
    auto it = LocIds.find(L);
    if (it != LocIds.end())
        return it->second;
    int up = L->getInlinedAt() ? jloc(L->getInlinedAt()) : -1;
    auto* sp = L->getScope()->getSubprogram();
    std::string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : base(sp->getLinkageName())) : "";
    LocTable.push_back(json::Array{L->getFilename().str(), (int64_t)L->getLine(), fn, up});
    return LocIds[L] = (int)LocTable.size() - 1;
}

static const char* ordName(AtomicOrdering o)
{
    return toIRString(o);
}

static json::Object dumpFn(Function& F)
{
    const DataLayout& DL = F.getParent()->getDataLayout();
    std::map<Value*, int> id;
    std::map<BasicBlock*, int> bid;
    int n = 0, b = 0;
    for (auto& BB : F)
    {
        bid[&BB] = b++;
        for (auto& I : BB)
            id[&I] = n++;
    }
    json::Array blocks;
    for (auto& BB : F)
    {
        json::Array ins;
        // a block that ends in a panic: only the noreturn call matters
        bool panics = isa<UnreachableInst>(BB.getTerminator());
        for (auto& I : BB)
        {
            if (isa<DbgInfoIntrinsic>(I))
                continue;
            if (auto* II = dyn_cast<IntrinsicInst>(&I))
                if (II->isLifetimeStartOrEnd() || II->isAssumeLikeIntrinsic())
                    continue;
            if (isa<AllocaInst>(I) && I.use_empty())
                continue;
            if (panics && !I.isTerminator())
            {
                auto* CB = dyn_cast<CallBase>(&I);
                if (!CB || !CB->doesNotReturn())
                    continue;
            }
            json::Object o;
            o["i"] = id[&I];
            o["op"] = I.getOpcodeName();
            if (!I.getType()->isVoidTy())
                o["ty"] = typeStr(I.getType());
            if (I.getDebugLoc())
                o["loc"] = jloc(I.getDebugLoc().get());
            json::Array ops;
            if (auto* CB = dyn_cast<CallBase>(&I))
            {
                for (auto& a : CB->args())
                    ops.push_back(jval(a, id, DL));
                if (auto* cf = CB->getCalledFunction())
                {
                    auto it = Fields.find(cf);
                    if (it != Fields.end())
                    {
                        o["op"] = "field";
                        o["cls"] = it->second.cls;
                        o["fld"] = it->second.field;
                        o["idx"] = (int64_t)it->second.idx;
                        o["off"] = (int64_t)DL.getStructLayout(it->second.st)->getElementOffset(it->second.idx).getFixedValue();
                    }
                    else
                    {
                        o["m"] = cf->getName().str();
                        o["callee"] = base(cf->getName());
                        o["full"] = dem(cf->getName());
                        o["def"] = !cf->isDeclaration();
                    }
                    if (cf->hasParamAttribute(0, Attribute::StructRet))
                        o["sret"] = true;
                }
                else
                    o["ind"] = jval(CB->getCalledOperand(), id, DL);
                if (CB->doesNotReturn())
                    o["noret"] = true;
            }
            else if (auto* PN = dyn_cast<PHINode>(&I))
            {
                json::Array inb;
                for (unsigned k = 0; k < PN->getNumIncomingValues(); ++k)
                {
                    ops.push_back(jval(PN->getIncomingValue(k), id, DL));
                    inb.push_back(bid[PN->getIncomingBlock(k)]);
                }
                o["from"] = std::move(inb);
            }
            else if (auto* BI = dyn_cast<BranchInst>(&I))
            {
                if (BI->isConditional())
                    ops.push_back(jval(BI->getCondition(), id, DL));
            }
            else if (auto* SI = dyn_cast<SwitchInst>(&I))
            {
                ops.push_back(jval(SI->getCondition(), id, DL));
                json::Array cs;
                for (auto& c : SI->cases())
                    cs.push_back(json::Array{std::to_string(c.getCaseValue()->getSExtValue()),
                                             bid[c.getCaseSuccessor()]});
                o["cases"] = std::move(cs);
                o["default"] = bid[SI->getDefaultDest()];
            }
            else
                for (auto& a : I.operands())
                    ops.push_back(jval(a, id, DL));
            if (auto* L = dyn_cast<LoadInst>(&I))
            {
                if (L->isAtomic())
                    o["ord"] = ordName(L->getOrdering());
                if (L->isVolatile())
                    o["vol"] = true;
            }
            else if (auto* S = dyn_cast<StoreInst>(&I))
            {
                if (S->isAtomic())
                    o["ord"] = ordName(S->getOrdering());
                o["vty"] = typeStr(S->getValueOperand()->getType());
            }
            else if (auto* R = dyn_cast<AtomicRMWInst>(&I))
            {
                o["ord"] = ordName(R->getOrdering());
                o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
            }
            else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I))
            {
                o["ord"] = ordName(X->getSuccessOrdering());
                o["ford"] = ordName(X->getFailureOrdering());
            }
            else if (auto* Fe = dyn_cast<FenceInst>(&I))
                o["ord"] = ordName(Fe->getOrdering());
            else if (auto* Cm = dyn_cast<CmpInst>(&I))
                o["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
            else if (auto* G = dyn_cast<GetElementPtrInst>(&I))
            {
                o["sty"] = typeStr(G->getSourceElementType());
                APInt off(64, 0);
                if (G->accumulateConstantOffset(DL, off))
                    o["off"] = off.getSExtValue();
            }
            else if (auto* A = dyn_cast<AllocaInst>(&I))
            {
                o["aty"] = typeStr(A->getAllocatedType());
                o["name"] = A->getName().str();
            }
            else if (auto* EV = dyn_cast<ExtractValueInst>(&I))
            {
                json::Array ix;
                for (auto k : EV->indices())
                    ix.push_back((int64_t)k);
                o["ix"] = std::move(ix);
            }
            else if (auto* IV = dyn_cast<InsertValueInst>(&I))
            {
                json::Array ix;
                for (auto k : IV->indices())
                    ix.push_back((int64_t)k);
                o["ix"] = std::move(ix);
            }
            o["ops"] = std::move(ops);
            if (I.isTerminator())
            {
                json::Array s;
                for (unsigned k = 0; k < I.getNumSuccessors(); ++k)
                    s.push_back(bid[I.getSuccessor(k)]);
                o["succ"] = std::move(s);
            }
            ins.push_back(std::move(o));
        }
        blocks.push_back(json::Object{{"b", bid[&BB]}, {"ins", std::move(ins)}});
    }
    json::Array args;
    for (auto& A : F.args())
        args.push_back(json::Object{{"name", A.getName().str()},
                                    {"ty", typeStr(A.getType())},
                                    {"sret", A.hasStructRetAttr()},
                                    {"byval", A.hasByValAttr()}});
    return json::Object{{"blocks", std::move(blocks)}, {"args", std::move(args)}, {"ret", typeStr(F.getReturnType())}};
}

static bool inertFn(const std::string& b)
{
    return b.rfind("iox::log::", 0) == 0;
}

/// `0 == x` reads like `x == 0`, `1 + x` like `x + 1`
static void constantsRight(Function& F)
{
    for (auto& I : instructions(F))
    {
        if (auto* C = dyn_cast<ICmpInst>(&I))
        {
            if (isa<Constant>(C->getOperand(0)) && !isa<Constant>(C->getOperand(1)))
                C->swapOperands();
        }
        else if (auto* B = dyn_cast<BinaryOperator>(&I))
        {
            if (B->isCommutative() && isa<Constant>(B->getOperand(0)) && !isa<Constant>(B->getOperand(1)))
                B->swapOperands();
        }
    }
}

int main(int argc, char** argv)
{
    if (argc < 4)
    {
        errs() << "usage: irx spec.json out.json a.bc...\n";
        return 2;
    }
    auto mb = MemoryBuffer::getFile(argv[1]);
    if (!mb)
        return 2;
    auto spec = json::parse((*mb)->getBuffer());
    if (!spec)
    {
        errs() << "bad spec: " << toString(spec.takeError()) << "\n";
        return 2;
    }
    LLVMContext C;
    C.setDiscardValueNames(false);
    SMDiagnostic D;
    std::unique_ptr<Module> M;
    for (int i = 3; i < argc; ++i)
    {
        auto m = parseIRFile(argv[i], D, C);
        if (!m)
        {
            D.print("irx", errs());
            return 2;
        }
        nameFields(*m);
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m)))
        {
            errs() << "link failed " << argv[i] << "\n";
            return 2;
        }
    }
    // logging is inert for every property: cut it off at its own level test
    for (auto& F : *M)
    {
        std::vector<Instruction*> kill;
        for (auto& I : instructions(F))
            if (auto* CI = dyn_cast<CallInst>(&I))
                if (auto* cf = CI->getCalledFunction())
                {
                    const std::string& bn = base(cf->getName());
                    if (bn == "iox::log::internal::isLogLevelActive" && CI->getType()->isIntegerTy(1))
                    {
                        CI->replaceAllUsesWith(ConstantInt::getFalse(C));
                        kill.push_back(CI);
                    }
                }
        for (auto* k : kill)
            k->eraseFromParent();
    }
    // constructor/destructor aliases: call the aliased body
    for (auto& A : M->aliases())
        if (auto* f = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
            A.replaceUsesWithIf(f, [](Use& u) { return isa<CallBase>(u.getUser()); });
    Engine E(*M);
    for (auto& F : *M)
    {
        auto it = FieldsByName.find(F.getName().str());
        if (it != FieldsByName.end())
            Fields[&F] = it->second;
    }
    // cheap clean-up of every defined function once, so that inlined bodies are small
    for (auto& F : *M)
        if (!F.isDeclaration())
        {
            F.removeFnAttr(Attribute::OptimizeNone);
            F.removeFnAttr(Attribute::NoInline);
            F.removeFnAttr(Attribute::AlwaysInline);
            removeUnreachableBlocks(F);
        }

    json::Object& S = *spec->getAsObject();
    if (auto* pl = S.getArray("pure"))
        for (auto& v : *pl)
        {
            std::regex rx(v.getAsString()->str());
            for (auto& F : *M)
                if (std::regex_match(base(F.getName()), rx))
                {
                    F.setOnlyReadsMemory();
                    F.setDoesNotThrow();
                    F.addFnAttr(Attribute::WillReturn);
                    for (auto* U : F.users())
                        if (auto* CB = dyn_cast<CallBase>(U))
                            if (CB->getCalledFunction() == &F)
                                CB->setOnlyReadsMemory();
                }
        }
    auto compileRx = [](json::Array* a) {
        std::string s;
        if (a)
            for (auto& v : *a)
            {
                if (!s.empty())
                    s += "|";
                s += "(?:" + v.getAsString()->str() + ")";
            }
        return s;
    };
    std::string gOpaque = compileRx(S.getArray("opaque"));
    int64_t limit = S.getInteger("limit").value_or(60000);
    json::Object out;
    json::Object roots;
    // index of all defined functions by base name
    std::map<std::string, std::vector<Function*>> byBase;
    for (auto& F : *M)
        if (!F.isDeclaration())
            byBase[base(F.getName())].push_back(&F);
    if (S.getBoolean("list").value_or(false))
    {
        json::Array a;
        for (auto& kv : byBase)
            for (auto* f : kv.second)
                a.push_back(json::Array{kv.first, dem(f->getName()), f->getName().str()});
        out["functions"] = std::move(a);
    }
    json::Array* rs = S.getArray("roots");
    std::vector<Function*> clones;
    if (rs)
        for (auto& rv : *rs)
        {
            json::Object& R = *rv.getAsObject();
            std::string rid = R.getString("id")->str();
            std::string bn = R.getString("base")->str();
            std::string filt = R.getString("filter").value_or("").str();
            std::string op = compileRx(R.getArray("opaque"));
            bool noGlobal = R.getBoolean("noglobal").value_or(false);
            std::string all = (gOpaque.empty() || noGlobal) ? op : (op.empty() ? gOpaque : gOpaque + "|" + op);
            std::regex opRx(all.empty() ? std::string("^$") : all, std::regex::optimize);
            std::regex bRx(bn);
            std::regex fRx(filt.empty() ? std::string(".*") : filt);
            json::Array insts;
            std::map<Function*, bool> opCache;
            auto isOpaque = [&](Function* f) {
                auto it = opCache.find(f);
                if (it != opCache.end())
                    return it->second;
                const std::string& b = base(f->getName());
                // the body of a lambda is visible only where its enclosing function has been inlined: it belongs to that function
                size_t lam = b.rfind("::operator()");
                size_t cls = lam == std::string::npos || lam == 0 ? std::string::npos : b.rfind("::", lam - 1);
                cls = cls == std::string::npos ? 0 : cls + 2;
                bool isLambda = lam != std::string::npos && (b.compare(cls, 7, "'lambda") == 0 || b.compare(cls, 2, "$_") == 0);
                bool r = inertFn(b) || b.rfind("iox::er::", 0) == 0 || b.rfind("std::thread", 0) == 0
                         || (!isLambda && (std::regex_search(b, opRx) || std::regex_search(dem(f->getName()), opRx)));
                opCache[f] = r;
                return r;
            };
            for (auto& kv : byBase)
            {
                if (!std::regex_match(kv.first, bRx))
                    continue;
                for (Function* F : kv.second)
                {
                    if (!filt.empty() && !std::regex_search(dem(F->getName()), fRx))
                        continue;
                    ValueToValueMapTy VM;
                    Function* N = CloneFunction(F, VM);
                    N->setName("root$" + F->getName());
                    N->setLinkage(GlobalValue::InternalLinkage);
                    N->setComdat(nullptr);
                    std::vector<std::pair<Function*, int>> hist;
                    std::set<std::string> inlined, recursed;
                    bool truncated = false;
                    std::map<CallBase*, int> callHist;
                    for (int round = 0; round < 12; ++round)
                    {
                        bool did = false;
                        std::vector<std::pair<CallBase*, int>> wl;
                        for (auto& I : instructions(*N))
                            if (auto* CB = dyn_cast<CallBase>(&I))
                                wl.push_back({CB, -1});
                        size_t sz = N->getInstructionCount();
                        while (!wl.empty())
                        {
                            auto [CB, h] = wl.back();
                            wl.pop_back();
                            Function* cf = CB->getCalledFunction();
                            if (!cf || cf->isDeclaration() || cf->isIntrinsic() || Fields.count(cf) || isOpaque(cf))
                                continue;
                            if (cf->isInterposable())
                            { /* linkonce/weak: the source body is what is built */
                            }
                            bool rec = cf == F || cf == N;
                            int k = h, depth = 0;
                            while (k >= 0)
                            {
                                if (hist[k].first == cf)
                                    rec = true;
                                k = hist[k].second;
                                depth++;
                            }
                            if (rec)
                            {
                                recursed.insert(base(cf->getName()));
                                continue;
                            }
                            if (depth > 60 || sz > (size_t)limit)
                            {
                                truncated = true;
                                continue;
                            }
                            InlineFunctionInfo IFI;
                            auto r = InlineFunction(*CB, IFI);
                            if (!r.isSuccess())
                            {
                                recursed.insert(base(cf->getName()) + ": " + r.getFailureReason());
                                continue;
                            }
                            did = true;
                            inlined.insert(base(cf->getName()));
                            sz += cf->getInstructionCount();
                            hist.push_back({cf, h});
                            int nh = (int)hist.size() - 1;
                            for (auto* nc : IFI.InlinedCallSites)
                                wl.push_back({nc, nh});
                        }
                        lowerAllocaFields(*N);
                        E.FAM.invalidate(*N, PreservedAnalyses::none());
                        removeUnreachableBlocks(*N);
                        E.full.run(*N, E.FAM);
                        lowerAllocaFields(*N);
                        E.FAM.invalidate(*N, PreservedAnalyses::none());
                        E.full.run(*N, E.FAM);
                        E.FAM.invalidate(*N, PreservedAnalyses::none());
                        if (!did && round > 0)
                            break;
                    }
                    constantsRight(*N);
                    unfoldSelects(*N);
                    E.FAM.invalidate(*N, PreservedAnalyses::none());
                    E.thread.run(*N, E.FAM);
                    unfoldSelects(*N);
                    E.FAM.invalidate(*N, PreservedAnalyses::none());
                    json::Object o = dumpFn(*N);
                    o["base"] = kv.first;
                    o["full"] = dem(F->getName());
                    o["m"] = F->getName().str();
                    o["truncated"] = truncated;
                    if (auto* sp = F->getSubprogram())
                        o["src"] = json::Array{sp->getFilename().str(), (int64_t)sp->getLine()};
                    json::Array il, rc;
                    for (auto& s : inlined)
                        il.push_back(s);
                    for (auto& s : recursed)
                        rc.push_back(s);
                    o["inlined"] = std::move(il);
                    o["recursed"] = std::move(rc);
                    insts.push_back(std::move(o));
                    E.FAM.clear(*N, N->getName());
                    N->eraseFromParent();
                }
            }
            roots[rid] = std::move(insts);
        }
    out["roots"] = std::move(roots);
    out["locs"] = std::move(LocTable);
    json::Object enums;
    DebugInfoFinder DIF;
    DIF.processModule(*M);
    for (auto* t : DIF.types())
        if (auto* c = dyn_cast<DICompositeType>(t))
            if (c->getTag() == dwarf::DW_TAG_enumeration_type && !c->getName().empty())
            {
                std::string n = c->getName().str();
                for (auto* sc = c->getScope(); sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc); sc = sc->getScope())
                    if (!sc->getName().empty())
                        n = sc->getName().str() + "::" + n;
                json::Object e;
                for (auto* el : c->getElements())
                    if (auto* en = dyn_cast<DIEnumerator>(el))
                        e[en->getName()] = (int64_t)en->getValue().getSExtValue();
                enums[n] = std::move(e);
            }
    out["enums"] = std::move(enums);
    // whole-program direct call graph (for reachability rules)
    if (S.getBoolean("callgraph").value_or(false))
    {
        json::Object cg;
        for (auto& F : *M)
        {
            if (F.isDeclaration())
                continue;
            json::Array a;
            std::set<std::string> seen;
            for (auto& I : instructions(F))
            {
                auto note = [&](Function* f, const char* kind, Instruction& at) {
                    if (Fields.count(f) || f->isIntrinsic())
                        return;
                    std::string key = std::string(kind) + f->getName().str();
                    if (!seen.insert(key).second)
                        return;
                    json::Object e{{"m", f->getName().str()}, {"k", kind}};
                    if (at.getDebugLoc())
                        e["loc"] = json::Array{at.getDebugLoc()->getFilename().str(), (int64_t)at.getDebugLoc().getLine()};
                    a.push_back(std::move(e));
                };
                if (auto* CB = dyn_cast<CallBase>(&I))
                {
                    if (auto* cf = CB->getCalledFunction())
                        note(cf, "call", I);
                    for (auto& op : CB->args())
                        if (auto* f = dyn_cast<Function>(op->stripPointerCasts()))
                            note(f, "addr", I);
                    if (CB->isIndirectCall())
                    {
                        json::Object e{{"k", "ind"}};
                        if (I.getDebugLoc())
                            e["loc"] = json::Array{I.getDebugLoc()->getFilename().str(), (int64_t)I.getDebugLoc().getLine()};
                        a.push_back(std::move(e));
                    }
                }
                else
                    for (auto& op : I.operands())
                        if (auto* f = dyn_cast<Function>(op->stripPointerCasts()))
                            note(f, "addr", I);
            }
            cg[F.getName()] = json::Object{{"base", base(F.getName())}, {"full", dem(F.getName())}, {"out", std::move(a)}};
        }
        out["callgraph"] = std::move(cg);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec)
        return 2;
    os << json::Value(std::move(out));
    return 0;
}
