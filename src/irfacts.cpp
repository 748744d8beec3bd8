// irfacts: links LLVM bitcode files made from /repo's current source, inlines
// private helpers (public API functions in the keep list stay as call events),
// normalises to SSA and prints the resulting program as JSON facts:
// functions, blocks, instructions, loops with scalar-evolution trip counts,
// constant globals and debug-info record layouts.  It executes nothing.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::vector<std::string> Roots;
static std::vector<std::regex> Keep, StdInline;
static std::map<const Value *, int> Ids;
static std::set<const GlobalVariable *> UsedGlobals;

static std::string dem(StringRef N) { return demangle(N.str()); }

static std::string srcOf(const DISubprogram *SP) {
    if (!SP || !SP->getFile()) return "";
    std::string d = SP->getFile()->getDirectory().str();
    std::string f = SP->getFile()->getFilename().str();
    if (!f.empty() && f[0] == '/') return f;
    return d.empty() ? f : d + "/" + f;
}
static std::string scopeFile(const DILocation *L) {
    std::string d = L->getDirectory().str(), f = L->getFilename().str();
    if (!f.empty() && f[0] == '/') return f;
    return d.empty() ? f : d + "/" + f;
}
static bool inRoots(const std::string &f) {
    for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
    return false;
}

static json::Value constVal(const Constant *C, int depth = 0);
static json::Value operand(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
        SmallString<64> s; CI->getValue().toString(s, 10, true);
        return json::Array{"c", std::string(s), (int64_t)CI->getBitWidth()};
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
        SmallString<64> s; CF->getValueAPF().toString(s);
        return json::Array{"f", std::string(s)};
    }
    if (auto *G = dyn_cast<GlobalVariable>(V)) { UsedGlobals.insert(G); return json::Array{"g", G->getName().str(), 0}; }
    if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
    if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
    if (isa<UndefValue>(V)) return json::Array{"undef"};
    if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", (int64_t)Ids[B]};
    if (isa<Instruction>(V)) return json::Array{"v", (int64_t)Ids[V]};
    if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
    return json::Array{"?"};
}
static const DataLayout *DLp;
static json::Value constVal(const Constant *C, int depth) {
    if (depth > 6) return json::Array{"?"};
    if (isa<ConstantInt>(C) || isa<ConstantFP>(C) || isa<GlobalVariable>(C) || isa<Function>(C) ||
        isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return operand(C);
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (auto *GO = dyn_cast<GEPOperator>(CE)) {
            APInt off(64, 0);
            if (GO->accumulateConstantOffset(*DLp, off))
                if (auto *G = dyn_cast<GlobalVariable>(GO->getPointerOperand())) {
                    UsedGlobals.insert(G);
                    return json::Array{"g", G->getName().str(), off.getSExtValue()};
                }
        }
        json::Array ops;
        for (auto &o : CE->operands()) ops.push_back(constVal(cast<Constant>(o.get()), depth + 1));
        return json::Array{"ce", CE->getOpcodeName(), std::move(ops)};
    }
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
        if (CDS->isString()) {
            // as bytes, so that any content survives JSON
            json::Array a; for (unsigned char ch : CDS->getAsString()) a.push_back((int64_t)ch);
            return json::Array{"str", std::move(a)};
        }
        json::Array a;
        for (unsigned i = 0; i < CDS->getNumElements(); i++) a.push_back(constVal(CDS->getElementAsConstant(i), depth + 1));
        return json::Array{"arr", std::move(a)};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        json::Array a;
        for (auto &o : CA->operands()) a.push_back(constVal(cast<Constant>(o.get()), depth + 1));
        return json::Array{isa<ConstantStruct>(C) ? "st" : "arr", std::move(a)};
    }
    if (isa<ConstantAggregateZero>(C)) {
        std::string s; raw_string_ostream os(s); C->getType()->print(os);
        return json::Array{"zero", s};
    }
    return json::Array{"?"};
}
static std::string tyStr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return s; }

static json::Value scev(const SCEV *S, ScalarEvolution &SE, int depth = 0) {
    if (depth > 12) return json::Array{"?"};
    auto nary = [&](const char *n) {
        json::Array ops;
        for (auto *o : cast<SCEVNAryExpr>(S)->operands()) ops.push_back(scev(o, SE, depth + 1));
        return json::Array{n, std::move(ops)};
    };
    switch (S->getSCEVType()) {
    case scConstant: { SmallString<64> s; cast<SCEVConstant>(S)->getAPInt().toString(s, 10, true); return json::Array{"c", std::string(s)}; }
    case scUnknown: return json::Array{"u", operand(cast<SCEVUnknown>(S)->getValue())};
    case scAddExpr: return nary("add");
    case scMulExpr: return nary("mul");
    case scSMaxExpr: return nary("smax");
    case scUMaxExpr: return nary("umax");
    case scSMinExpr: return nary("smin");
    case scUMinExpr: return nary("umin");
    case scSequentialUMinExpr: return nary("umin_seq");
    case scTruncate: return json::Array{"trunc", scev(cast<SCEVCastExpr>(S)->getOperand(), SE, depth + 1)};
    case scZeroExtend: return json::Array{"zext", scev(cast<SCEVCastExpr>(S)->getOperand(), SE, depth + 1)};
    case scSignExtend: return json::Array{"sext", scev(cast<SCEVCastExpr>(S)->getOperand(), SE, depth + 1)};
    case scPtrToInt: return json::Array{"p2i", scev(cast<SCEVCastExpr>(S)->getOperand(), SE, depth + 1)};
    case scUDivExpr: return json::Array{"udiv", scev(cast<SCEVUDivExpr>(S)->getLHS(), SE, depth + 1), scev(cast<SCEVUDivExpr>(S)->getRHS(), SE, depth + 1)};
    case scAddRecExpr: {
        auto *AR = cast<SCEVAddRecExpr>(S);
        json::Array ops;
        for (auto *o : AR->operands()) ops.push_back(scev(o, SE, depth + 1));
        return json::Array{"rec", (int64_t)Ids[AR->getLoop()->getHeader()], std::move(ops)};
    }
    default: return json::Array{"?"};
    }
}

static std::string diType(const DIType *T, int d = 0) {
    if (!T) return "void";
    if (d > 8) return "?";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), d + 1) + "*";
        case dwarf::DW_TAG_reference_type: return diType(D->getBaseType(), d + 1) + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return diType(D->getBaseType(), d + 1) + "&&";
        case dwarf::DW_TAG_const_type: return "const " + diType(D->getBaseType(), d + 1);
        case dwarf::DW_TAG_typedef: return diType(D->getBaseType(), d + 1);
        default: return diType(D->getBaseType(), d + 1);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) return diType(C->getBaseType(), d + 1) + "[]";
        if (!C->getIdentifier().empty()) return C->getIdentifier().str();
    }
    return T->getName().str();
}

int main(int argc, char **argv) {
    LLVMContext Ctx;
    std::vector<std::string> files;
    std::string passes = "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)";
    bool doInline = true;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto readlist = [&](std::vector<std::regex> &v) {
            std::ifstream in(argv[++i]); std::string l;
            while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; v.emplace_back(l, std::regex::ECMAScript | std::regex::optimize); }
        };
        if (a == "--root") Roots.push_back(argv[++i]);
        else if (a == "--keep") readlist(Keep);
        else if (a == "--std") readlist(StdInline);
        else if (a == "--passes") passes = argv[++i];
        else if (a == "--no-inline") doInline = false;
        else files.push_back(a);
    }
    std::unique_ptr<Module> M;
    for (auto &f : files) {
        SMDiagnostic e;
        auto m = parseIRFile(f, e, Ctx);
        if (!m) { errs() << "cannot read " << f << ": " << e.getMessage() << "\n"; return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; }
    }
    if (!M) return 2;
    DLp = &M->getDataLayout();
    // constructor variants are aliases: call the definition itself
    for (auto &GA : M->aliases()) if (auto *F = dyn_cast<Function>(GA.getAliaseeObject())) GA.replaceAllUsesWith(F);
    // --- choose what is inlined
    std::set<Function *> Recursive;
    {
        CallGraph CG(*M);
        for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I) {
            if (I->size() > 1) { for (auto *n : *I) if (n->getFunction()) Recursive.insert(n->getFunction()); }
            else if (I.hasCycle()) { auto *n = I->front(); if (n->getFunction()) Recursive.insert(n->getFunction()); }
        }
    }
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        std::string d = dem(F.getName());
        bool repo = inRoots(srcOf(F.getSubprogram()));
        bool keep = false, in = false;
        for (auto &r : Keep) if (std::regex_search(d, r)) { keep = true; break; }
        if (!keep && repo && doInline) in = true;
        if (!repo && doInline) for (auto &r : StdInline) if (std::regex_search(d, r)) { in = true; break; }
        if (Recursive.count(&F) || F.getName() == "main") in = false;
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint);
        F.addFnAttr(in ? Attribute::AlwaysInline : Attribute::NoInline);
        // keep bodies: linkonce functions must survive
        if (F.hasLinkOnceLinkage()) F.setLinkage(GlobalValue::WeakODRLinkage);
    }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        ModulePassManager MPM;
        std::string p = std::string(doInline ? "always-inline," : "") + passes;
        if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(E)) << "\n"; return 2; }
        MPM.run(*M, MAM);

        json::OStream J(outs());
        J.objectBegin();
        J.attributeBegin("functions"); J.arrayBegin();
        for (auto &F : *M) {
            std::string d = dem(F.getName());
            std::string src = srcOf(F.getSubprogram());
            if (F.isDeclaration()) continue;
            if (!inRoots(src)) continue;
            auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
            auto &LI = FAM.getResult<LoopAnalysis>(F);
            Ids.clear(); int n = 0;
            for (auto &B : F) Ids[&B] = n++;
            n = 0;
            for (auto &B : F) for (auto &I : B) Ids[&I] = n++;
            J.objectBegin();
            J.attribute("name", F.getName()); J.attribute("dem", d); J.attribute("src", src);
            J.attribute("line", F.getSubprogram() ? (int64_t)F.getSubprogram()->getLine() : 0);
            J.attribute("ret", tyStr(F.getReturnType()));
            J.attribute("internal", F.hasLocalLinkage());
            J.attribute("nounwind", F.doesNotThrow());
            J.attributeBegin("args"); J.arrayBegin();
            for (auto &A : F.args()) {
                json::Object o{{"ty", tyStr(A.getType())}};
                if (A.hasStructRetAttr()) o["sret"] = true;
                J.value(std::move(o));
            }
            J.arrayEnd(); J.attributeEnd();
            if (auto *SP = F.getSubprogram()) {
                json::Array ts;
                if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) ts.push_back(diType(t));
                J.attribute("ditypes", std::move(ts));
                json::Array ns;
                for (auto *N : SP->getRetainedNodes())
                    if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) ns.push_back(json::Array{(int64_t)V->getArg(), V->getName().str()});
                J.attribute("dinames", std::move(ns));
            }
            J.attributeBegin("blocks"); J.arrayBegin();
            for (auto &B : F) {
                J.objectBegin();
                J.attribute("id", Ids[&B]);
                json::Array ps, ss;
                for (auto *P : predecessors(&B)) ps.push_back(Ids[P]);
                for (auto *S : successors(&B)) ss.push_back(Ids[S]);
                J.attribute("preds", std::move(ps)); J.attribute("succs", std::move(ss));
                J.attributeBegin("insts"); J.arrayBegin();
                for (auto &I : B) {
                    if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
                        // names of locals, for messages only
                        Value *v = DV->getNumVariableLocationOps() ? DV->getVariableLocationOp(0) : nullptr;
                        if (v && (isa<Instruction>(v) || isa<Argument>(v)))
                            J.value(json::Object{{"op", "dbg"}, {"var", DV->getVariable()->getName().str()}, {"ops", json::Array{operand(v)}},
                                                 {"decl", isa<DbgDeclareInst>(DV)}});
                        continue;
                    }
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                        auto id = II->getIntrinsicID();
                        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue;
                    }
                    J.objectBegin();
                    J.attribute("i", Ids[&I]); J.attribute("op", I.getOpcodeName());
                    if (!I.getType()->isVoidTy()) J.attribute("ty", tyStr(I.getType()));
                    json::Array ops;
                    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                        unsigned BW = DLp->getIndexTypeSizeInBits(G->getType());
                        MapVector<Value *, APInt> vars; APInt off(BW, 0);
                        if (G->collectOffset(*DLp, BW, vars, off)) {
                            json::Array vs;
                            for (auto &v : vars) vs.push_back(json::Array{operand(v.first), v.second.getSExtValue()});
                            J.attribute("off", off.getSExtValue()); J.attribute("vars", std::move(vs));
                        }
                        ops.push_back(operand(G->getPointerOperand()));
                        J.attribute("inb", G->isInBounds());
                        J.attribute("sty", tyStr(G->getSourceElementType()));
                    } else if (auto *P = dyn_cast<PHINode>(&I)) {
                        for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
                            ops.push_back(json::Array{operand(P->getIncomingValue(k)), Ids[P->getIncomingBlock(k)]});
                    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                        for (auto &a : CB->args()) ops.push_back(operand(a.get()));
                        if (auto *cf = CB->getCalledFunction()) { J.attribute("callee", cf->getName()); J.attribute("cdem", dem(cf->getName())); }
                        else J.attribute("cptr", operand(CB->getCalledOperand()));
                        if (auto *IV = dyn_cast<InvokeInst>(&I)) { J.attribute("normal", Ids[IV->getNormalDest()]); J.attribute("unwind", Ids[IV->getUnwindDest()]); }
                        json::Array sr; for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->paramHasAttr(k, Attribute::StructRet)) sr.push_back((int64_t)k);
                        if (!sr.empty()) J.attribute("sret", std::move(sr));
                        if (CB->doesNotReturn()) J.attribute("noret", true);
                        if (CB->doesNotThrow()) J.attribute("nounw", true);
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                        if (Br->isConditional()) { ops.push_back(operand(Br->getCondition())); }
                        json::Array t; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) t.push_back(Ids[Br->getSuccessor(k)]);
                        J.attribute("to", std::move(t));
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                        ops.push_back(operand(Sw->getCondition()));
                        json::Array cs;
                        for (auto &c : Sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), Ids[c.getCaseSuccessor()]});
                        J.attribute("cases", std::move(cs)); J.attribute("default", Ids[Sw->getDefaultDest()]);
                    } else {
                        for (auto &o : I.operands()) ops.push_back(operand(o.get()));
                        if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
                        if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", tyStr(A->getAllocatedType())); if (auto s = A->getAllocationSize(*DLp)) J.attribute("asize", (int64_t)s->getFixedValue()); }
                        if (isa<StoreInst>(&I)) J.attribute("vty", tyStr(cast<StoreInst>(I).getValueOperand()->getType()));
                        if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); J.attribute("idx", std::move(x)); }
                        if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); J.attribute("idx", std::move(x)); }
                        if (isa<OverflowingBinaryOperator>(&I)) { J.attribute("nsw", I.hasNoSignedWrap()); J.attribute("nuw", I.hasNoUnsignedWrap()); }
                        if (auto *DJ = dyn_cast<PossiblyDisjointInst>(&I)) J.attribute("disjoint", DJ->isDisjoint());
                        if (auto *L = dyn_cast<LandingPadInst>(&I)) { J.attribute("cleanup", L->isCleanup()); J.attribute("clauses", (int64_t)L->getNumClauses()); }
                    }
                    J.attribute("ops", std::move(ops));
                    if (auto *L = I.getDebugLoc().get()) {
                        J.attribute("loc", json::Array{scopeFile(L), (int64_t)L->getLine(), (int64_t)L->getColumn()});
                        if (L->getInlinedAt()) {
                            json::Array in;
                            for (const DILocation *k = L; k; k = k->getInlinedAt())
                                in.push_back(json::Array{k->getScope()->getSubprogram() ? k->getScope()->getSubprogram()->getLinkageName().str() : "", (int64_t)k->getLine()});
                            J.attribute("inl", std::move(in));
                        }
                    }
                    if (!I.getType()->isVoidTy() && SE.isSCEVable(I.getType()) && LI.begin() != LI.end() &&
                        (LI.getLoopFor(&B) || isa<PHINode>(&I) || isa<GetElementPtrInst>(&I)))
                        J.attribute("scev", scev(SE.getSCEV(&I), SE));
                    J.objectEnd();
                }
                J.arrayEnd(); J.attributeEnd();
                J.objectEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("loops"); J.arrayBegin();
            for (auto *L : LI.getLoopsInPreorder()) {
                json::Array bs, ex;
                for (auto *b : L->blocks()) bs.push_back(Ids[b]);
                SmallVector<BasicBlock *, 8> eb; L->getExitingBlocks(eb);
                for (auto *b : eb) {
                    auto *c = SE.getExitCount(L, b);
                    ex.push_back(json::Array{(int64_t)Ids[b], isa<SCEVCouldNotCompute>(c) ? json::Value(nullptr) : scev(c, SE)});
                }
                auto *bt = SE.getBackedgeTakenCount(L);
                SmallVector<BasicBlock *, 4> la; L->getLoopLatches(la);
                json::Array las; for (auto *b : la) las.push_back(Ids[b]);
                J.value(json::Object{{"header", Ids[L->getHeader()]}, {"blocks", std::move(bs)}, {"latches", std::move(las)},
                    {"parent", L->getParentLoop() ? json::Value(Ids[L->getParentLoop()->getHeader()]) : json::Value(nullptr)},
                    {"exits", std::move(ex)}, {"btc", isa<SCEVCouldNotCompute>(bt) ? json::Value(nullptr) : scev(bt, SE)}});
            }
            J.arrayEnd(); J.attributeEnd();
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        // declared functions and the un-exported defined ones are only names
        J.attributeBegin("globals"); J.objectBegin();
        Ids.clear();
        std::set<const GlobalVariable *> done;
        for (auto &G : M->globals()) {
            // constant data globals and repo globals
            SmallVector<DIGlobalVariableExpression *, 1> dg; G.getDebugInfo(dg);
            std::string f; int64_t line = 0; bool loc = false;
            for (auto *e : dg) { auto *v = e->getVariable(); f = (v->getDirectory() + "/" + v->getFilename()).str(); if (!v->getFilename().empty() && v->getFilename()[0] == '/') f = v->getFilename().str(); line = v->getLine(); loc = isa_and_nonnull<DILocalScope>(v->getScope()); }
            bool want = UsedGlobals.count(&G) || inRoots(f) || G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTI") || G.hasLocalLinkage();
            if (!want) continue;
            J.attributeBegin(G.getName()); J.objectBegin();
            J.attribute("const", G.isConstant()); J.attribute("ty", tyStr(G.getValueType())); J.attribute("dem", dem(G.getName()));
            J.attribute("src", f); J.attribute("line", line); J.attribute("internal", G.hasLocalLinkage()); J.attribute("local", loc); J.attribute("tls", G.isThreadLocal());
            if (G.hasInitializer()) J.attribute("init", constVal(G.getInitializer()));
            J.objectEnd(); J.attributeEnd();
        }
        J.objectEnd(); J.attributeEnd();
        // record layouts from debug info
        DebugInfoFinder DF; DF.processModule(*M);
        J.attributeBegin("records"); J.arrayBegin();
        for (auto *T : DF.types()) {
            auto *C = dyn_cast<DICompositeType>(T);
            if (!C || (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) || C->isForwardDecl()) continue;
            std::string f = C->getFile() ? (C->getFilename().starts_with("/") ? C->getFilename().str() : (C->getDirectory() + "/" + C->getFilename()).str()) : "";
            bool repo = inRoots(f);
            if (!repo) continue;
            J.objectBegin();
            std::string id = C->getIdentifier().str();
            J.attribute("id", id); J.attribute("name", C->getName()); J.attribute("size", (int64_t)(C->getSizeInBits() / 8)); J.attribute("src", f); J.attribute("line", (int64_t)C->getLine());
            J.attribute("union", C->getTag() == dwarf::DW_TAG_union_type);
            json::Array ms, bases;
            for (auto *E : C->getElements())
                if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
                    if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
                        json::Array dims; const DIType *bt = D->getBaseType();
                        while (auto *td = dyn_cast_or_null<DIDerivedType>(bt)) { if (td->getTag() == dwarf::DW_TAG_typedef || td->getTag() == dwarf::DW_TAG_const_type) bt = td->getBaseType(); else break; }
                        if (auto *ct = dyn_cast_or_null<DICompositeType>(bt)) if (ct->getTag() == dwarf::DW_TAG_array_type)
                            for (auto *s : ct->getElements()) if (auto *sr = dyn_cast<DISubrange>(s)) if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) dims.push_back(ci->getSExtValue());
                        ms.push_back(json::Object{{"name", D->getName().str()}, {"off", (int64_t)(D->getOffsetInBits() / 8)}, {"size", (int64_t)(D->getSizeInBits() / 8)}, {"ty", diType(D->getBaseType())}, {"dims", std::move(dims)}});
                    } else if (D->getTag() == dwarf::DW_TAG_inheritance)
                        bases.push_back(json::Object{{"ty", diType(D->getBaseType())}, {"virtual", D->isVirtual()}, {"off", (int64_t)(D->getOffsetInBits() / 8)}});
                }
            J.attribute("members", std::move(ms)); J.attribute("bases", std::move(bases));
            J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
    }
    outs().flush();
    return 0;
}
