"""Loads LLVM bitcode/IR through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C, ctypes.util, os, re, subprocess

_L = None
for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
          "/usr/lib/llvm-18/lib/libLLVM-18.so"):
    if os.path.exists(p):
        _L = C.CDLL(p); break
if _L is None:
    raise ImportError("libLLVM 18 not found")

vp = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, "LLVM" + name); f.restype = res; f.argtypes = list(args); return f
u = C.c_uint; i32 = C.c_int; u64 = C.c_ulonglong; cs = C.c_char_p; szp = C.POINTER(C.c_size_t)
ContextCreate=_f("ContextCreate",vp)
CreateMemoryBufferWithContentsOfFile=_f("CreateMemoryBufferWithContentsOfFile",i32,cs,C.POINTER(vp),C.POINTER(cs))
ParseIRInContext=_f("ParseIRInContext",i32,vp,vp,C.POINTER(vp),C.POINTER(cs))
GetModuleDataLayout=_f("GetModuleDataLayout",vp,vp)
ABISizeOfType=_f("ABISizeOfType",u64,vp,vp)
OffsetOfElement=_f("OffsetOfElement",u64,vp,vp,u)
TypeOf=_f("TypeOf",vp,vp); GetTypeKind=_f("GetTypeKind",i32,vp)
GetIntTypeWidth=_f("GetIntTypeWidth",u,vp)
CountStructElementTypes=_f("CountStructElementTypes",u,vp)
StructGetTypeAtIndex=_f("StructGetTypeAtIndex",vp,vp,u)
GetStructName=_f("GetStructName",cs,vp)
GetArrayLength2=_f("GetArrayLength2",u64,vp); GetElementType=_f("GetElementType",vp,vp)
GetVectorSize=_f("GetVectorSize",u,vp)
GetReturnType=_f("GetReturnType",vp,vp)
GetFirstFunction=_f("GetFirstFunction",vp,vp); GetNextFunction=_f("GetNextFunction",vp,vp)
GetFirstGlobal=_f("GetFirstGlobal",vp,vp); GetNextGlobal=_f("GetNextGlobal",vp,vp)
GetInitializer=_f("GetInitializer",vp,vp); IsGlobalConstant=_f("IsGlobalConstant",i32,vp)
GlobalGetValueType=_f("GlobalGetValueType",vp,vp)
GetValueName2=_f("GetValueName2",cs,vp,szp)
IsDeclaration=_f("IsDeclaration",i32,vp)
CountParams=_f("CountParams",u,vp); GetParam=_f("GetParam",vp,vp,u)
GetFirstBasicBlock=_f("GetFirstBasicBlock",vp,vp); GetNextBasicBlock=_f("GetNextBasicBlock",vp,vp)
BasicBlockAsValue=_f("BasicBlockAsValue",vp,vp); ValueAsBasicBlock=_f("ValueAsBasicBlock",vp,vp)
GetFirstInstruction=_f("GetFirstInstruction",vp,vp); GetNextInstruction=_f("GetNextInstruction",vp,vp)
GetInstructionOpcode=_f("GetInstructionOpcode",i32,vp)
GetNumOperands=_f("GetNumOperands",i32,vp); GetOperand=_f("GetOperand",vp,vp,u)
GetICmpPredicate=_f("GetICmpPredicate",i32,vp); GetFCmpPredicate=_f("GetFCmpPredicate",i32,vp)
CountIncoming=_f("CountIncoming",u,vp); GetIncomingValue=_f("GetIncomingValue",vp,vp,u)
GetIncomingBlock=_f("GetIncomingBlock",vp,vp,u)
GetNumSuccessors=_f("GetNumSuccessors",u,vp); GetSuccessor=_f("GetSuccessor",vp,vp,u)
GetAllocatedType=_f("GetAllocatedType",vp,vp)
GetGEPSourceElementType=_f("GetGEPSourceElementType",vp,vp)
GetNumIndices=_f("GetNumIndices",u,vp); GetIndices=_f("GetIndices",C.POINTER(u),vp)
GetCalledValue=_f("GetCalledValue",vp,vp); GetCalledFunctionType=_f("GetCalledFunctionType",vp,vp)
GetNumArgOperands=_f("GetNumArgOperands",u,vp)
GetNormalDest=_f("GetNormalDest",vp,vp); GetUnwindDest=_f("GetUnwindDest",vp,vp)
GetNSW=_f("GetNSW",i32,vp); GetNUW=_f("GetNUW",i32,vp); GetExact=_f("GetExact",i32,vp); IsInBounds=_f("IsInBounds",i32,vp)
GetValueKind=_f("GetValueKind",i32,vp)
ConstIntGetZExtValue=_f("ConstIntGetZExtValue",u64,vp)
ConstRealGetDouble=_f("ConstRealGetDouble",C.c_double,vp,C.POINTER(i32))
GetConstOpcode=_f("GetConstOpcode",i32,vp)
GetAggregateElement=_f("GetAggregateElement",vp,vp,u)
IsConstantString=_f("IsConstantString",i32,vp); GetAsString=_f("GetAsString",vp,vp,szp)
PrintValueToString=_f("PrintValueToString",vp,vp); DisposeMessage=_f("DisposeMessage",None,vp)
PrintTypeToString=_f("PrintTypeToString",vp,vp)
GetDebugLocLine=_f("GetDebugLocLine",u,vp); GetDebugLocFilename=_f("GetDebugLocFilename",vp,vp,C.POINTER(u))
GetAliasAliasee=None
try:
    AliasGetAliasee=_f("AliasGetAliasee",vp,vp)
    GetFirstGlobalAlias=_f("GetFirstGlobalAlias",vp,vp); GetNextGlobalAlias=_f("GetNextGlobalAlias",vp,vp)
except AttributeError:
    pass
GetCondition=_f("GetCondition",vp,vp)

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",66:"fneg",
 8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",
 20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"getelementptr",
 30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",
 39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",
 47:"userop1",48:"userop2",49:"vaarg",50:"extractelement",51:"insertelement",52:"shufflevector",
 53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",
 58:"resume",59:"landingpad",61:"cleanupret",62:"catchret",63:"catchpad",64:"cleanuppad",65:"catchswitch",67:"callbr"}
ICMP={32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FCMP={0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}
VK={0:"arg",1:"block",5:"func",6:"alias",8:"gvar",9:"blockaddr",10:"cexpr",11:"carray",12:"cstruct",13:"cvector",
 14:"undef",15:"zero",16:"cdataarray",17:"cdatavector",18:"cint",19:"cfp",20:"null",24:"inst",25:"poison"}

class Type:
    __slots__=("kind","w","size","elems","offs","n","name")
    def __repr__(self): return self.name
class Val:
    """constant / argument / global reference"""
    __slots__=("kind","ty","v","ops","name")
    def __repr__(self): return f"<{self.kind} {self.name or self.v}>"
class Inst:
    __slots__=("op","ty","ops","name","pred","nsw","nuw","exact","inb","inc","succ","sty","idx","callee","block","id","normal","unwind","line","sel","text","ptr")
    kind="inst"
    def __repr__(self): return f"<{self.op} {self.name}>"
class Block:
    __slots__=("name","insts","fn","idx","preds")
    def __repr__(self): return f"<bb {self.idx} {self.name}>"
class Function:
    __slots__=("name","dem","params","blocks","decl","rty","mod","loops","ptr")
    def __repr__(self): return f"<fn {self.dem}>"

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf=vp(); msg=cs()
        if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("read "+path)
        m=vp()
        if ParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError("parse: %s" % msg.value)
        self.m=m; self.dl=GetModuleDataLayout(m)
        self._ty={}; self._val={}; self._blk={}
        self.functions={}; self.globals={}
        f=GetFirstFunction(m)
        while f:
            fn=Function(); fn.name=self._name(f); fn.ptr=f; fn.mod=self
            fn.decl=bool(IsDeclaration(f)); fn.blocks=None; fn.loops=None; fn.params=None
            fn.rty=self.type(GetReturnType(GlobalGetValueType(f)))
            fn.dem=fn.name
            self.functions[fn.name]=fn
            f=GetNextFunction(f)
        names=list(self.functions)
        if names:
            out=subprocess.run(["/usr/bin/llvm-cxxfilt-18"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
            for n,d in zip(names,out): self.functions[n].dem=d
        self.aliases={}
        try:
            a=GetFirstGlobalAlias(m)
            while a:
                self.aliases[self._name(a)]=self._name(AliasGetAliasee(a)); a=GetNextGlobalAlias(a)
        except NameError: pass
        g=GetFirstGlobal(m)
        while g:
            self.globals[self._name(g)]=g; g=GetNextGlobal(g)
        self._slot=0
    def gfind(self,rx):
        '''names of the globals whose demangled name matches'''
        import re
        if not hasattr(self,"_gd"):
            names=list(self.globals); out=subprocess.run(["/usr/bin/llvm-cxxfilt-18"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
            self._gd=dict(zip(names,out))
        return [n for n,d in self._gd.items() if re.fullmatch(rx,d)]
    def _name(self,v):
        n=C.c_size_t(); s=GetValueName2(v,C.byref(n)); return s.decode() if s else ""
    def type(self,t):
        r=self._ty.get(t)
        if r: return r
        r=Type(); self._ty[t]=r
        k=GetTypeKind(t); r.w=0; r.elems=None; r.offs=None; r.n=0
        s=PrintTypeToString(t); r.name=C.cast(s,cs).value.decode(); DisposeMessage(s)
        r.kind={0:"void",2:"float",3:"double",4:"x86_fp80",7:"label",8:"int",9:"function",10:"struct",11:"array",12:"ptr",13:"vector",14:"metadata",16:"token"}.get(k,"other%d"%k)
        r.size=0
        if r.kind=="int": r.w=GetIntTypeWidth(t)
        if r.kind=="struct":
            r.n=CountStructElementTypes(t)
            r.elems=[self.type(StructGetTypeAtIndex(t,i)) for i in range(r.n)]
        if r.kind in("array",):
            r.n=GetArrayLength2(t); r.elems=[self.type(GetElementType(t))]
        if r.kind=="vector":
            r.n=GetVectorSize(t); r.elems=[self.type(GetElementType(t))]
        try:
            if r.kind in("int","float","double","x86_fp80","struct","array","ptr","vector") and "opaque" not in r.name:
                r.size=ABISizeOfType(self.dl,t)
                if r.kind=="struct": r.offs=[OffsetOfElement(self.dl,t,i) for i in range(r.n)]
        except Exception: pass
        return r
    def val(self,p):
        r=self._val.get(p)
        if r is not None: return r
        k=VK.get(GetValueKind(p),"?%d"%GetValueKind(p))
        if k=="inst": raise RuntimeError("forward inst")
        r=Val(); self._val[p]=r; r.kind=k; r.v=None; r.ops=None; r.name=""
        r.ty=self.type(TypeOf(p))
        if k=="cint": r.v=ConstIntGetZExtValue(p) if r.ty.w<=64 else None
        elif k=="cfp":
            li=i32(); r.v=ConstRealGetDouble(p,C.byref(li))
        elif k in("func","gvar","alias"): r.name=self._name(p)
        elif k=="cexpr":
            op=OPC.get(GetConstOpcode(p),"?"); n=GetNumOperands(p)
            r.v=op; r.ops=[self.val(GetOperand(p,i)) for i in range(n)]
            if op=="getelementptr": r.name=self.type(GetGEPSourceElementType(p))
        elif k in("carray","cstruct","cvector","cdataarray","cdatavector"):
            n=r.ty.n; r.ops=[self.val(GetAggregateElement(p,i)) for i in range(n)]
        return r
    def global_init(self,name):
        g=self.globals[name]; i=GetInitializer(g)
        return (self.type(GlobalGetValueType(g)), self.val(i) if i else None, bool(IsGlobalConstant(g)))
    def body(self,fn):
        if fn.blocks is not None or fn.decl: return fn
        n=CountParams(fn.ptr); fn.params=[]
        for i in range(n):
            p=GetParam(fn.ptr,i); v=self.val(p); v.name="arg%d"%i; fn.params.append(v)
        fn.blocks=[]; bmap={}
        b=GetFirstBasicBlock(fn.ptr)
        while b:
            B=Block(); B.idx=len(fn.blocks); B.fn=fn; B.insts=[]; B.preds=[]
            B.name="bb%d"%B.idx; bmap[BasicBlockAsValue(b)]=B; fn.blocks.append(B)
            x=GetFirstInstruction(b)
            while x:
                I=Inst(); I.ptr=x; I.block=B; I.id=self._slot; self._slot+=1
                I.op=OPC.get(GetInstructionOpcode(x),"?%d"%GetInstructionOpcode(x))
                I.ty=self.type(TypeOf(x)); I.name="%%%d"%I.id
                self._val[x]=I; B.insts.append(I)
                x=GetNextInstruction(x)
            b=GetNextBasicBlock(b)
        for B in fn.blocks:
            for I in B.insts:
                x=I.ptr; op=I.op
                I.pred=None;I.nsw=I.nuw=I.exact=I.inb=False;I.inc=None;I.succ=None;I.sty=None;I.idx=None;I.callee=None;I.normal=I.unwind=None
                I.line=0; I.sel=False
                def opv(p):
                    if GetValueKind(p)==1: return bmap[p]
                    return self.val(p) if p not in self._val else self._val[p]
                n=GetNumOperands(x)
                if op in("call","invoke"):
                    na=GetNumArgOperands(x)
                    I.ops=[]
                    for i in range(na):
                        o=GetOperand(x,i)
                        I.ops.append(None if GetTypeKind(TypeOf(o))==14 else opv(o))
                    I.callee=opv(GetCalledValue(x))
                    if op=="invoke":
                        I.normal=bmap[BasicBlockAsValue(GetNormalDest(x))]; I.unwind=bmap[BasicBlockAsValue(GetUnwindDest(x))]
                        I.succ=[I.normal,I.unwind]
                elif op in("br","switch"):
                    I.ops=[opv(GetOperand(x,i)) for i in range(n)]
                    I.succ=[bmap[BasicBlockAsValue(GetSuccessor(x,i))] for i in range(GetNumSuccessors(x))]
                elif op=="landingpad": I.ops=[]
                elif op=="phi":
                    I.ops=[]
                    I.inc=[(bmap[BasicBlockAsValue(GetIncomingBlock(x,i))],opv(GetIncomingValue(x,i))) for i in range(CountIncoming(x))]
                else:
                    I.ops=[opv(GetOperand(x,i)) for i in range(n)]
                if op=="icmp": I.pred=ICMP[GetICmpPredicate(x)]
                elif op=="fcmp": I.pred=FCMP[GetFCmpPredicate(x)]
                elif op in("add","sub","mul","shl"): I.nsw=bool(GetNSW(x)); I.nuw=bool(GetNUW(x))
                elif op in("sdiv","udiv","lshr","ashr"): I.exact=bool(GetExact(x))
                elif op=="getelementptr":
                    I.sty=self.type(GetGEPSourceElementType(x)); I.inb=bool(IsInBounds(x))
                elif op=="alloca": I.sty=self.type(GetAllocatedType(x))
                elif op in("extractvalue","insertvalue"):
                    k=GetNumIndices(x); ii=GetIndices(x); I.idx=[ii[j] for j in range(k)]
                ln=GetDebugLocLine(x)
                if ln:
                    L=u(); fnm=GetDebugLocFilename(x,C.byref(L))
                    s=C.string_at(fnm,L.value).decode() if fnm else ""
                    I.line=(s,ln)
        users={}
        for B in fn.blocks:
            for I in B.insts:
                for v in list(I.ops or [])+[x for _,x in (I.inc or [])]:
                    if isinstance(v,Inst): users.setdefault(v.id,[]).append(I.op if v is not (I.ops or [None])[0] else I.op+"0")
        for B in fn.blocks:
            for I in B.insts: I.sel=bool(users.get(I.id)) and all(x=="select" for x in users[I.id])
            t=B.insts[-1]
            for s in (t.succ or []):
                if B not in s.preds: s.preds.append(B)
        return fn
def inst_text(I):
    s=PrintValueToString(I.ptr); t=C.cast(s,cs).value.decode(); DisposeMessage(s); return t.strip()
