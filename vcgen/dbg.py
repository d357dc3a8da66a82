import sys; sys.path.insert(0,__file__.rsplit('/',1)[0])
import check, os, z3, llvmc, symex, solve, nlabs, shutil
prop, name = sys.argv[1], sys.argv[2]
unit = sys.argv[3] if len(sys.argv)>3 else prop
w='/tmp/vcdbg'; os.makedirs(w,exist_ok=True)
check.instantiate(w)
bc,err=check.build_bc(w,check.HERE+'/../contracts/%s.cpp'%unit)
if not bc: print(err); sys.exit(1)
mod=llvmc.Module(bc)
ex=symex.Executor(mod)
st,_=ex.call_function(mod.funcs['vc_contract_'+name],[],symex.State())
S=solve.Solver(ex,log=print)
print(len(ex.obls),'obls',len(ex.groups),'loops')
