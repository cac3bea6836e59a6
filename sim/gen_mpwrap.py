#!/usr/bin/env python3
"""Writes mpwrap.cpp and mpwrap.list: wrappers that report to the simulator which MPFR and GMP operands a call reads and writes
(the two libraries are not instrumented themselves). Run once; the output is committed."""
import re, subprocess
t=subprocess.run(['g++','-E','-P','-x','c++','-'],input='#include <gmp.h>\n#include <mpfr.h>\n',capture_output=True,text=True).stdout
OBJ={'mpfr_ptr':('mpfr',1),'mpfr_srcptr':('mpfr',0),'mpz_ptr':('mpz',1),'mpz_srcptr':('mpz',0),'mpq_ptr':('mpq',1),'mpq_srcptr':('mpq',0),'mpf_ptr':('mpf',1),'mpf_srcptr':('mpf',0)}
SCAL={'int','long','long int','unsigned long','unsigned long int','mpfr_rnd_t','mpfr_prec_t','mpfr_exp_t','double','float','const char *','char *','mpfr_exp_t *','size_t','signed long int','unsigned int','long double','intmax_t','uintmax_t','mp_bitcnt_t','mpfr_uexp_t','mp_exp_t *'}
RET={'int','void','double','float','long','long int','unsigned long','unsigned long int','size_t','char *','mpfr_exp_t','mpfr_prec_t','mp_bitcnt_t'}
out=[]; names=[]
for m in re.finditer(r'(?:extern\s+)?([A-Za-z_][A-Za-z_ ]*?[ \*]+)((?:__gmp[zqf]_|mpfr_)\w+) \(([^(){};]*)\)(?:[^;{}]*);',t):
    ret=m.group(1).replace('extern','').strip(); name=m.group(2); ps=[re.sub(r'\s+',' ',p).strip() for p in m.group(3).split(',')]
    ret=re.sub(r'\s+',' ',ret)
    if ret not in RET or name in names: continue
    if re.search(r'^mpfr_(init|clear|inits|custom|free|set_default|get_default|set_prec$|prec_round|sum|dot|dump|inp|out|fpif|random|urandom|nrandom|grandom|erandom|buildopt|get_patches|get_version|mp_mem)|^__gmp[zqf]_(init|set_prec|get_default|set_default|clear|realloc|array|inp|out|random|urandom|rrandom|limbs|roinit|export|import|getlimbn)',name): continue
    if re.search(r'^mpfr_(set_)?(nan|inf|zero)$',name): pass
    ok=[]; args=[]
    good=True; objs=0
    for i,p in enumerate(ps):
        p=re.sub(r'\b(const )(mp\w+_ptr)\b',r'\2',p)
        base=p
        if base in OBJ: objs+=1; args.append((base,i))
        elif base in SCAL: args.append((base,i))
        else:
            b=re.sub(r'\s*\b\w+$','',base)
            if b in OBJ: objs+=1; args.append((b,i))
            elif b in SCAL: args.append((b,i))
            else: good=False
    if not good or not objs: continue
    al=','.join(f'{a} a{i}' for a,i in args); cl=','.join(f'a{i}' for a,i in args)
    pre=''.join(f'r{OBJ[a][0]}(a{i},__LINE__);' for a,i in args if a in OBJ and not OBJ[a][1]); post=''.join(f'w{OBJ[a][0]}(a{i});' for a,i in args if a in OBJ and OBJ[a][1])
    out.append((name,ret,al,cl,pre.replace(',__LINE__',''),post)); names.append(name)
with open('mpwrap.cpp','w') as f:
    f.write('''// Written by gen_mpwrap.py. Which operands an MPFR or GMP call reads and writes, told to the simulator.
#include <gmp.h>
#include <mpfr.h>
#include "simrt.h"
#define PC() ((unsigned)(unsigned long)__builtin_return_address(0))
#define rmpfr(x) sim_mp_access(x,sizeof *x,0,PC()); sim_mp_access((x)->_mpfr_d,(((x)->_mpfr_prec+63)/64)*8,0,PC())
#define wmpfr(x) sim_mp_access(&(x)->_mpfr_sign,16,1,PC()); sim_mp_access((x)->_mpfr_d,(((x)->_mpfr_prec+63)/64)*8,1,PC())
#define LIMBS(x) ((x)->_mp_size<0?-(x)->_mp_size:(x)->_mp_size)
#define rmpz(x) sim_mp_access(x,sizeof *x,0,PC()); sim_mp_access((x)->_mp_d,LIMBS(x)*8,0,PC())
#define wmpz(x) sim_mp_access(x,sizeof *x,1,PC()); sim_mp_access((x)->_mp_d,LIMBS(x)*8,1,PC())
#define rmpf(x) rmpz(x)
#define wmpf(x) wmpz(x)
#define rmpq(x) rmpz(&(x)->_mp_num); rmpz(&(x)->_mp_den)
#define wmpq(x) wmpz(&(x)->_mp_num); wmpz(&(x)->_mp_den)
extern "C" {
''')
    for name,ret,al,cl,pre,post in sorted(out):
        body=f'{pre} {"" if ret=="void" else ret+" r="}__real_{name}({cl}); {post}'+('' if ret=='void' else ' return r;')
        f.write(f'{ret} __real_{name}({al}); {ret} __wrap_{name}({al}) {{ {body} }}\n')
    f.write('}\n')
open('mpwrap.list','w').write('\n'.join(sorted(names))+'\n'); print(len(names))
