NUM=['cat_numeric.cpp','cat_algebra.cpp','scn_modes.cpp']; NUMM=['utility','numeric','algebra']
ALL=['cat_numeric.cpp','cat_algebra.cpp','cat_symbolic.cpp','cat_taylor.cpp','cat_function.cpp','cat_cheb.cpp','cat_proc.cpp','cat_geometry.cpp','scn_modes.cpp']; ALLM=['utility','numeric','algebra','function','symbolic','geometry','solvers','io']
GEO=['cat_numeric.cpp','cat_geometry.cpp','scn_modes.cpp','cat_mutgeo.cpp','scn_hist.cpp']; MUT=['cat_numeric.cpp','cat_mut.cpp','cat_mut2.cpp','scn_hist.cpp']
RC=['rounding-changed','alloc-rounding']; RD=['rounding-dependent']; HM=['history-mismatch']; LK=['leak']
def mem(*cls): return None
# classes: the violation classes that belong to the property, by default all of them. Memory errors and crashes always count.
PROPS={
 'C01':dict(bin='vfe',scn=['scn_vfe.cpp'],scenarios=[('vfe',160,4000)]),
 'C06':dict(bin='num',scn=NUM,modules=NUMM,scenarios=[('share_num',24000,400000)],ignore=RC+RD+HM+LK),
 'C07':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('share_fun',5000,60000)],ignore=RC+RD+HM+LK),
 'C08':dict(bin='geo',scn=GEO,modules=ALLM,scenarios=[('share_geo',2500,40000)],ignore=RC+RD+HM+LK),
 'A01':dict(bin='num',scn=NUM,modules=NUMM,scenarios=[('alloc_num',24000,400000),('ctor_num',6000,60000)],ignore=RC+RD),
 'A02':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('alloc_fun',5000,60000),('ctor_fun',1200,4000)],ignore=RC+RD),
 'A03':dict(bin='mut',scn=MUT,modules=ALLM,scenarios=[('hist_num',30000,400000),('hist_fun',8000,100000)],ignore=RC+RD),
 'A04':dict(bin='geo',scn=GEO,modules=ALLM,scenarios=[('alloc_geo',4000,60000),('ctor_geo',1000,10000),('hist_geo',1500,40000)],ignore=RC+RD),
 'R01':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('round_any',9000,100000),('alloc_any',3500,60000)],only_cls=RC),
 'R02':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('round_any',12000,150000)],only_cls=RD),
 'H01':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('env_any',7500,100000)],only_cls=HM+['alloc-retry','alloc-operand-changed']),
 'H02':dict(bin='all',scn=ALL,modules=ALLM,scenarios=[('env_any',6500,80000),('alloc_any',3000,60000)],ignore=RC+RD+HM),
 'H03':dict(bin='geo',scn=GEO,modules=ALLM,scenarios=[('hist_pav',5000,100000)],only_cls=['hist-invariant','hist-mismatch','hist-error']),
}
