"""Which drivers decide which property."""
def J(src, mode, q, san='asan', defs='', **kw):
    return dict(src=src, mode=mode, q=q, san=san, defs=defs, **kw)
def H(c, mode, q, san='asan', **kw):
    return J('hash.cpp', mode, q, san, '-DCFG=%d' % c, **kw)
def H2(c, mode, q, san='asan', **kw):
    return J('hash2.cpp', mode, q, san, '-DCFG=%d' % c, **kw)
def HET(c, mode, q, san='asan', **kw):
    return J('het.cpp', mode, q, san, '-DCFG=%d' % c, **kw)

def MT(src, mode, q, san='asan', lib='', **kw):
    d, x = {'': ('', ''), 'boost': ('-DVF_BOOST', '-lboost_thread'), 'absl': ('-DVF_ABSL', '-labsl_synchronization -labsl_base -labsl_time')}[lib]
    return J(src, mode, q, san, d, extra=x, conc=True, threads=2, **kw)

def BT(c, mode, q, san='asan', **kw):
    return J('btree.cpp', mode, q, san, '-DCFG=%d' % c, **kw)

def V(c, mode, q, san='asan', **kw):
    return J('vec.cpp', mode, q, san, '-DCFG=%d' % c, **kw)

def B(mode, q, san='asan', **kw):
    return J('bitv.cpp', mode, q, san, **kw)

PROPS = {
 'P01': [H(0,'model',900), H(1,'model',900), H(2,'model',900), H(3,'model',900), H(5,'model',900), H(4,'model',600,'nosse'), H(0,'model',600,'nosse'), H(0,'model',600,'ssse3'), H(0,'churn',80,'ssse3'), H(1,'churn',120), H(2,'churn',200,'ndebug'), H(2,'big',24,'ndebug'), J('huge.cpp','hash',120,'ndebug')],
 'P02': [H(0,'stable',900), H(1,'stable',900), H(2,'stable',900), H(5,'stable',700), H(3,'stable',700,'nosse'), H(4,'stable',700,'gasan')],
 'P03': [H2(0,'cost',300), H2(0,'limit',2800), H2(0,'limit',1400,'nosse'), H2(0,'cost',60,'nosse'), H(0,'churn',150), H(2,'churn',150), H(4,'churn',100,'nosse'), H(0,'churn',100,'ssse3'), H2(0,'limit',700,'ssse3'), H(2,'big',24,'ndebug')],
 'P04': [H2(1,'alloc',12000), H(0,'model',500), H(1,'model',500), H(2,'model',400), H(3,'model',500), H(4,'model',500), H(5,'model',500), H(10,'model',200), H(12,'model',200), H2(1,'alloc',4000,'gasan')],
 'P05': [H2(2,'fault',3000), H2(3,'fault',600, split=8), H2(4,'fault',3000), H2(2,'fault',1200,'nosse'), J('dump.cpp','fault',4000)],
 'P06': [HET(0,'het',6000), HET(1,'het',3000), HET(2,'het',3000), HET(0,'ptr',2000), HET(1,'het',600,'gasan')],
 'P07': [J('hashfn.cpp','equal',4800), J('hashfn.cpp','spread',3600), J('hashfn.cpp','equal',1000,'gasan')],
 'P08': [MT('lin.cpp','lin',6000), MT('lin.cpp','lin',8000,'ndebug'), MT('lin.cpp','lin',5000,'tsan'), MT('lin.cpp','lin',3000,'ndebug','boost')],
 'P09': [MT('mt.cpp','race',5000,'tsan'), MT('mt.cpp','race',3000), MT('mt.cpp','race',4000,'ndebug'), MT('mt.cpp','race',4000,'ndebug','boost'), MT('mt.cpp','race',2000,'ndebug','absl'), MT('mt.cpp','cread',4000,'tsan'), MT('lin.cpp','lin',1500,'tsan')],
 'P10': [MT('mt.cpp','cb',2500), MT('mt.cpp','cb',4000,'ndebug'), MT('mt.cpp','cb',2500,'tsan'), MT('mt.cpp','cb',1500,'ndebug','boost')],
 'P11': [H(10,'model',500), H(11,'model',500), H(12,'model',500), HET(1,'het',3000), HET(2,'het',3000), H(10,'value',300), H(11,'churn',60), H(12,'stable',300), J('huge.cpp','par',90,'ndebug')],
 'P12': [J('dump.cpp','dump',9000), J('dump.cpp','dump',4000,'nosse'), J('dump.cpp','dump',4000,'gasan'), J('dump.cpp','fault',4000), J('dump.cpp','cut',4000), J('huge2.cpp','dump',200,'ndebug')],
 'P13': [BT(0,'model',5000), BT(1,'model',5000), BT(2,'model',5000), BT(3,'model',5000), BT(4,'model',5000), BT(0,'model',2000,'gasan'), BT(1,'model',8000,'ndebug'), J('huge.cpp','btree',90,'ndebug')],
 'P14': [BT(0,'balance',900), BT(0,'alloc',9000), BT(0,'model',2500), BT(1,'model',2500), BT(2,'model',2500), BT(3,'model',2500), BT(4,'model',2500), BT(3,'model',1500,'gasan')],
 'P15': [V(0,'model',20000), V(1,'model',16000), V(0,'grow',300), V(0,'model',5000,'gasan'), V(0,'model',20000,'ndebug'), V(0,'grow',300,'ndebug'), J('huge.cpp','vector',300,'ndebug')],
 'P16': [V(0,'fault',12000), V(1,'fault',12000), V(0,'model',8000), V(1,'model',8000), V(1,'fault',3000,'gasan')],
 'P17': [B('model',40000), B('align',12000), B('model',60000,'ndebug'), B('model',8000,'gasan'), J('huge.cpp','bits',300,'ndebug')],
 'P18': [J('lru.cpp','lru',20000), J('lru.cpp','lru',4000,'gasan'), J('lru.cpp','lrufault',8000), MT('lru.cpp','lrumt',6000), MT('lru.cpp','lrumt',6000,'tsan'), MT('lru.cpp','lrumt',8000,'ndebug'), J('huge2.cpp','lru',150,'ndebug')],
 'P19': [J('lru.cpp','memo',12000), J('lru.cpp','memo',3000,'gasan'), J('lru.cpp','memofault',8000), MT('lru.cpp','memomt',6000), MT('lru.cpp','memomt',6000,'tsan'), MT('lru.cpp','memomt',8000,'ndebug'), J('huge2.cpp','memo',150,'ndebug')],
 'P20': [J('intr.cpp','intr',60000), J('intr.cpp','intr',20000,'gasan'), MT('intr.cpp','intrmt',12000), MT('intr.cpp','intrmt',20000,'tsan'), MT('intr.cpp','intrmt',20000,'ndebug')],
 'P21': [J('soa.cpp','soa',16000), J('soa.cpp','soa',6000,'gasan'), J('soa.cpp','soa',30000,'ndebug'), MT('soa.cpp','soamt',3000,'tsan'), MT('soa.cpp','soamt',3000), J('huge2.cpp','soa',80,'ndebug')],
 'P22': [J('util.cpp','scopes',200000), J('util.cpp','values',30000), J('util.cpp','search',200000), J('util.cpp','vec',60000), J('util.cpp','search',100000,'gasan'), J('util.cpp','search',300000,'ndebug'), J('util.cpp','scopes',100000,'ndebug'), J('util.cpp','watch',3000)],
 'P23': [H(0,'value',400), H(1,'value',400), H(2,'value',400), H(3,'value',400), H(4,'value',400), H(5,'value',300), H(10,'value',200), H(11,'value',200), H(12,'value',200), H2(1,'alloc',6000), BT(0,'value',4000), BT(1,'value',4000), BT(2,'value',4000), BT(3,'value',4000), BT(4,'value',3000), BT(0,'alloc',3000), V(0,'value',10000), V(1,'value',10000), B('value',20000), J('value.cpp','fn',20000), J('value.cpp','fn',4000,'gasan')],
 'P24': [J('btree2.cpp','fault',6000), J('btree2.cpp','fault',1500,'gasan')],
 'P25': [J('bits.cpp','bits',6000), J('bits.cpp','bits',3000,'gasan'), J('bits.cpp','bits',20000,'ndebug'), J('bits.cpp','mem',400), J('bits.cpp','mem',400,'ndebug')],
}
LEVELS = {'P24': 'fault_enumeration', 'P05': 'fault_enumeration', 'P16': 'fault_enumeration'}
RULES = {'*': 'Every case is generated from (seed, case number); two cases are distinct if their operation sequences (operation, container, arguments) differ, and non-trivial if they executed at least one operation.'}
ASSUME = {'*': ['x86-64 Linux, libstdc++, gcc 13 and clang 18', 'the workloads sample the input space; nothing is enumerated completely']}

NOTE = 'Every execution explored is judged by an exact oracle; what is not sampled is not covered. Trusts the model, the sanitizers and the instrumented types.'
TECH = {
 'P01': ('model-based runtime monitoring of random operation histories under ASan+UBSan', NOTE),
 'P02': ('monitor of element addresses and iterators over random operation histories under ASan+UBSan', NOTE),
 'P03': ('online monitors of capacity, load, hash and equality calls with a hang watchdog over churn workloads', NOTE),
 'P04': ('self-checking elements and recording allocator under ASan+UBSan+LSan over random histories', NOTE),
 'P05': ('fault injection at every throwing point of random operations, contents and leaks checked after each fault, under ASan+UBSan', NOTE),
 'P06': ('model-based runtime monitoring of every heterogeneous and with-hash overload under ASan+UBSan', NOTE),
 'P07': ('monitors of hash values and table/submap balance over generated key families under ASan+UBSan', NOTE),
 'P08': ('offline linearizability checker (Wing-Gong) over recorded concurrent histories, with injected delays, under ASan, TSan and in release builds', NOTE),
 'P09': ('ThreadSanitizer and a progress watchdog over perturbed concurrent mixes of all locked operations', NOTE),
 'P10': ('online monitors inside callbacks and mutexes, conservation checks over perturbed concurrent runs, under ASan and TSan', NOTE),
 'P11': ('model-based runtime monitoring of random operation histories under ASan+UBSan, with a submap-partition monitor', NOTE),
 'P12': ('model-based runtime monitoring of dumps and loads in random states, with bounds-checking archives, under ASan+UBSan', NOTE),
 'P13': ('model-based runtime monitoring of random operation histories under ASan+UBSan', NOTE),
 'P14': ('self-checking elements, recording allocator, comparison and byte counters under ASan+UBSan+LSan over random and adversarial histories', NOTE),
 'P15': ('model-based runtime monitoring of random operation histories under ASan+UBSan', NOTE),
 'P16': ('fault injection at every throwing point of random operations, with self-checking elements and recording allocator, under ASan+UBSan+LSan', NOTE),
 'P17': ('model-based runtime monitoring of random operation histories and alignment sweeps under ASan+UBSan', NOTE),
 'P18': ('model-based runtime monitoring of access histories with injected faults, and offline judging of recorded concurrent histories, under ASan, UBSan and TSan', NOTE),
 'P19': ('monitors of every call of the memoized function and every returned value, single threaded and in perturbed concurrent runs, under ASan, UBSan and TSan', NOTE),
 'P20': ('model-based runtime monitoring of owner histories and of concurrent copies and drops, under ASan, UBSan and TSan', NOTE),
 'P21': ('model-based runtime monitoring of random operation histories with injected faults, under ASan+UBSan and TSan', NOTE),
 'P22': ('monitors of every call and value in random nested scopes and searches, under ASan+UBSan', NOTE),
 'P23': ('model-based runtime monitoring of copies, moves, swaps and comparisons in random states, with self-checking elements and recording allocators, under ASan+UBSan', NOTE),
 'P25': ('monitors comparing every result with bit-by-bit and byte-by-byte definitions over generated values, under ASan+UBSan', NOTE),
 'P24': ('fault injection at the throwing points (copies, comparisons, allocations) of random operations, contents, structure and leaks checked after each fault, under ASan+UBSan', NOTE),
}
