#!/usr/bin/env python3
"""run.py <property id>: runs one check against /repo's current tree (see DESIGN.md)."""
import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'engine'))
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'checks'))
sys.dont_write_bytecode=False
import check,importlib
TAB={'C01':'c_field','C02':'c_field','C03':'c_field','C04':'c_field','C05':'c_codec','C06':'c_codec','C25':'c_flow','C23':'c_rng','C18':'c_hash','C19':'c_hash','C15':'c_scalar','C24':'c_wipe','C08':'c_ladder','C09':'c_ladder','C07':'c_inv','C10':'c_edw','C11':'c_edw','C12':'c_fixed','C13':'c_fixed','C14':'c_dsm','C16':'c_eddsa','C17':'c_eddsa','C21':'c_flow','C22':'c_flow','C20':'c_h2c'}
# what a property rests on. REST: contracts its own check takes as given, discharged in the same run.
# DIAG: contracts its own check re-proves at the digit ranges it meets; consulted only when such a proof fails, to find the operands on which the code goes wrong.
REST={'C08':['C12'],'C09':['C13','C15/448'],'C13':['C15/448'],'C14':['C15/448'],'C16':['C12','C10','C15/25519','C18','C14/25519'],'C17':['C13','C11','C15/448','C19','C14/448'],'C20':['C15/25519','C18']}
F25=['C01','C02','C05','C07/25519']; F448=['C03','C04','C06','C07/448']
DIAG={'C07':['C01','C02','C03','C04'],'C08':F25+['C10'],'C09':F448+['C11'],'C10':F25,'C11':F448,'C12':F25+['C10'],'C13':F448+['C11'],'C14':F25+F448+['C10','C11'],'C16':F25,'C17':F448,'C20':F25+['C10']}
def runner(dep):
    pid,_,part=dep.partition('/'); f=getattr(importlib.import_module(TAB[pid]),'run_'+pid)
    return pid,((lambda c:f(c,(part,))) if part else f)
def after(c):
    if os.environ.get('VF_OWN'): return   # for development: this property's own obligations only
    for ds,why in ((REST,'it rests on'),(DIAG,'it uses code that fails')):
        for d in ds.get(c.pid,[]):
            if c.viol or c.left()<60: return
            if ds is DIAG and not c.undecided: return
            pid,f=runner(d); c.sub(pid,f,why,ds is REST)
if __name__=='__main__':
    pid=sys.argv[1]
    m=importlib.import_module(TAB[pid])
    check.main(pid,getattr(m,'run_'+pid),after)
