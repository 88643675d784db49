"""Contracts on callees that are used instead of their bodies."""
import re
from .engine import *
from .interp import *
def on_assert(s,st,a,ty):
    # FUAssert/FUFail reached: the library's own programmer-error assertion must never fire under the contract's precondition
    s.oblig(st,FALSE,'library assertion (FUAssert/FUFail) is not reached','assert')
    raise PathEnd()
def install(v,o):
    # contract=Name or contract=Ns::Name(params), several separated by '|' : the harness function fcv_contract_Ns_Name stands for the body
    v.stubs={}
    for x in re.split(r'[|,](?![^(]*\))',str(o.get('contract',''))):
        x=x.strip()
        if x: v.stubs[x]='fcv_contract_'+re.sub(r'\W+','_',x.split('(')[0])
    v.contracts[r'^FUAssertion::OnAssertionFailed']=on_assert
