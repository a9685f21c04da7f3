"""Breaking edits written in the style of refactor_fresh2.py."""
import sys; import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_fresh2 import *
R={n:e for n,_,e in EDITS}
def vary(name, old, new):
    hit=sum(n.count(old) for f,o,n in R[name]); assert hit,(name,old)
    return [(f,o,n.replace(old,new)) for f,o,n in R[name]]
EDITS=[
 ('table short',  'C21', vary('table collect','0..=problem','0..problem')),
 ('counter short','C21', vary('counter local','barriers.len()','barriers.len() - 1')),
 ('tail assign first','C31', vary('tail assign','curr_l[last] = merged_id','curr_l[0] = merged_id')),
 ('tail assign wide','C31 C11', vary('tail assign','curr_l.truncate(input.max_width);','curr_l.truncate(input.max_width + 1);')),
 ('tail assign other','C31', vary('tail assign','curr_l[last] = merged_id','curr_l[last] = curr_l[0]')),
 ('tail assign deleted','C31', vary('tail assign','curr_l[last].0].flags.set_deleted(false)','curr_l[0].0].flags.set_deleted(false)')),
 ('tail match first','C31', vary('tail match','curr_l.last()','curr_l.first()')),
 ('recycled off by one','C31', vary('recycled position','keep[at]','keep[at.saturating_sub(1)]')),
 ('recycled group','C31', vary('recycled position','.map(|at| keep[at])','.map(|at| merge[at])')),
 ('recycled skip','C31', vary('recycled position','keep.iter().position','keep.iter().skip(1).position')),
 ('update ge','C18', vary('update match','(theta, explored) > (t, e)','(theta, explored) >= (t, e)')),
 ('update lt','C18', vary('update match','(theta, explored) > (t, e)','(theta, explored) < (t, e)')),
 ('update explored first','C18', vary('update match','(theta, explored) > (t, e)','(explored, theta) > (e, t)')),
 ('update not explored','C18', vary('update match','(theta, explored) > (t, e)','(theta, !explored) > (t, e)')),
 ('value and lb','C01', vary('value and','.and(Some(*best_lb))','.map(|s| s.len() as isize).and(Some(*best_lb + 0)).or(Some(*best_lb))')),
 ('redirect no value','C31', vary('redirect','target.value = value;','')),
 ('redirect max','C31', vary('redirect','value >= target.value','value <= target.value')),
]
