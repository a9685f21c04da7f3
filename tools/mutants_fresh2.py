"""Breaking edits written in the style of refactor_fresh.py."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_fresh import *
R = {n: e for n, _, e in EDITS}
MAXK = '.max_by_key(|id| self.nodes[id.0].value);'
OCC = 'if value > node.value || (value == node.value && flags.is_exact()) {'


def vary(name, old, new):
    out = []
    hit = 0
    for f, o, n in R[name]:
        hit += n.count(old)
        out.append((f, o, n.replace(old, new)))
    assert hit, (name, old)
    return out


EDITS = [
    ('max_by reversed', 'C14', [(M, MAXK, '.max_by(|a, b| self.nodes[b.0].value.cmp(&self.nodes[a.0].value));')]),
    ('min_by', 'C14', [(M, MAXK, '.min_by(|a, b| self.nodes[a.0].value.cmp(&self.nodes[b.0].value));')]),
    ('reduce keeps less', 'C14', vary('max_by reduce', '{ b } else { a }', '{ a } else { b }')),
    ('reduce same', 'C14', vary('max_by reduce', 'self.nodes[b.0].value > self.nodes[a.0].value', 'self.nodes[b.0].value > 0')),
    ('fold first', 'C14', vary('max_by fold', 'if self.nodes[b.0].value > self.nodes[id.0].value', 'if self.nodes[b.0].value != self.nodes[id.0].value')),
    ('fold rub', 'C14', vary('max_by fold', 'self.nodes[b.0].value > self.nodes[id.0].value', 'self.nodes[b.0].rub > self.nodes[id.0].rub')),
    ('fold skip', 'C14', [(A, '.copied()\n            .max_by_key(|id| self.nodes[id.0].value);', '.copied()\n            .skip(1)\n            .max_by(|a, b| self.nodes[a.0].value.cmp(&self.nodes[b.0].value));')]),
    ('max_by depth first', 'C14', [(M, MAXK, '.max_by(|a, b| (self.nodes[a.0].flags.is_exact(), self.nodes[a.0].value).cmp(&(self.nodes[b.0].flags.is_exact(), self.nodes[b.0].value)));')]),
    ('occ tuple swapped', 'C12', [(M, OCC, 'if (flags.is_exact(), value) > (false, node.value) {')]),
    ('occ tuple lt', 'C12', [(M, OCC, 'if (value, flags.is_exact()) < (node.value, false) {')]),
    ('occ tuple ge', 'C12 C10', [(M, OCC, 'if (value, flags.is_exact()) >= (node.value, false) && false {')]),
    ('ongoing min', 'C07', vary('ongoing fold', 'isize::max', 'isize::min')),
    ('ongoing reduce first', 'C07', vary('ongoing fold', '.reduce(isize::max)', '.reduce(|a, _| a)')),
    ('ongoing none', 'C07', vary('ongoing fold', 'None => isize::MAX', 'None => isize::MIN')),
    ('ongoing only positive', 'C07', vary('ongoing fold', '*x != isize::MAX', '*x != isize::MAX && *x > 0')),
    ('ongoing loop below', 'C07', vary('ongoing loop', 'ub > ongoing_ub', 'ub < ongoing_ub')),
    ('ongoing skip own', 'C07', vary('ongoing match', '.iter()', '.iter().skip(1)')),
    ('done without ongoing', 'C04 C07', vary('critical methods', 'self.ongoing > 0 ||', '')),
    ('done one busy', 'C04 C07', vary('critical methods', 'self.ongoing > 0 ||', 'self.ongoing > 1 ||')),
    ('take wrong depth', 'C21', vary('critical methods', 'self.ongoing_by_layer[depth] += 1;', 'self.ongoing_by_layer[depth + 1] += 1;')),
    ('release keeps bound', 'C07', vary('critical methods', '        self.upper_bounds[thread_id] = isize::MAX;\n', '')),
    ('add deeper', 'C21', vary('critical methods', 'self.open_by_layer[depth] += 1;', 'self.open_by_layer[depth.saturating_sub(1)] += 1;')),
    ('discard not all', 'C21', vary('critical methods', '&mut self.open_by_layer {', 'self.open_by_layer.iter_mut().skip(1) {')),
    ('ctor depth', 'C18', vary('node ctor', 'parent.depth + 1', 'parent.depth')),
    ('ctor theta', 'C20', vary('node ctor', 'theta: isize::MAX', 'theta: 0')),
    ('ctor via', 'C12', vary('node ctor', 'self.inbound = self.best;', '')),
    ('ctor merged exact', 'C10', vary('node ctor', 'NodeFlags::new_relaxed()', 'NodeFlags::new_exact()')),
    ('guard below', 'C18', vary('guard if let', 'lel < depth', 'lel > depth')),
    ('guard any', 'C18', vary('guard is_some_and', 'below && matches!', 'below && !matches!')),
    ('guard limit zero', 'C18', vary('guard filter', 'depth > limit', 'depth > limit + 1')),
    ('pruning swapped', 'C20', vary('node locals', 'std::cmp::Ordering::Less =>', 'std::cmp::Ordering::Greater =>')),
    ('pruning max', 'C20', vary('node locals', 'if pruning < node.theta', 'if pruning > node.theta')),
    ('parent less', 'C32', vary('parent mut', '>= parent.value_bot', '<= parent.value_bot')),
    ('accessor skips', 'C32 C16 C20', vary('accessors', 'self.next_l.values().copied().collect()', 'self.next_l.values().copied().skip(1).collect()')),
    ('accessor exact', 'C32 C16', vary('accessors', 'self.next_l.values().copied().collect()', 'self.next_l.values().copied().filter(|id| self.flags(*id).is_exact()).collect()')),
    ('accessor best', 'C32 C16', vary('accessors', 'self.next_l.values().copied().collect()', 'self.best_n.iter().copied().collect()')),
    ('depth one', 'C11', vary('width local', '>= 2', '>= 1')),
    ('deep only', 'C11', vary('width local', '>= 2', '>= 3')),
    ('merged in restricted', 'C11', vary('width local', '(CompilationType::Restricted, true) => self.restrict(input, &mut curr_l)', '(CompilationType::Restricted, true) if depth > root_depth => self.restrict(input, &mut curr_l)')),
    ('sum once', 'C36', vary('sum dd', 'restricted_dd + mdd.get_explored()', 'mdd.get_explored()')),
    ('best if let ge', 'C01', vary('best if let', 'value > shared.best_lb', 'value >= shared.best_lb.saturating_sub(1)')),
    ('clear anew other', 'C09', vary('clear anew', '        *self = Self::new(self.barriers.clone(), self.cutset_type);\n', '        let old = std::mem::take(&mut self.cutset);\n        *self = Self::new(self.barriers.clone(), self.cutset_type);\n        self.cutset = old;\n')),
    ('clear take none', 'C09', vary('clear take', 'self.edges.truncate(0);', '')),
]
