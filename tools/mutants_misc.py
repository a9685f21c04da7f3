A = 'src/mdd/with_all.rs'
B = 'src/mdd/with_barrier.rs'
P = 'src/solver/parallel.rs'
X = 'src/xputils.rs'
F='src/mdd/node_flags.rs'
EDITS = [
 ('gap plain', 'C13', [(X, 'let aub = ub.unsigned_abs();\n    let alb = lb.unsigned_abs();', 'let aub = ub.abs();\n    let alb = lb.abs();')]),
 ('gap direct', 'C13', [(X, '(u - l) as f32 / u as f32', '(ub - lb) as f32 / u as f32')]),
 ('gap order', 'C13', [(X, '(u - l) as f32 / u as f32', '(aub - alb) as f32 / u as f32')]),
 ('gap div', 'C13', [(X, '(u - l) as f32 / u as f32', '(u - l) as f32 / aub as f32')]),
 ('est sum', 'C13', [(A, 'let ub = rub.saturating_add(self.nodes[node_id.0].value);', 'let ub = rub + self.nodes[node_id.0].value;')]),
 ('bot checked', 'C13', [(B, 'let ub = rub.saturating_add(self.nodes[node_id.0].value);', 'let ub = rub.checked_add(self.nodes[node_id.0].value).unwrap();')]),
 ('bot i128', 'C13', [(B, 'let ub = rub.saturating_add(self.nodes[node_id.0].value);', 'let ub = (rub as i128 + self.nodes[node_id.0].value as i128) as isize;')]),
 ('R gap branches', None, [(X, '''    let u = aub.max(alb);
    let l = aub.min(alb);

    (u - l) as f32 / u as f32''', '''    let (l, u) = if alb < aub { (alb, aub) } else { (aub, alb) };
    let diff = u - l;
    diff as f32 / u as f32''')]),
 ('R gap abs_diff', None, [(X, '''    (u - l) as f32 / u as f32''', '''    u.abs_diff(l) as f32 / u as f32''')]),
 ('R i128 clamp', None, [(B, 'let ub = rub.saturating_add(self.nodes[node_id.0].value);', 'let value = self.nodes[node_id.0].value;\n                        let ub = value.saturating_add(rub);')]),
 ('flag share', 'C24', [(F, 'F_BARRIER: u8 = 32', 'F_BARRIER: u8 = 16')]),
 ('flag two bits', 'C24', [(F, 'F_DELETED: u8 = 16', 'F_DELETED: u8 = 20')]),
 ('exact only', 'C24', [(F, 'self.test(NodeFlags::F_EXACT) && !self.test(NodeFlags::F_RELAXED)', 'self.test(NodeFlags::F_EXACT)')]),
 ('test any', 'C24', [(F, 'F_CUTSET: u8 = 8', 'F_CUTSET: u8 = 12'),(F, 'self.0 & mask == mask', 'self.0 & mask != 0')]),
 ('set toggles', 'C24', [(F, 'self.0 |= flags;', 'self.0 ^= flags;')]),
 ('marked clears cutset', 'C24', [(F, 'self.set(NodeFlags::F_MARKED, marked)', 'self.0 &= !NodeFlags::F_CUTSET;\n        self.set(NodeFlags::F_MARKED, marked)')]),
 ('remove clears others', 'C24', [(F, 'self.0 &= !flags;', 'self.0 &= flags.wrapping_sub(1);')]),
 ('R set branchless', None, [(F, """        if value {
            self.add(flag)
        } else {
            self.remove(flag)
        }""", """        self.0 = (self.0 & !flag) | (flag * value as u8);""")]),
 ('R toggle if differs', None, [(F, """        if value {
            self.add(flag)
        } else {
            self.remove(flag)
        }""", """        if self.test(flag) != value {
            self.0 ^= flag;
        }""")]),
 ('R shift', None, [(F, """self.0 & mask == mask""", """!self.0 & mask == 0""")]),
]
