"""Edits of the equality and hashing of example states (C28)."""
PS = 'examples/psp/psp.rs'
SS = 'examples/srflp/state.rs'
TS = 'examples/tsptw/state.rs'
C = 'C28'
PD = '#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct State {'
PN = '#[derive(Debug, Clone, Eq)]\npub struct State {'
PE = '''#[derive(Debug, Copy, Clone)]
pub struct PspRelax;'''


def p(eq, hash='self.time.hash(h); self.k.hash(h); self.u.hash(h);'):
    return [(PS, PD, PN), (PS, PE, '''impl PartialEq for State {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
impl std::hash::Hash for State {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        %s
    }
}
''' % (eq, hash) + PE)]


FULL = 'self.time == other.time && self.k == other.k && self.u == other.u'
PO = '#[derive(Debug, Clone, Hash, Eq, PartialEq)]\npub enum Position {'
PO2 = '#[derive(Debug, Clone, Hash, Eq)]\npub enum Position {'
EL = '#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]\npub enum ElapsedTime {'
EL2 = '#[derive(Debug, Clone, Copy, Eq, Hash)]\npub enum ElapsedTime {'
T = '/// This represents the postition of the salesman in his tour.'


def pos(body):
    return [(TS, PO, PO2), (TS, T, '''impl PartialEq for Position {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
''' % body + T)]


def el(body):
    return [(TS, EL, EL2), (TS, T, '''impl PartialEq for ElapsedTime {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
''' % body + T)]


EDITS = [
    ('no time', C, p('self.k == other.k && self.u == other.u')),
    ('no u', C, p('self.time == other.time && self.k == other.k')),
    ('len only', C, p('self.time == other.time && self.k == other.k && self.u.len() == other.u.len()')),
    ('time or k', C, p('self.time == other.time && (self.k == other.k || self.u == other.u)')),
    ('k when time 0', C, p('self.time == other.time && (self.time == 0 || self.k == other.k) && self.u == other.u')),
    ('cross fields', C, p('self.time == other.time && self.k == self.k && self.u == other.u')),
    ('never equal', C, p('self.time < 3 && ' + FULL)),
    ('sum', C, p('self.time + self.k as usize == other.time + other.k as usize && self.u == other.u')),
    ('first of u', C, p('self.time == other.time && self.k == other.k && self.u.first() == other.u.first()')),
    ('hash ptr', C, p(FULL, 'self.time.hash(h); self.k.hash(h); (self.u.as_ptr() as usize).hash(h);')),
    ('hash capacity', C, p(FULL, 'self.time.hash(h); self.k.hash(h); self.u.capacity().hash(h);')),
    ('hash self address', C, p(FULL, '(self as *const Self as usize).hash(h);')),
    ('hash id', C, p(FULL, 'self.time.hash(h); std::process::id().hash(h);')),
    ('position virtual', C, pos('match (self, other) { (Position::Node(a), Position::Node(b)) => a == b, (Position::Virtual(_), Position::Virtual(_)) => true, _ => false }')),
    ('position mixed', C, pos('match (self, other) { (Position::Node(a), Position::Node(b)) => a == b, (Position::Virtual(a), Position::Virtual(b)) => a == b, _ => true }')),
    ('elapsed earliest', C, el('self.earliest() == other.earliest()')),
    ('elapsed no latest', C, el('match (self, other) { (ElapsedTime::FixedAmount { duration: a }, ElapsedTime::FixedAmount { duration: b }) => a == b, (ElapsedTime::FuzzyAmount { earliest: a, .. }, ElapsedTime::FuzzyAmount { earliest: b, .. }) => a == b, _ => false }')),
    ('srflp no depth', C, [(SS, '#[derive(Debug, Clone, Hash, PartialEq, Eq)]', '#[derive(Debug, Clone, Hash, Eq)]'), (SS, 'use bitset_fixed::BitSet;', '''use bitset_fixed::BitSet;
impl PartialEq for State {
    fn eq(&self, other: &Self) -> bool {
        self.must_place == other.must_place && self.maybe_place == other.maybe_place && self.cut == other.cut
    }
}
''')]),
    ('ne wrong', C, p(FULL + '''
    }
    fn ne(&self, other: &Self) -> bool {
        self.u != other.u || self.time != other.time''')),
    ('plain', None, p(FULL)),
    ('plain order', None, p('self.u == other.u && other.k == self.k && self.time == other.time')),
    ('tuples', None, p('(self.time, self.k, &self.u) == (other.time, other.k, &other.u)', '(self.time, self.k, &self.u).hash(h);')),
    ('early out', None, p('if self.time != other.time { return false; }\n        if self.k != other.k { return false; }\n        self.u == other.u')),
    ('let', None, p('let a = self.time == other.time;\n        let b = self.k == other.k;\n        a & b & self.u.eq(&other.u)')),
    ('destructure', None, p('let State { time, k, u } = self;\n        *time == other.time && *k == other.k && *u == other.u')),
    ('slices', None, p('self.time == other.time && self.k == other.k && self.u.as_slice() == &other.u[..]', 'self.u.as_slice().hash(h);')),
    ('cmp', None, p('self.time.cmp(&other.time).is_eq() && self.k == other.k && self.u.cmp(&other.u) == std::cmp::Ordering::Equal')),
    ('len first', None, p('self.u.len() == other.u.len() && self.time == other.time && self.k == other.k && self.u == other.u')),
    ('ne', None, p(FULL + '''
    }
    fn ne(&self, other: &Self) -> bool {
        !(self == other)''')),
    ('hash some', None, p(FULL, 'self.time.hash(h); h.write_i32(self.k);')),
    ('hash elements', None, p(FULL, 'for x in self.u.iter() { x.hash(h); }')),
    ('hash len', None, p(FULL, 'h.write_usize(self.u.len()); if self.time > 3 { self.k.hash(h) }')),
    ('position match', None, pos('match (self, other) { (Position::Node(a), Position::Node(b)) => a == b, (Position::Virtual(a), Position::Virtual(b)) => a == b, _ => false }')),
    ('position match 2', None, pos('match (self, other) { (Position::Node(a), Position::Node(b)) => a == b, (Position::Virtual(a), Position::Virtual(b)) => a == b, (Position::Node(_), Position::Virtual(_)) | (Position::Virtual(_), Position::Node(_)) => false }')),
    ('position if let', None, pos('if let (Position::Node(a), Position::Node(b)) = (self, other) { return a == b; }\n        if let (Position::Virtual(a), Position::Virtual(b)) = (self, other) { return a == b; }\n        false')),
    ('elapsed match', None, el('match (self, other) { (ElapsedTime::FixedAmount { duration: a }, ElapsedTime::FixedAmount { duration: b }) => a == b, (ElapsedTime::FuzzyAmount { earliest: a, latest: c }, ElapsedTime::FuzzyAmount { earliest: b, latest: d }) => (a, c) == (b, d), _ => false }')),
    ('srflp plain', None, [(SS, '#[derive(Debug, Clone, Hash, PartialEq, Eq)]', '#[derive(Debug, Clone, Hash, Eq)]'), (SS, 'use bitset_fixed::BitSet;', '''use bitset_fixed::BitSet;
impl PartialEq for State {
    fn eq(&self, other: &Self) -> bool {
        self.depth == other.depth && self.must_place == other.must_place && self.maybe_place == other.maybe_place && self.cut == other.cut
    }
}
''')]),
]
