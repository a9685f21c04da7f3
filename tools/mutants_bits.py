"""Edits of the bit set order (C29) and iterator (C42)."""
U = 'src/utils.rs'
C = 'C29'
HEAD = '''        let mut x = self.0.buffer().iter().cloned();
        let mut y = other.0.buffer().iter().cloned();
        let end   = x.len().max(y.len());

        for _ in 0..end {
            let xi = x.next().unwrap_or(0);
            let yi = y.next().unwrap_or(0);
'''
SCAN = '''            if xi != yi {
                let mut mask = 1_u64;
                for _ in 0..64 {
                    let bit_x = xi & mask;
                    let bit_y = yi & mask;
                    if bit_x != bit_y {
                        return bit_x.cmp(&bit_y);
                    }
                    mask <<= 1;
                }
            }
'''
TAIL = '''        }
        Ordering::Equal
'''
ALL = HEAD + SCAN + TAIL
PC = '        Some(self.cmp(other))'
EQ = '        self.0 == other.0 || self.cmp(other) == Ordering::Equal'


def s(new):
    return [(U, SCAN, new)]


def a(new):
    return [(U, ALL, new)]


EDITS = [
    # mutants
    ('min', C, [(U, 'x.len().max(y.len())', 'x.len().min(y.len())')]),
    ('end x', C, [(U, 'x.len().max(y.len())', 'x.len()')]),
    ('63 bits', C, [(U, 'for _ in 0..64 {', 'for _ in 0..63 {')]),
    ('32 bits', C, [(U, 'for _ in 0..64 {', 'for _ in 0..32 {')]),
    ('reversed', C, [(U, 'bit_x.cmp(&bit_y)', 'bit_y.cmp(&bit_x)')]),
    ('words', C, [(U, 'return bit_x.cmp(&bit_y)', 'return xi.cmp(&yi)')]),
    ('words no scan', C, s('            if xi != yi {\n                return xi.cmp(&yi);\n            }\n')),
    ('mask 2', C, [(U, 'let mut mask = 1_u64;', 'let mut mask = 2_u64;')]),
    ('mask top', C, [(U, 'let mut mask = 1_u64;', 'let mut mask = 1_u64 << 63;'), (U, '                    mask <<= 1;\n                }\n            }\n        }\n        Ord', '                    mask >>= 1;\n                }\n            }\n        }\n        Ord')]),
    ('mask shl 2', C, [(U, '                    mask <<= 1;\n                }\n            }\n        }\n        Ord', '                    mask <<= 2;\n                }\n            }\n        }\n        Ord')]),
    ('skip first', C, [(U, '        let end   = x.len()', '        x.next();\n        let end   = x.len()')]),
    ('rev words', C, [(U, 'self.0.buffer().iter().cloned()', 'self.0.buffer().iter().rev().cloned()'), (U, 'other.0.buffer().iter().cloned()', 'other.0.buffer().iter().rev().cloned()')]),
    ('pad ones', C, [(U, 'let yi = y.next().unwrap_or(0);', 'let yi = y.next().unwrap_or(u64::MAX);')]),
    ('greater lengths', C, [(U, '        let end   = x.len()', '        if x.len() != y.len() { return x.len().cmp(&y.len()); }\n        let end   = x.len()')]),
    ('last decides', C, a(HEAD.replace('        for _', '        let mut r = Ordering::Equal;\n        for _') + '            if xi != yi { r = xi.reverse_bits().cmp(&yi.reverse_bits()); }\n        }\n        r\n')),
    ('break at zero', C, s('            if xi == 0 { break; }\n' + SCAN)),
    ('twice', C, [(U, 'let yi = y.next().unwrap_or(0);', 'let yi = y.next().unwrap_or(0);\n            let yi = if yi == 0 { y.next().unwrap_or(0) } else { yi };')]),
    ('partial reversed', C, [(U, PC, '        Some(other.cmp(self))')]),
    ('partial buffers', C, [(U, PC, '        self.0.buffer().partial_cmp(other.0.buffer())')]),
    ('partial none', C, [(U, PC, '        if self.0.size() != other.0.size() { return None; }\n' + PC)]),
    ('eq buffers', C, [(U, EQ, '        self.0 == other.0')]),
    ('eq size', C, [(U, EQ, '        self.0.size() == other.0.size() && self.cmp(other) == Ordering::Equal')]),
    ('eq not greater', C, [(U, EQ, '        self.0 == other.0 || self.cmp(other) != Ordering::Greater')]),
    ('eq xor', C, [(U, EQ, '        self.0 == other.0 && self.cmp(other) == Ordering::Equal')]),
    ('trailing on x', C, s('            if xi != yi {\n                let k = xi.trailing_zeros();\n                return ((xi >> k) & 1).cmp(&((yi >> k) & 1));\n            }\n')),
    ('leading', C, s('            if xi != yi {\n                let k = 63 - (xi ^ yi).leading_zeros();\n                return ((xi >> k) & 1).cmp(&((yi >> k) & 1));\n            }\n')),
    ('low wrong set', C, s('            if xi != yi {\n                let d = xi ^ yi;\n                let low = d & d.wrapping_neg();\n                return if xi & low != 0 { Ordering::Less } else { Ordering::Greater };\n            }\n')),
    ('lt wrong', C, [(U, PC + '\n    }', PC + '\n    }\n    fn lt(&self, other: &Self) -> bool { self.cmp(other) != Ordering::Greater }')]),
    ('one bit only', C, s('            if xi != yi {\n                let mut mask = 1_u64;\n                while mask != 1 << 63 {\n                    if xi & mask != yi & mask {\n                        return (xi & mask).cmp(&(yi & mask));\n                    }\n                    mask <<= 1;\n                }\n            }\n')),
    # refactorings
    ('reverse_bits', None, s('            if xi != yi {\n                return xi.reverse_bits().cmp(&yi.reverse_bits());\n            }\n')),
    ('reverse match', None, s('            match xi.reverse_bits().cmp(&yi.reverse_bits()) {\n                Ordering::Equal => {}\n                o => return o,\n            }\n')),
    ('reverse let', None, s('            let o = xi.reverse_bits().cmp(&yi.reverse_bits());\n            if o != Ordering::Equal {\n                return o;\n            }\n')),
    ('trailing', None, s('            let d = xi ^ yi;\n            if d != 0 {\n                let k = d.trailing_zeros();\n                return ((xi >> k) & 1).cmp(&((yi >> k) & 1));\n            }\n')),
    ('trailing mask', None, s('            if xi != yi {\n                let mask = 1_u64 << (xi ^ yi).trailing_zeros();\n                return (xi & mask).cmp(&(yi & mask));\n            }\n')),
    ('trailing if', None, s('            if xi != yi {\n                let mask = 1_u64 << (xi ^ yi).trailing_zeros();\n                return if xi & mask != 0 { Ordering::Greater } else { Ordering::Less };\n            }\n')),
    ('low bit', None, s('            if xi != yi {\n                let d = xi ^ yi;\n                let low = d & d.wrapping_neg();\n                return if xi & low == 0 { Ordering::Less } else { Ordering::Greater };\n            }\n')),
    ('positions', None, s('            if xi != yi {\n                for k in 0..64 {\n                    let bit_x = (xi >> k) & 1;\n                    let bit_y = (yi >> k) & 1;\n                    if bit_x != bit_y {\n                        return bit_x.cmp(&bit_y);\n                    }\n                }\n            }\n')),
    ('positions mask', None, s('            if xi == yi { continue; }\n            for k in 0..64 {\n                let m = 1_u64 << k;\n                match (xi & m).cmp(&(yi & m)) {\n                    Ordering::Equal => (),\n                    o => return o,\n                }\n            }\n')),
    ('bools', None, s('            if xi != yi {\n                let mut mask = 1_u64;\n                while mask != 0 {\n                    let bx = xi & mask != 0;\n                    let by = yi & mask != 0;\n                    if bx && !by { return Ordering::Greater; }\n                    if by && !bx { return Ordering::Less; }\n                    mask <<= 1;\n                }\n            }\n')),
    ('mask while', None, s('            let mut mask = 1_u64;\n            while mask != 0 {\n                if xi & mask != yi & mask {\n                    return (xi & mask).cmp(&(yi & mask));\n                }\n                mask <<= 1;\n            }\n')),
    ('no test', None, s(SCAN.replace('            if xi != yi {\n', '            {\n'))),
    ('mask loop', None, s('            if xi != yi {\n                let mut mask = 1_u64;\n                loop {\n                    if xi & mask != yi & mask {\n                        return (xi & mask).cmp(&(yi & mask));\n                    }\n                    mask <<= 1;\n                }\n            }\n')),
    ('rev of cmp', None, [(U, 'return bit_x.cmp(&bit_y)', 'return bit_y.cmp(&bit_x).reverse()')]),
    ('index', None, a('''        let (x, y) = (self.0.buffer(), other.0.buffer());
        let end = x.len().max(y.len());
        for i in 0..end {
            let xi = if i < x.len() { x[i] } else { 0 };
            let yi = if i < y.len() { y[i] } else { 0 };
''' + SCAN + TAIL)),
    ('get', None, a('''        let (x, y) = (self.0.buffer(), other.0.buffer());
        for i in 0..x.len().max(y.len()) {
            let xi = x.get(i).copied().unwrap_or(0);
            let yi = y.get(i).copied().unwrap_or_default();
''' + SCAN + TAIL)),
    ('while index', None, a('''        let (x, y) = (self.0.buffer(), other.0.buffer());
        let mut i = 0;
        while i < x.len() || i < y.len() {
            let xi = *x.get(i).unwrap_or(&0);
            let yi = *y.get(i).unwrap_or(&0);
            i += 1;
''' + SCAN + TAIL)),
    ('loop both', None, a('''        let mut x = self.0.buffer().iter();
        let mut y = other.0.buffer().iter();
        loop {
            let (xi, yi) = match (x.next(), y.next()) {
                (None, None) => return Ordering::Equal,
                (a, b) => (a.copied().unwrap_or(0), b.copied().unwrap_or(0)),
            };
''' + SCAN + '        }\n')),
    ('helper', None, s('            if xi != yi {\n                return first_bit(xi, yi);\n            }\n') + [(U, '/// A totally ordered Bitset wrapper.', '''fn first_bit(a: u64, b: u64) -> Ordering {
    a.reverse_bits().cmp(&b.reverse_bits())
}

/// A totally ordered Bitset wrapper.''')]),
    ('partial full', None, [(U, PC, '        Some(Ord::cmp(self, other))')]),
    ('partial let', None, [(U, PC, '        let o = self.cmp(other);\n        Some(o)')]),
    ('swapped', None, [(U, PC, '        Some(other.cmp(self).reverse())')]),
    ('eq cmp', None, [(U, EQ, '        self.cmp(other) == Ordering::Equal')]),
    ('eq is_eq', None, [(U, EQ, '        self.cmp(other).is_eq()')]),
    ('eq match', None, [(U, EQ, '        if self.0 == other.0 { return true; }\n        matches!(self.cmp(other), Ordering::Equal)')]),
    ('eq reversed', None, [(U, EQ, '        other.cmp(self) == Ordering::Equal || other.0 == self.0')]),
    ('eq partial', None, [(U, EQ, '        self.partial_cmp(other) == Some(Ordering::Equal)')]),
    ('eq buffers first', None, [(U, EQ, '        self.0.buffer() == other.0.buffer() || self.cmp(other) == Ordering::Equal')]),
    ('partial works', None, a('        self.partial_cmp(other).unwrap()\n') + [(U, PC, ALL.replace('return bit_x.cmp(&bit_y)', 'return Some(bit_x.cmp(&bit_y))').replace('        Ordering::Equal', '        Some(Ordering::Equal)'))]),
    ('early', None, a('        if self.0 == other.0 {\n            return Ordering::Equal;\n        }\n' + ALL)),
    ('lt', None, [(U, PC + '\n    }', PC + '\n    }\n    fn lt(&self, other: &Self) -> bool { self.cmp(other) == Ordering::Less }\n    fn ge(&self, other: &Self) -> bool { self.cmp(other) != Ordering::Less }')]),
    ('ne', None, [(U, EQ + '\n    }', EQ + '\n    }\n    fn ne(&self, other: &Self) -> bool { !self.eq(other) }')]),
]
C = 'C42'
NX = '''        while let Some(w) = self.word {
            if w == 0 || self.offset >= 64 {
                self.word   = self.iter.next();
                self.base  += 64;
                self.offset = 0;
            } else {
                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
                if self.offset < 64 {
                    let ret = Some(self.base + self.offset);
                    self.offset += 1;
                    return ret;
                }
            }
        }
        None
'''
ST = '''    /// The value of position 0 in the current word
    base: usize,
    /// An offset in the current word
    offset: usize,
'''
STN = '    word: Option<u64>,\n'


def nx(new):
    return [(U, NX, new)]


def rp(x, y):
    return nx(NX.replace(x, y))


def clear(body, new='BitSetIter {iter, word, base: 0}'):
    return nx(body) + [(U, ST, '    base: usize,\n'), (U, 'BitSetIter {iter, word, base: 0, offset: 0}', new)]


EDITS += [
    ('i base 63', C, rp('self.base  += 64', 'self.base  += 63')),
    ('i base size', C, rp('self.base  += 64', 'self.base  += self.offset')),
    ('i offset kept', C, rp('                self.offset = 0;\n', '                self.offset %= 64;\n')),
    ('i offset 1', C, rp('self.offset = 0', 'self.offset = 1')),
    ('i skip word', C, rp('self.iter.next();\n', 'self.iter.next();\n                if self.word == Some(0) { self.word = self.iter.next(); }\n')),
    ('i stop at zero', C, rp('if w == 0 ||', 'if w == 0 && self.base > 0 { return None; }\n            if w == 0 ||')),
    ('i leave early', C, rp('self.offset >= 64', 'self.offset >= 63')),
    ('i leave at half', C, rp('self.offset >= 64', 'self.offset >= 32')),
    ('i inner 63', C, rp('== 0 && self.offset < 64', '== 0 && self.offset < 63')),
    ('i inner if 63', C, rp('if self.offset < 64', 'if self.offset < 63')),
    ('i no advance', C, rp('                    self.offset += 1;\n                    return', '                    return')),
    ('i advance two', C, rp('                    self.offset += 1;\n                    return', '                    self.offset += 2;\n                    return')),
    ('i start 1', C, [(U, 'base: 0, offset: 0', 'base: 0, offset: 1')]),
    ('i base 1', C, [(U, 'base: 0, offset: 0', 'base: 1, offset: 0')]),
    ('i mask 1', C, rp('1_u64 << self.offset as u64', '1_u64')),
    ('i step 2', C, rp('mask <<= 1;\n                    self.offset += 1;', 'mask <<= 2;\n                    self.offset += 2;')),
    ('i step mask', C, rp('mask <<= 1;', 'mask <<= 2;')),
    ('i ret offset', C, rp('Some(self.base + self.offset)', 'Some(self.offset)')),
    ('i ret plus', C, rp('Some(self.base + self.offset)', 'Some(self.base + self.offset + 1)')),
    ('i ge 65', C, rp('self.offset >= 64', 'self.offset > 64')),
    ('i word is zero bits', C, rp('(w & mask) == 0', '(w & mask) != 0')),
    ('i skip start', C, [(U, 'bs.buffer().iter().cloned()', 'bs.buffer()[1..].iter().cloned()')]),
    ('i rev start', C, [(U, 'iter: Cloned<Iter<', 'iter: Cloned<std::iter::Rev<Iter<'), (U, "'a, u64>>,", "'a, u64>>>,"), (U, 'bs.buffer().iter().cloned()', 'bs.buffer().iter().rev().cloned()')]),
    ('i tz plain', C, rp('''                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
''', '                self.offset = w.trailing_zeros() as usize;\n')),
    ('i tz shifted no add', C, rp('''                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
''', '                self.offset = (w >> self.offset).trailing_zeros() as usize;\n')),
    ('i clear wrong', C, clear('''        while let Some(w) = self.word {
            if w == 0 {
                self.word = self.iter.next();
                self.base += 64;
            } else {
                let k = w.trailing_zeros() as usize;
                self.word = Some(w & !(2 << k));
                return Some(self.base + k);
            }
        }
        None
''')),
    # refactorings
    ('i tz', None, rp('''                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
                if self.offset < 64 {
''', '''                let rest = w >> self.offset;
                if rest == 0 {
                    self.offset = 64;
                } else {
                    self.offset += rest.trailing_zeros() as usize;
''')),
    ('i tz masked', None, nx('''        while let Some(w) = self.word {
            let rest = if self.offset < 64 { w & (u64::MAX << self.offset) } else { 0 };
            if rest != 0 {
                let k = rest.trailing_zeros() as usize;
                self.offset = k + 1;
                return Some(self.base + k);
            }
            self.word = self.iter.next();
            self.base += 64;
            self.offset = 0;
        }
        None
''')),
    ('i bit by bit', None, nx('''        while let Some(w) = self.word {
            if self.offset == 64 || w == 0 {
                self.word = self.iter.next();
                self.base += 64;
                self.offset = 0;
                continue;
            }
            if self.offset > 63 { unreachable!() }
            let k = self.offset;
            self.offset += 1;
            if (w >> k) & 1 == 1 {
                return Some(self.base + k);
            }
        }
        None
''')),
    ('i helper', None, nx('''        while let Some(w) = self.word {
            while self.offset < 64 {
                let k = self.offset;
                self.offset += 1;
                if w & (1 << k) != 0 {
                    return Some(self.base + k);
                }
            }
            self.advance();
        }
        None
''') + [(U, "        BitSetIter {iter, word, base: 0, offset: 0}\n    }\n", "        BitSetIter {iter, word, base: 0, offset: 0}\n    }\n    fn advance(&mut self) {\n        self.offset = 0;\n        self.base += 64;\n        self.word = self.iter.next();\n    }\n")]),
    ('i no zero test', None, rp('w == 0 || self.offset >= 64', 'self.offset >= 64')),
    ('i reordered', None, rp('''                self.word   = self.iter.next();
                self.base  += 64;
                self.offset = 0;
''', '''                self.offset = 0;
                self.base  += 64;
                self.word   = self.iter.next();
''')),
    ('i local offset', None, rp('''                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
                if self.offset < 64 {
                    let ret = Some(self.base + self.offset);
                    self.offset += 1;
                    return ret;
                }
''', '''                let mut k = self.offset;
                while k < 64 && w & (1 << k) == 0 {
                    k += 1;
                }
                self.offset = k + 1;
                if k < 64 {
                    return Some(self.base + k);
                }
''')),
    ('i loop match', None, nx('''        loop {
            match self.word {
                None => return None,
                Some(w) => {
                    while self.offset < 64 && w & (1 << self.offset) == 0 {
                        self.offset += 1;
                    }
                    if self.offset >= 64 {
                        self.word = self.iter.next();
                        self.base += 64;
                        self.offset = 0;
                    } else {
                        self.offset += 1;
                        return Some(self.base + self.offset - 1);
                    }
                }
            }
        }
''')),
    ('i clear', None, clear('''        while let Some(w) = self.word {
            if w == 0 {
                self.word = self.iter.next();
                self.base += 64;
            } else {
                let k = w.trailing_zeros() as usize;
                self.word = Some(w & (w - 1));
                return Some(self.base + k);
            }
        }
        None
''')),
    ('i clear bit', None, clear('''        loop {
            match self.word {
                Some(0) => {
                    self.word = self.iter.next();
                    self.base += 64;
                }
                Some(w) => {
                    let k = w.trailing_zeros() as usize;
                    self.word = Some(w & !(1 << k));
                    return Some(self.base + k);
                }
                None => return None,
            }
        }
''')),
    ('i clear plain', None, clear('''        while self.word == 0 {
            self.word = self.iter.next()?;
            self.base += 64;
        }
        let k = self.word.trailing_zeros() as usize;
        self.word &= self.word - 1;
        Some(self.base + k)
''', 'BitSetIter {iter, word, base: 0}') + [(U, STN, '    word: u64,\n'), (U, 'let word = iter.next();', 'let word = iter.next().unwrap_or(0);')]),
    ('i question', None, nx('''        loop {
            let w = self.word?;
''' + NX.split('\n', 1)[1].replace('        }\n        None\n', '        }\n'))),
]
