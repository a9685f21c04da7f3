"""Edits of the utilities, flags, width heuristics and the runner that keep the behaviour."""
U, FL, H, X = 'src/utils.rs', 'src/mdd/node_flags.rs', 'src/heuristics/mod.rs', 'src/xputils.rs'
NEXT = """                let mut mask = 1_u64 << self.offset as u64;
                while (w & mask) == 0 && self.offset < 64 {
                    mask <<= 1;
                    self.offset += 1;
                }
                if self.offset < 64 {
                    let ret = Some(self.base + self.offset);
                    self.offset += 1;
                    return ret;
                }
"""
LEX = """                let mut mask = 1_u64;
                for _ in 0..64 {
                    let bit_x = xi & mask;
                    let bit_y = yi & mask;
                    if bit_x != bit_y {
                        return bit_x.cmp(&bit_y);
                    }
                    mask <<= 1;
                }
"""
BV = """            let best_value = solver
                .best_value()
                .map(|v| v.to_string())
                .unwrap_or_else(|| "not found".to_owned());
"""
EDITS = [
    ('iter tz', None, [(U, NEXT, """                let rest = w >> self.offset;
                if rest == 0 {
                    self.offset = 64;
                } else {
                    self.offset += rest.trailing_zeros() as usize;
                    let ret = self.base + self.offset;
                    self.offset += 1;
                    return Some(ret);
                }
""")]),
    ('iter shift', None, [(U, NEXT, """                while self.offset < 64 && (w >> self.offset) & 1 == 0 {
                    self.offset += 1;
                }
                if self.offset < 64 {
                    self.offset += 1;
                    return Some(self.base + self.offset - 1);
                }
""")]),
    ('iter loop', None, [(U, NEXT, """                let mut mask = 1_u64 << self.offset;
                loop {
                    if self.offset >= 64 {
                        break;
                    }
                    let at = self.offset;
                    let hit = w & mask != 0;
                    self.offset += 1;
                    mask <<= 1;
                    if hit {
                        return Some(self.base + at);
                    }
                }
""")]),
    ('iter match', None, [(U, 'while let Some(w) = self.word {', 'loop {\n            let w = match self.word {\n                Some(w) => w,\n                None => return None,\n            };'), (U, '        }\n        None\n    }\n}\n', '        }\n    }\n}\n')]),
    ('iter bits const', None, [(U, '            if w == 0 || self.offset >= 64 {', '            const BITS: usize = 64;\n            if w == 0 || self.offset >= BITS {'), (U, 'self.base  += 64;', 'self.base  += BITS;')]),
    ('iter order', None, [(U, '                self.word   = self.iter.next();\n                self.base  += 64;\n                self.offset = 0;', '                self.offset = 0;\n                self.base  += 64;\n                self.word   = self.iter.next();')]),
    ('lex word cmp', None, [(U, LEX, """                let diff = xi ^ yi;
                let low = diff & diff.wrapping_neg();
                return if xi & low != 0 { Ordering::Greater } else { Ordering::Less };
""")]),
    ('lex tz', None, [(U, LEX, """                let at = (xi ^ yi).trailing_zeros();
                return ((xi >> at) & 1).cmp(&((yi >> at) & 1));
""")]),
    ('lex reverse bits', None, [(U, LEX, """                return xi.reverse_bits().cmp(&yi.reverse_bits());
""")]),
    ('lex shift', None, [(U, LEX, """                for i in 0..64 {
                    let (bx, by) = ((xi >> i) & 1, (yi >> i) & 1);
                    if bx != by {
                        return bx.cmp(&by);
                    }
                }
""")]),
    ('lex if', None, [(U, 'return bit_x.cmp(&bit_y);', 'return if bit_x < bit_y { Ordering::Less } else { Ordering::Greater };')]),
    ('lex continue', None, [(U, '            if xi != yi {\n', '            if xi == yi {\n                continue;\n            }\n            {\n')]),
    ('eq cmp', None, [(U, 'self.0 == other.0 || self.cmp(other) == Ordering::Equal', 'self.cmp(other) == Ordering::Equal')]),
    ('eq matches', None, [(U, 'self.0 == other.0 || self.cmp(other) == Ordering::Equal', 'matches!(self.cmp(other), Ordering::Equal)')]),
    ('matrix pos', None, [(U, 'self.m * idx.0 + idx.1', 'let (row, col) = idx;\n        row * self.m + col')]),
    ('matrix inline', None, [(U, 'let position = self.pos(idx);\n        &self.data[position]', '&self.data[idx.0 * self.m + idx.1]')]),
    ('matrix new', None, [(U, 'Matrix { m, n, data: vec![Default::default(); m * n] }', 'let data = vec![T::default(); n * m];\n        Matrix { data, m, n }')]),
    ('matrix new default', None, [(U, 'Matrix { m, n, data: vec![Default::default(); m * n] }', 'Self::new_default(m, n, Default::default())')]),
    ('matrix get', None, [(U, 'let position = self.pos(idx);\n        &self.data[position]', 'self.data.get(self.pos(idx)).expect("index out of range")')]),
    ('flags test', None, [(FL, 'self.0 & mask == mask', '(self.0 & mask) ^ mask == 0')]),
    ('flags test not', None, [(FL, 'self.0 & mask == mask', '!self.0 & mask == 0')]),
    ('flags set', None, [(FL, 'if value {\n            self.add(flag)\n        } else {\n            self.remove(flag)\n        }', 'self.0 = if value { self.0 | flag } else { self.0 & !flag };')]),
    ('flags set match', None, [(FL, 'if value {\n            self.add(flag)\n        } else {\n            self.remove(flag)\n        }', 'match value {\n            true => self.add(flag),\n            false => self.remove(flag),\n        }')]),
    ('flags exact', None, [(FL, 'self.test(NodeFlags::F_EXACT) && !self.test(NodeFlags::F_RELAXED)', '!self.is_relaxed() && self.test(NodeFlags::F_EXACT)')]),
    ('flags exact bits', None, [(FL, 'self.test(NodeFlags::F_EXACT) && !self.test(NodeFlags::F_RELAXED)', 'self.0 & (NodeFlags::F_EXACT | NodeFlags::F_RELAXED) == NodeFlags::F_EXACT')]),
    ('flags consts', None, [(FL, 'pub const F_MARKED: u8 = 4;', 'pub const F_MARKED: u8 = 1 << 2;'), (FL, 'pub const F_BARRIER: u8 = 32;', 'pub const F_BARRIER: u8 = 0x20;')]),
    ('flags swap bits', None, [(FL, 'pub const F_MARKED: u8 = 4;', 'pub const F_MARKED: u8 = 8;'), (FL, 'pub const F_CUTSET: u8 = 8;', 'pub const F_CUTSET: u8 = 4;')]),
    ('flags remove', None, [(FL, 'self.0 &= !flags;', 'self.0 = self.0 & (flags ^ 0xff);')]),
    ('flags add', None, [(FL, 'self.0 |= flags;', 'self.0 = flags | self.0;')]),
    ('flags default', None, [(FL, 'NodeFlags::new_exact()\n    }\n}', 'Self(Self::F_EXACT)\n    }\n}')]),
    ('runner match', None, [(X, BV, """            let best_value = match solver.best_value() {
                Some(v) => v.to_string(),
                None => "not found".to_owned(),
            };
""")]),
    ('runner map or', None, [(X, BV, """            let best_value = solver.best_value().map_or_else(|| String::from("not found"), |v| format!("{}", v));
""")]),
    ('runner gt', None, [(X, 'start.elapsed().gt(&to)', 'start.elapsed() > to')]),
    ('runner threads', None, [(X, 'threads.unwrap_or_else(num_cpus::get)', 'threads.unwrap_or(num_cpus::get())')]),
    ('runner gap', None, [(X, 'let gap = gap(lb, ub);\n', 'let final_gap = gap(lb, ub);\n'), (X, '                gap,\n', '                final_gap,\n')]),
    ('gap swap', None, [(X, 'let u = aub.max(alb);\n    let l = aub.min(alb);\n', 'let (l, u) = if alb < aub { (alb, aub) } else { (aub, alb) };\n')]),
    ('gap diff', None, [(X, '(u - l) as f32 / u as f32', 'let diff = u - l;\n    diff as f32 / u as f32')]),
    ('gap abs diff', None, [(X, '(u - l) as f32 / u as f32', 'aub.abs_diff(alb) as f32 / u as f32')]),
    ('gap if', None, [(X, '    if lb == ub {\n        return 0.0;\n    }\n', ''), (X, '    (u - l) as f32 / u as f32', '    if lb == ub {\n        0.0\n    } else {\n        (u - l) as f32 / u as f32\n    }')]),
    ('runner helper', None, [(X, 'start.elapsed().gt(&to)', 'expired(start, to)'), (X, 'fn gap(lb', 'fn expired(start: Instant, to: Duration) -> bool {\n    start.elapsed() > to\n}\n\nfn gap(lb')]),
    ('display pad', None, [(X, 'Self::Parallel => write!(f, "parallel"),\n            Self::Barrier => write!(f, "barrier"),', 'Self::Parallel => f.write_str("parallel"),\n            Self::Barrier => f.write_str("barrier"),')]),
    ('display name', None, [(X, 'match self {\n            Self::Parallel => write!(f, "parallel"),\n            Self::Barrier => write!(f, "barrier"),\n        }', 'let name = match self {\n            Self::Parallel => "parallel",\n            Self::Barrier => "barrier",\n        };\n        write!(f, "{}", name)')]),
    ('parse if', None, [(X, 'match s {\n            "parallel" => Ok(Self::Parallel),\n            "barrier" => Ok(Self::Barrier),\n            _ => Err("The only supported solver types are \'parallel\' and \'barrier\'"),\n        }', 'if s == "parallel" {\n            Ok(Self::Parallel)\n        } else if s == "barrier" {\n            Ok(Self::Barrier)\n        } else {\n            Err("The only supported solver types are \'parallel\' and \'barrier\'")\n        }')]),
    ('timeout guard', None, [(X, 'let _lock = kswitch.lock().unwrap();\n        kat_exit();', 'let _guard = kswitch.lock().expect("poisoned");\n        (*kat_exit)();')]),
]
