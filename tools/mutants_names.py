"""Edits of the option names (C25)."""
P = 'src/prelude.rs'
X = 'src/xputils.rs'
C = 'C25'
FS = '''        match s {
            "lel" => Ok(Self::LastExactLayer),
            "frontier" => Ok(Self::Frontier),
            _ => Err("The only supported cutset types are 'lel' and 'frontier'"),
        }'''
DS = '''        match self {
            Self::LastExactLayer => write!(f, "lel"),
            Self::Frontier => write!(f, "frontier"),
        }'''
DC = '''            CompilationType::Exact => write!(f, "exact"),
            CompilationType::Relaxed => write!(f, "relaxed"),
            CompilationType::Restricted => write!(f, "restricted"),
        }'''
EDITS = [
    ('swapped parse', C, [(P, '"lel" => Ok(Self::LastExactLayer)', '"lel" => Ok(Self::Frontier)'), (P, '"frontier" => Ok(Self::Frontier)', '"frontier" => Ok(Self::LastExactLayer)')]),
    ('typo printed', C, [(X, 'write!(f, "barrier")', 'write!(f, "barriers")')]),
    ('same print', C, [(P, 'write!(f, "restricted")', 'write!(f, "relaxed")')]),
    ('alias', C, [(X, '"barrier" =>', '"barrier" | "caching" =>')]),
    ('wildcard', C, [(X, '''            _ => Err("The only supported solver types are 'parallel' and 'barrier'"),''', '            _ => Ok(Self::Parallel),')]),
    ('lowercase', C, [(P, '        match s {\n            "exact"', '        match s.to_lowercase().as_str() {\n            "exact"')]),
    ('trim', C, [(P, '        match s {\n            "exact"', '        match s.trim() {\n            "exact"')]),
    ('prefix', C, [(P, FS, '''        if s.starts_with("lel") {
            Ok(Self::LastExactLayer)
        } else if s == "frontier" {
            Ok(Self::Frontier)
        } else {
            Err("The only supported cutset types are 'lel' and 'frontier'")
        }''')]),
    ('debug print', C, [(P, 'Self::Frontier => write!(f, "frontier")', 'Self::Frontier => write!(f, "{:?}", self)')]),
    ('default solver', C, [(X, 'default_value = "parallel"', 'default_value = "Parallel"')]),
    ('default cutset', C, [(X, 'default_value = "lel"', 'default_value = "last-exact-layer"')]),
    ('default timeout', C, [(X, 'default_value = "60"', 'default_value = "60s"')]),
    ('missing parse', C, [(P, '            "exact" => Ok(CompilationType::Exact),\n', '')]),
    ('table wrong', C, [(P, FS, '''        let all = [("lel", Self::LastExactLayer), ("frontier", Self::LastExactLayer)];
        match all.iter().find(|(n, _)| *n == s) {
            Some((_, v)) => Ok(*v),
            None => Err("The only supported cutset types are 'lel' and 'frontier'"),
        }''')]),
    ('two pieces', C, [(P, 'Self::Frontier => write!(f, "frontier")', 'Self::Frontier => write!(f, "front{}", "eer")')]),
    ('if chain', None, [(P, FS, '''        if s == "lel" {
            Ok(Self::LastExactLayer)
        } else if s.eq("frontier") {
            Ok(Self::Frontier)
        } else {
            Err("The only supported cutset types are 'lel' and 'frontier'")
        }''')]),
    ('table', None, [(P, FS, '''        let all = [("lel", Self::LastExactLayer), ("frontier", Self::Frontier)];
        match all.iter().find(|(n, _)| *n == s) {
            Some((_, v)) => Ok(*v),
            None => Err("The only supported cutset types are 'lel' and 'frontier'"),
        }''')]),
    ('const table', None, [(P, FS, '''        const ALL: [(&str, CutsetType); 2] = [("lel", CutsetType::LastExactLayer), ("frontier", CutsetType::Frontier)];
        for (n, v) in ALL.iter() {
            if *n == s {
                return Ok(*v);
            }
        }
        Err("The only supported cutset types are 'lel' and 'frontier'")''')]),
    ('name then print', None, [(P, DS, '''        let name = match self {
            Self::LastExactLayer => "lel",
            Self::Frontier => "frontier",
        };
        write!(f, "{}", name)''')]),
    ('inline arg', None, [(P, DS, '''        let name = match self {
            Self::LastExactLayer => "lel",
            Self::Frontier => "frontier",
        };
        write!(f, "{name}")''')]),
    ('write_str', None, [(P, DC, '''            CompilationType::Exact => f.write_str("exact"),
            CompilationType::Relaxed => "relaxed".fmt(f),
            CompilationType::Restricted => f.pad("restricted"),
        }''')]),
    ('name method', None, [(P, DS, '''        f.write_str(self.name())'''), (P, 'impl FromStr for CutsetType {', '''impl CutsetType {
    fn name(self) -> &'static str {
        match self {
            Self::LastExactLayer => "lel",
            Self::Frontier => "frontier",
        }
    }
}
impl FromStr for CutsetType {''')]),
    ('parse by printing', None, [(P, FS, '''        for v in [Self::LastExactLayer, Self::Frontier] {
            if v.name() == s {
                return Ok(v);
            }
        }
        Err("The only supported cutset types are 'lel' and 'frontier'")'''), (P, DS, '''        f.write_str(self.name())'''), (P, 'impl FromStr for CutsetType {', '''impl CutsetType {
    fn name(self) -> &'static str {
        match self {
            Self::LastExactLayer => "lel",
            Self::Frontier => "frontier",
        }
    }
}
impl FromStr for CutsetType {''')]),
    ('early returns', None, [(X, '''        match s {
            "parallel" => Ok(Self::Parallel),
            "barrier" => Ok(Self::Barrier),
''', '''        let mut r = None;
        if s == "parallel" {
            r = Some(Self::Parallel);
        }
        if s == "barrier" {
            r = Some(Self::Barrier);
        }
        match r {
            Some(v) => Ok(v),
''')]),
    ('ok_or', None, [(X, '''        match s {
            "parallel" => Ok(Self::Parallel),
            "barrier" => Ok(Self::Barrier),
            _ => Err("The only supported solver types are 'parallel' and 'barrier'"),
        }''', '''        match s {
            "parallel" => Some(Self::Parallel),
            "barrier" => Some(Self::Barrier),
            _ => None,
        }
        .ok_or("The only supported solver types are 'parallel' and 'barrier'")''')]),
    ('if let display', None, [(X, '''        match self {
            Self::Parallel => write!(f, "parallel"),
            Self::Barrier => write!(f, "barrier"),
        }''', '''        if *self == Self::Barrier {
            return write!(f, "barrier");
        }
        write!(f, "parallel")''')]),
    ('matches display', None, [(X, '''        match self {
            Self::Parallel => write!(f, "parallel"),
            Self::Barrier => write!(f, "barrier"),
        }''', '''        let s = if matches!(self, Self::Barrier) { "barrier" } else { "parallel" };
        write!(f, "{}", s)''')]),
]
